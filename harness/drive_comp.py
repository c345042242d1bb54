# -*- coding: utf-8 -*-
"""Convert lexicons with the implementation, load the results and dump them.
usage: drive_comp.py JOBS.json OUT SHARD NSHARDS"""
import contextlib, io, json, os, shutil, signal, sys, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/venv-slow/lib/pypy3.9/site-packages')       # dawg_python, for the independent reader
import pymorphy2
assert pymorphy2.__file__.startswith('/repo/'), pymorphy2.__file__
from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
from slices import Reader


class TookTooLong(Exception):
    pass

def _alarm(sig, frame):
    raise TookTooLong('no answer')


def entries(path):
    morph = pymorphy2.MorphAnalyzer(path, units=[pymorphy2.units.DictionaryAnalyzer()])
    for p in morph.iter_known_word_parses(u''):
        yield {'w': p[0], 't': str(p[1]), 'nf': p[2], 'lex': [[f[0], str(f[1])] for f in morph.get_lexeme(p)]}


def tables(path):
    r = Reader(path)
    return [[[e, c, [list(x) for x in r.paradigm(p)], i + 1] for e, (c, p, i) in d.iteritems()] for d in r.pred]


def main():
    signal.signal(signal.SIGALRM, _alarm)
    jobs = json.load(io.open(sys.argv[1], encoding='utf8'))
    shard, n = int(sys.argv[3]), int(sys.argv[4])
    with io.open(sys.argv[2], 'w', encoding='utf8') as o:
        for k, j in enumerate(jobs):
            if k % n != shard: continue
            exc, ents, pred = '', [], []
            signal.alarm(100)
            try:
                with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
                    convert_to_pymorphy2(j['xml'], j['out'], source_name='toy', language_code='ru', compile_options=j['options'])
                ents = list(entries(j['out']))
                if j['pred']: pred = tables(j['out'])
            except Exception as e:
                exc = '%s: %s' % (type(e).__name__, e)
            signal.alarm(0)
            by = {}
            if len(j['cases']) > 1:
                for e in ents:
                    by.setdefault(e['w'].split(u'ц')[0] + u'ц', []).append(e)
            for id, pre in j['cases']:
                es = by.get(pre, []) if len(j['cases']) > 1 else ents
                o.write(json.dumps({'id': id, 'obs': {'exc': exc, 'entries': es, 'pred': pred}}, ensure_ascii=False) + u'\n')
            shutil.rmtree(j['out'], ignore_errors=True)

if __name__ == '__main__':
    main()
