# -*- coding: utf-8 -*-
"""P(t|w) tables.  usage: drive_prob.py JOB OUT SHARD N
 tags:  {path, words}                        tags of words, without a table
 build: {path, out, steps: [[corpus file, min]], words}  add a table to a copy of the dictionary (several times)"""
from __future__ import print_function
import contextlib, io, json, os, shutil, sys, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'fakes'))
_M = {}


@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn): yield


def plain(path):
    import pymorphy2
    if path not in _M: _M[path] = pymorphy2.MorphAnalyzer(path, probability_estimator_cls=None)
    return _M[path]


def op_tags(it):
    m = plain(it['path'])
    return [[w, w.lower(), [str(t) for t in m.tag(w)], [str(p.tag) for p in m.parse(w)]] for w in it['words']]


def meta(path):
    return json.load(io.open(os.path.join(path, 'meta.json'), encoding='utf8'))


def op_build(it):
    import pymorphy2
    from pymorphy2.opencorpora_dict.probability import add_conditional_tag_probability
    from pymorphy2.dawg import ConditionalProbDistDAWG
    shutil.copytree(it['path'], it['out'])
    try:
        before = meta(it['out'])
        for corpus, mn in it['steps']:
            with quiet(): add_conditional_tag_probability(corpus, it['out'], mn)
        d = ConditionalProbDistDAWG().load(os.path.join(it['out'], 'p_t_given_w.intdawg'))
        table = [[k.rsplit(':', 1), v] for k, v in d.items()]
        m = pymorphy2.MorphAnalyzer(it['out'])
        words = it['words']
        ps = [[[str(p.tag), int(round(p.score * 1e6)), p.score] for p in m.parse(w)] for w in words]
        ordered = [all(a[2] >= b[2] for a, b in zip(x, x[1:])) for x in ps]
        same = [sorted(str(t) for t in m.tag(w)) == sorted(set(str(t) for t in plain(it['path']).tag(w))) for w in words]
        return {'exc': '', 'table': table, 'before': before, 'after': meta(it['out']), 'scores': [[[a, b] for a, b, c in x] for x in ps], 'ordered': ordered, 'same': same,
                'probs': [[[str(t), int(round(m.prob_estimator.p_t_given_w.prob(w.lower(), t) * 1e6))] for t in m.tag(w)] for w in words]}
    except Exception as e:
        import traceback
        return {'exc': type(e).__name__, 'tb': traceback.format_exc()[-800:]}
    finally:
        shutil.rmtree(it['out'])


def main():
    warnings.simplefilter('ignore')
    job, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    import pymorphy2
    assert pymorphy2.__file__.startswith('/repo/'), pymorphy2.__file__
    J = json.load(io.open(job, encoding='utf8'))
    with io.open(out, 'w', encoding='utf8') as o:
        for i, it in enumerate(J['items']):
            if i % n != shard: continue
            o.write(json.dumps({'id': it['id'], 'obs': globals()['op_' + it['op']](it)}, ensure_ascii=False) + u'\n')

if __name__ == '__main__':
    main()
