# -*- coding: utf-8 -*-
"""The command line.  usage: drive_cli.py JOB OUT SHARD N
JOB: {dir, cases: [{id, text, argv, dict, stdin, proc, opt}]}"""
from __future__ import print_function
import io, json, os, subprocess, sys, unicodedata
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from drive_text import tok_class

def lex(text):
    res, cur = set(), u''
    for ch in text:
        if ch in u'_-' or tok_class(ch) == 'W': cur += ch
        else:
            if cur: res.add(cur)
            cur = u''
            if tok_class(ch) != 'S': res.add(ch)
    if cur: res.add(cur)
    return res

def tokenset(text, tokenized):
    if not tokenized: return lex(text)
    return set(l.strip() for l in text.replace(u'\r', u'\n').split(u'\n')) - set([u''])

MS = {}
def analyzer(path, lang):
    import pymorphy2
    if (path, lang) not in MS: MS[path, lang] = pymorphy2.MorphAnalyzer(path=path, lang=lang)
    return MS[path, lang]

def run(c, d):
    argv = ['parse'] + c['argv'] + (['--dict', c['dict']] if c['dict'] else []) + (['--lang', c['lang']] if c['lang'] != 'ru' or c['id'] % 3 else [])    # Russian is the default
    data = c['text'].encode('utf8')
    fn = None
    if not c['stdin']:
        fn = os.path.join(d, 'in%s.txt' % c['id'])
        with open(fn, 'wb') as f: f.write(data)
        argv.append(fn)
    try:
        if c['proc']:
            p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys; from pymorphy2.cli import main; main(sys.argv[1:])'] + argv, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            exc = ''
            if p.returncode: exc = p.stderr.decode('utf8', 'replace').strip().split('\n')[-1].split(':')[0]
            return exc, p.stdout.decode('utf8')
        from pymorphy2.cli import main
        o, i = sys.stdout, sys.stdin
        sys.stdout, sys.stdin, exc = io.StringIO(newline=''), io.TextIOWrapper(io.BytesIO(data), encoding='utf8'), ''
        try: main(argv)
        except SystemExit as e: exc = "SystemExit"
        except Exception as e: exc = type(e).__name__
        finally:
            s = sys.stdout.getvalue()
            sys.stdout, sys.stdin = o, i
        return exc, s
    finally:
        if fn: os.remove(fn)

def main():
    import warnings
    warnings.simplefilter('ignore')
    job, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    import pymorphy2
    assert pymorphy2.__file__.startswith('/repo/'), pymorphy2.__file__
    J = json.load(io.open(job, encoding='utf8'))
    with io.open(out, 'w', encoding='utf8') as o:
        for i, c in enumerate(J['cases']):
            if i % n != shard: continue
            exc, s = run(c, J['dir'])
            m = analyzer(c['dict'] or None, c['lang'])
            ana, tags, near = {}, {}, False
            U = lambda x: int(round(x * 1e8))
            th = float(c['thresh'])
            for t in tokenset(c['text'], c['tokenized']):
                ps = m.parse(t)
                ana[t] = [[p.normal_form, U(p.score), str(p.tag)] for p in ps]
                tags[t] = [str(x) for x in m.tag(t)]
                w, rough = {}, []
                for p in ps: w[p.normal_form] = w.get(p.normal_form, 0) + p.score
                for l in w:     # sums of numbers that are not exact in binary
                    xs = [p.score for p in ps if p.normal_form == l]
                    if len(xs) > 1 and any(x * 1024 != int(x * 1024) for x in xs): rough.append(w[l])
                near = near or any(abs(x - th) < 1e-6 for x in rough)
                # a score that is not the threshold, but too close to it for the specification to see
                near = near or any(0 < abs(x - th) < 1e-6 for x in [p.score for p in ps] + list(w.values()))
            cls = dict((ch, tok_class(ch)) for ch in set(c['text']) if tok_class(ch))
            o.write(json.dumps({'id': c['id'], 'obs': {'exc': exc, 'out': s, 'ana': ana, 'tags': tags, 'near': near, 'cls': cls}}, ensure_ascii=False) + u'\n')

if __name__ == '__main__':
    main()
