"""Command line checks: texts and options -> implementation -> CliTrace."""
import json, os, random, subprocess
from vp import *
from an import mk_toys, toy, validate_all
from tags import REAL_DICT
import hist


def texts(rng, words, n):
    odd = ['{', '}', '|', ':', '=', '...', '—', '\u00a0', '\u2028', '\x85', '\t', '12', '3.14', 'xvi', 'ok', '_', '-', 'А', '🙂', '%s', '\\n', "'", '&amp;', '\ufeff', 'а\u0301', '\u0301', '\xad', 'о\xadн', 'е\u0308', '\u200d', 'и\u0306', '\u200b', 'İ', 'ß', 'Ⅳ', '²', '½', 'ǅ', '\U00010400', '\x00', '\x1b']
    res = ['', '\n', ' \n\n ', 'а', 'а\n', '\r\nа\rаб\n\nа', 'а{б|в}:=а']
    for _ in range(n):
        pool = rng.sample(words, min(len(words), rng.choice([1, 2, 3, 4, 6, 30])))
        t = ''
        for _ in range(rng.choice([1, 5, 12, 25])):
            w = rng.choice(pool) if rng.random() < .85 else rng.choice(odd)
            if rng.random() < .06:      # a character that is rare in the middle of a word
                k = rng.randrange(len(w) + 1)
                w = w[:k] + rng.choice(odd)[-1] + w[k:]
            if rng.random() < .1: w = rng.choice([w.upper(), w.title(), w + '-то', 'не' + w])
            t += w + rng.choice([' ', ' ', '\n', '\n', '', ', ', '\r\n', ' \t ', '.\n'])
        res.append(t)
    return res


def cli_check(ck, n, nproc, nreal):
    rng = random.Random(SEED)
    ck.add_tlc(tlc(ck.work, 'Cli', {}))
    la, lb, pa, pb = hist.standard(ck)
    words = hist.words_of(la) + hist.words_of(lb)
    cases = []
    def add(text, dict_, lang, **kw):
        o = {k: rng.random() < .5 for k in 'lst'}
        if rng.random() < .3: o = dict(o, l=True, t=False)      # aggregated
        o.update({k: kw[k] for k in 'lst' if k in kw})
        th = kw.get('thresh') or rng.choice(['0.0', '0', '0.01', '0.1', '0.25', '0.3', '0.5', '1', '0.999', '1.5', None, '0.001', '0.005', '1e-6', '0.00001', '0.05'])
        cache = kw.get('cache', rng.choice(['0', '1', '2', '3', '5', 'unlim', '20000', None]))
        tk = kw.get('tokenized', rng.random() < .4)
        argv = []
        for k, names in (('l', ['-l', '--lemmatize']), ('s', ['-s', '--score']), ('t', ['-t', '--tag'])):
            if o[k]: argv.append(rng.choice(names))
        if th is not None: argv += ['--thresh', th]
        if cache is not None: argv += rng.choice([['-c', cache], ['--cache', cache], ['--cache=' + cache]])
        if tk: argv.append('--tokenized')
        rng.shuffle(argv) if False else None
        cases.append({'id': len(cases) + 1, 'text': text, 'argv': argv, 'dict': dict_, 'lang': lang, 'stdin': rng.random() < .3, 'proc': bool(kw.get('proc')),
                      'thresh': th or '0', 'tokenized': tk, 'opt': dict(o, tokenized=tk, thresh=int(round(float(th or 0) * 1e8)))})
    cfg = [(pa, 'ru'), (pb, 'ru'), (pb, 'uk')]
    ts = texts(rng, words, n)
    for t in ts:
        d, l = rng.choice(cfg)
        add(t, d, l)
        add(t, d, l)
    # one text and options, all cache sizes
    for t in rng.sample(ts, min(len(ts), n // 10 + 5)):
        d, l = rng.choice(cfg)
        fl = {k: rng.random() < .6 for k in 'lst'}
        for c in ('0', '1', '2', '4', 'unlim'): add(t, d, l, cache=c, tokenized=False, **fl)
    # all options over one text
    t = ' '.join(rng.sample(words, 6) * 2)
    for l in (0, 1):
        for s in (0, 1):
            for g in (0, 1):
                for th in ('0', '1e-6', '0.004', '0.2', '0.5', '1', '2'): add(t, pa, 'ru', l=bool(l), s=bool(s), t=bool(g), thresh=th)
    for t in texts(rng, hist.real_words(300), nreal)[7:]:
        add(t, rng.choice([REAL_DICT, '']), 'ru')
    for t in texts(rng, words, nproc)[7:]: add(t, pa, 'ru', proc=True)
    d = ck.work('cli')
    os.makedirs(d)
    jf = os.path.join(d, 'job.json')
    json.dump({'dir': d, 'cases': cases}, open(jf, 'w', encoding='utf8'), ensure_ascii=False)
    obs = drive(ck.work, jf, jf + '.out', script='drive_cli.py', shards=8)
    keep = []
    for c in cases:
        o = obs[c['id']]
        if o['near']: continue
        keep.append({'id': c['id'], 'text': c['text'], 'cls': o['cls'], 'opt': c['opt'], 'ana': o['ana'], 'tags': o['tags'], 'obs': {'exc': o['exc'], 'out': o['out']}, 'argv': c['argv']})
    r = validate_all(ck.work, 'CliTrace', {}, keep)
    ck.add_tlc(r)
    ck.validated += len(keep)
    for c in keep[::max(1, len(keep) // 4)][:4]: ck.sample({'argv': c['argv'], 'text': c['text'][:80], 'out': c['obs']['out'][:150]})
    ck.judge(keep, r, None, lambda c, cl: 'parse %s < %r [%s]' % (' '.join(c['argv']), c['text'][:200], ','.join(cl)))
    meta_check(ck, [['--dict', pa], ['--dict', pb], ['--dict', REAL_DICT], ['--lang', 'ru'], []])


def meta_check(ck, argvs):
    """pymorphy dict meta"""
    cases = []
    jobs = [(i, a) for a in argvs for i in ((FAST, SLOW) if a[:1] == ['--dict'] else (FAST,))]
    def one(interp, argv):
        p = subprocess.run([interp, '-W', 'ignore', '-c', 'import sys; from pymorphy2.cli import main; main(sys.argv[1:])', 'dict', 'meta'] + argv,
                           cwd='/repo', env=dict(os.environ, PYTHONIOENCODING='utf8', PYTHONPATH='/repo', PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    res = parallel([lambda i=i, a=a: one(i, a) for i, a in jobs], 4)
    plain = lambda v: str(v) if isinstance(v, (str, int)) else '?'
    for (i, a), (rc, out) in zip(jobs, res):
        meta = json.load(open(os.path.join(a[1] if a[:1] == ['--dict'] else REAL_DICT, 'meta.json'), encoding='utf8'))
        cases.append({'id': len(cases) + 1, 'lines': out.split('\n'), 'exc': 'exit code %d' % rc if rc else '', 'meta': [[k, plain(v)] for k, v in meta], 'argv': a})
    r = validate_all(ck.work, 'CliMetaTrace', {}, cases)
    ck.add_tlc(r)
    ck.validated += len(cases)
    ck.judge(cases, r, None, lambda c, cl: 'dict meta %s: %s [%s]' % (' '.join(c['argv']), '; '.join(c['lines'])[:200], ','.join(cl)))
