"""Running analyzer checks: toy dictionaries -> cases -> implementation -> TLC."""
import json, os, re
from vp import *


def mk_toys(work, specs):
    """compile toy lexicons with the implementation; specs get a 'path'"""
    with open(work('toyspecs.json'), 'w', encoding='utf8') as f:
        json.dump(specs, f, ensure_ascii=False)
    run([sys.executable, os.path.join(HARN, 'mk_toys.py'), work('toyspecs.json'), work.dir])
    run([FAST, os.path.join(HARN, 'compile_toys.py'), work('jobs.json')])
    for s in specs:
        s['path'] = work(s['name'])
        if os.path.exists(s['path'] + '.err'):
            err = open(s['path'] + '.err', encoding='utf8').read()
            raise Broken('a valid lexicon is not compiled: ' + (err.strip() or '?').split('\n')[-1][:200], {'toy': s, 'error': err[-4000:]})
    return specs


def toy(i, **kw):
    d = {'name': 'toy%d' % i, 'seed': SEED * 1000 + i}
    d.update(kw)
    return d


class Batch:
    """cases made by one generator"""
    def __init__(self, work, gen, params, tag=''):
        self.work, self.tag = work, tag
        self.dir = work('b' + tag)
        os.makedirs(self.dir)
        with open(os.path.join(self.dir, 'params.json'), 'w', encoding='utf8') as f:
            json.dump(params, f, ensure_ascii=False)
        run([SLOW, os.path.join(HARN, 'mk.py'), gen, os.path.join(self.dir, 'params.json'), self.dir])
        self.cases = [json.loads(l) for l in open(os.path.join(self.dir, 'cases.ndjson'), encoding='utf8', errors='surrogatepass').read().split('\n') if l]
        self.ctx = json.load(open(os.path.join(self.dir, 'ctx.json'), encoding='utf8'))
        self.job = os.path.join(self.dir, 'job.ndjson')

    def drive(self, interp=FAST, shards=4, name='out'):
        return drive(self.work, self.job, os.path.join(self.dir, name), interp=interp, shards=shards)


def chunks(seq, n):
    k = (len(seq) + n - 1) // n or 1
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def validate_all(work, module, ctx, cases, tag='', timeout=850, procs=None):
    """several TLC processes when there are many cases (initial states are computed by one thread)"""
    if procs is None:
        procs = 1 if len(cases) < 500 else 2 if len(cases) < 1500 else 4
    parts = chunks(cases, procs)
    rs = parallel([lambda p=p, i=i: validate(work, module, ctx, p, tag='%s_%d' % (tag, i), timeout=timeout,
                                             workers=max(2, 8 // len(parts))) for i, p in enumerate(parts)], len(parts))
    tot = TLCResult()
    for r in rs:
        tot.ok |= r.ok
        tot.bad.update(r.bad)
        tot.states += r.states
        tot.transitions += r.transitions
    return tot


def analyzer_check(ck, gen, params, module, clauses, interps=('fast',), tag=''):
    """the whole pipeline for one generator; violations are cases with any of the clauses"""
    if params.get('toys') and not params['toys'][0].get('path'):
        mk_toys(ck.work, params['toys'])
    params.setdefault('seed', SEED)
    b = Batch(ck.work, gen, params, tag)
    for name in interps:
        obs = b.drive(FAST if name == 'fast' else SLOW, name=name)
        for c in b.cases:
            if c['id'] not in obs:
                raise Machinery('no observation for case %s' % c['id'])
            c['obs'] = obs[c['id']]
        r = validate_all(ck.work, module, b.ctx, b.cases, tag=tag + name)
        ck.add_tlc(r)
        ck.validated += len(b.cases)
        for c in b.cases[:: max(1, len(b.cases) // 3)][:3]:
            ck.sample({'backend': name, 'word': c['w'], 'parse': c['obs'].get('parse', [])[:2]})
        ck.judge(b.cases, r, clauses, lambda c, cl: describe(b, c, cl, name))
        other = sorted({x for i in r.bad for x in r.bad[i][0] if x not in clauses})
        if other:
            ck.extra.setdefault('other_clauses', []).extend(other)
    return b


def describe(b, c, cl, name):
    cfg = b.ctx['configs'][c['cfg'] - 1]
    return '%s %r [%s]' % ('real' if not c['di'] and 'd' in c else 'toy', c['w'], ','.join(cl))
