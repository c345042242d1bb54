"""Compiler checks: source lexicons -> implementation -> CompileTrace."""
import json, os
from vp import *
from an import chunks


def compile_check(ck, params, clauses, tag='', procs=None):
    d = ck.work('c' + tag)
    os.makedirs(d)
    params = dict(params, seed=SEED)
    pf = os.path.join(d, 'params.json')
    json.dump(params, open(pf, 'w'))
    run([sys.executable, os.path.join(HARN, 'gen_comp.py'), pf, d])
    cases = json.load(open(os.path.join(d, 'cases.json'), encoding='utf8'))
    obs = drive(ck.work, os.path.join(d, 'jobs.json'), os.path.join(d, 'out'), script='drive_comp.py', shards=8)
    for c in cases:
        if c['id'] not in obs:
            raise Machinery('no observation for %s' % c['id'])
        c['obs'] = obs[c['id']]
    rng = __import__('random').Random(1)
    order = list(cases)
    rng.shuffle(order)
    procs = procs or (8 if len(cases) > 1500 else 4 if len(cases) > 60 else 2)
    parts = chunks(order, procs)
    rs = parallel([lambda p=p, i=i: validate(ck.work, 'CompileTrace', {}, p, tag='%s_%d' % (tag, i), workers=max(1, 8 // len(parts)))
                   for i, p in enumerate(parts)], len(parts))
    tot = TLCResult()
    for r in rs:
        tot.ok |= r.ok; tot.bad.update(r.bad); tot.states += r.states; tot.transitions += r.transitions
    ck.add_tlc(tot)
    ck.validated += len(cases)
    for c in cases[::max(1, len(cases) // 3)][:3]:
        ck.sample({'links': c['src']['links'][:5], 'lexemes': c['src']['lexs'][:2], 'entries': c['obs']['entries'][:2]})
    ck.judge(cases, tot, clauses, lambda c, cl: 'lexicon %s [%s]' % (
        json.dumps(c['src'], ensure_ascii=False) if len(json.dumps(c['src'])) < 1500 else 'case %d' % c['id'], ','.join(cl)))
    other = sorted({x for i in tot.bad for x in tot.bad[i][0] if x not in clauses})
    if other: ck.extra.setdefault('other_clauses', []).extend(other)
    return cases
