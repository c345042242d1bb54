"""Tag checks: histories of calls on tags -> implementation -> TagTrace."""
import json, os
from vp import *
from an import validate_all, mk_toys, toy

REAL_DICT = '/opt/venv/lib/pypy3.9/site-packages/pymorphy2_dicts_ru/data'
OLD_DICT = '/opt/venv-slow/lib/pypy3.9/site-packages/pymorphy2_dicts/data'


def tag_check(ck, mode, groups, clauses):
    d = ck.work('tags')
    os.makedirs(d)
    pf = os.path.join(d, 'params.json')
    json.dump({'mode': mode, 'groups': groups, 'seed': SEED}, open(pf, 'w'))
    run([sys.executable, os.path.join(HARN, 'gen_tags.py'), pf, d])
    cases = [json.loads(l) for l in open(os.path.join(d, 'cases.ndjson'), encoding='utf8').read().split('\n') if l]
    ctx = json.load(open(os.path.join(d, 'ctx.json'), encoding='utf8'))
    obs = drive(ck.work, os.path.join(d, 'jobs.json'), os.path.join(d, 'out'), script='drive_tags.py', shards=len(groups))
    for c in cases:
        c['obs'] = obs[c['id']]
    r = validate_all(ck.work, 'TagTrace', ctx, cases)
    ck.add_tlc(r)
    ck.validated += len(cases)
    for c in cases[::max(1, len(cases) // 4)][:4]:
        ck.sample({'tag': c['s'], 'calls': list(zip(c['ops'], c['obs']['calls']))[:3]})
    ck.judge(cases, r, clauses, lambda c, cl: 'tag %r group %d [%s]' % (c['s'], c['gt'], ','.join(cl)))
