"""Saving, loading, interrupted conversions -> FormatTrace / StoreTrace."""
import json, os, random, shutil
from vp import *
from an import validate_all
sys.path.insert(0, HARN)
import toys, gen_comp


VERSIONS = {}

def write_xml(ck, rng, name, n, links=True):
    src = gen_comp.random_source(rng, n)
    ids = [l['id'] for l in src]
    lk = [[rng.choice(ids), rng.choice(ids), rng.choice(['1', '3', '7'])] for _ in range(rng.randrange(4))] if links and ids else []
    fn = ck.work(name)
    lexemes = [(str(l['id']), l['base'], [(f['w'], f['g']) for f in l['forms']] or None) for l in src]
    toys.write_xml(fn, lexemes, lk)
    VERSIONS[fn] = toys.version_of(lexemes, lk)
    return fn, len(src), len(lk)


def drive_items(ck, items, interp=FAST, tag='', shards=8):
    jf = ck.work('store%s.json' % tag)
    json.dump({'items': items}, open(jf, 'w', encoding='utf8'), ensure_ascii=False)
    return drive(ck.work, jf, jf + '.out', interp=interp, script='drive_store.py', shards=shards)


def convert_all(ck, jobs):
    """fresh folders"""
    json.dump(jobs, open(ck.work('cj.json'), 'w', encoding='utf8'), ensure_ascii=False)
    run([FAST, os.path.join(HARN, 'compile_toys.py'), ck.work('cj.json')])
    for j in jobs:
        if os.path.exists(j['out'] + '.err'): raise Machinery('not compiled: ' + open(j['out'] + '.err').read())


def roundtrip_check(ck, n, nv, nf):
    rng = random.Random(SEED)
    cases, items, info = [], [], {}
    for i in range(n):
        xml, nl, nk = write_xml(ck, rng, 'r%d.xml' % i, rng.choice([0, 1, 3, 6, 12]))
        o = gen_comp.rand_options(rng)
        lang, source = rng.choice(['ru', 'uk', 'xx', 'ё']), rng.choice(['toy', 'имя "x" \\', ''])
        it = {'id': len(items) + 1, 'op': 'round', 'xml': xml, 'options': o, 'lang': lang, 'source': source, 'out': ck.work('r%d' % i)}
        items.append(it)
        info[it['id']] = (o, lang, source)
    obs = drive_items(ck, items, tag='r')
    slow = drive_items(ck, [{'id': it['id'], 'op': 'load', 'path': it['out']} for it in items if not obs[it['id']]['exc']], interp=SLOW, tag='s')
    for it in items:
        x, (o, lang, source) = obs[it['id']], info[it['id']]
        c = {'id': it['id'], 'kind': 'round', 'exc': x['exc'], 'what': [o, lang, source]}
        if not x['exc']:
            s = slow[it['id']]
            c.update(mem=x['mem'], bytes=x['bytes'], loaded=[x['loaded']] + ([s['loaded']] if not s['exc'] else []), meta=x['loaded']['meta'],
                     given={'language_code': lang, 'source': source, 'source_version': VERSIONS[it['xml']][0], 'source_revision': VERSIONS[it['xml']][1]},
                     source=[list(g) for g in toys.grammemes()])
            if s['exc']: c['exc'] = 'python dawg: ' + s['exc']
        cases.append(c)
    # format versions
    base = next(it['out'] for it in items if not obs[it['id']]['exc'])
    vs = ['2.4', '2.0', '2.5', '2.99', '2.10', '2.x', '2.', '2.4a', '3.0', '1.4', '0.0', '3.4', '22.4', '20.4', '12.4', '.4', '.', '', '2', '24', 'x.y', '2,4', '4.2', '-2.4', ' 2.4', '02.4', '2 .4', '2.4.1', '3.2.4', '2-4', 'Ⅱ.4']
    for _ in range(nv): vs.append('%s.%s' % (rng.choice(['2', '2', '1', '3', '22', '12', '9', '2a']), rng.choice(['0', '3', '4', '5', '12', '999', 'dev'])))
    vitems = []
    for v in dict.fromkeys(vs):
        vitems.append({'id': len(vitems) + 1, 'op': 'version', 'base': base, 'version': v, 'key': True, 'out': ck.work('v%d' % len(vitems))})
    for v in ('2.4', '2.9', '3.0', '1.0', '2', '3'):
        vitems.append({'id': len(vitems) + 1, 'op': 'version', 'base': base, 'version': v, 'key': True, 'raw': True, 'out': ck.work('v%d' % len(vitems))})
    vitems.append({'id': len(vitems) + 1, 'op': 'version', 'base': base, 'version': '', 'key': False, 'out': ck.work('vn')})
    for interp, t in ((FAST, 'vf'), (SLOW, 'vs')):
        vo = drive_items(ck, vitems, interp=interp, tag=t)
        for it in vitems:
            cases.append({'id': len(cases) + 1, 'kind': 'version', 'v': it['version'], 'obs': vo[it['id']]})
    # folders
    fx, _, _ = write_xml(ck, rng, 'f.xml', 8)
    fo = gen_comp.rand_options(rng)
    convert_all(ck, [dict(xml=fx, out=ck.work('fresh'), options=fo, lang='ru')])
    fitems = []
    others = [it['out'] for it in items if not obs[it['id']]['exc']]
    for start in ['', 'empty', 'other', 'file'] + [rng.choice(others) for _ in range(nf)]:
        for ov in (False, True):
            if start == 'file' and ov: continue
            fitems.append({'id': len(fitems) + 1, 'op': 'folder', 'xml': fx, 'options': fo, 'out': ck.work('o%d' % len(fitems)), 'start': start, 'overwrite': ov, 'new': ck.work('fresh')})
    for it, o in [(it, o) for o_ in [drive_items(ck, fitems, tag='f')] for it in fitems for o in [o_[it['id']]]]:
        cases.append(dict(o, id=len(cases) + 1, kind='folder', overwrite=it['overwrite'], start=os.path.basename(it['start'])))
    r = validate_all(ck.work, 'FormatTrace', {}, cases)
    ck.add_tlc(r)
    ck.validated += len(cases)
    ck.sample({'options': cases[0].get('what'), 'meta': cases[0].get('meta')})
    for c in cases[n::max(1, (len(cases) - n) // 4)][:4]: ck.sample(c)
    ck.judge(cases, r, None, lambda c, cl: '%s %s [%s]' % (c['kind'], json.dumps([c.get('what'), c.get('v'), c.get('start'), c.get('overwrite')], ensure_ascii=False), ','.join(cl)))


def crash_check(ck, n, ntorn, nfault):
    rng = random.Random(SEED)
    ck.add_tlc(tlc(ck.work, 'Store', {}))
    r = tlc(ck.work, 'Store', {}, cfg='StoreMixture.cfg', expect_ok=False)
    if 'Invariant NeverWrong is violated' not in r.out: raise Machinery('the mixture of dictionaries is not found by TLC')
    jobs, jobs2 = [], []
    for i in range(n):
        xml, _, _ = write_xml(ck, rng, 'c%d.xml' % i, rng.choice([3, 6, 10]))
        o = gen_comp.rand_options(rng)
        jobs.append(dict(xml=xml, out=ck.work('n%d' % i), options=o, lang='ru'))
        jobs2.append(dict(jobs[i], out=ck.work('np%d' % i), prob='full', seed=i))
    # the same lexicon with other options, and a lexicon with more grammemes' worth of tags
    convert_all(ck, jobs + jobs2)
    items, info = [], {}
    def add(i, start, fault=None, overwrite=False, debrisfrom=None, prob=False):
        j = jobs[i]
        it = {'id': len(items) + 1, 'op': 'crash', 'xml': j['xml'], 'options': j['options'], 'out': ck.work('x%d' % len(items)), 'start': (jobs2 if prob else jobs)[start]['out'] if start is not None else '',
              'fault': fault, 'overwrite': overwrite, 'snaps': ck.work('s%d' % len(items)), 'torn': ntorn, 'debrisfrom': debrisfrom or ''}
        items.append(it)
        info[it['id']] = (i, start, prob)
    for i in range(n):
        add(i, None)
        add(i, (i + 1) % n, overwrite=True, prob=True)
        add(i, i, overwrite=True, prob=True)
        add(i, (i + 1) % n, overwrite=True)
        add(i, i, overwrite=True)
        # leftovers of an interrupted conversion of another dictionary
        other = jobs[(i + 1) % n]['out']
        fs = [f for f in os.listdir(other) if f != 'meta.json']
        left = [[f, rng.choice([None, None, 0, 3, os.path.getsize(os.path.join(other, f)) // 2])] for f in rng.sample(fs, rng.randrange(1, len(fs) + 1))]
        add(i, None, {'debris': left}, True, other)
    for k in range(nfault):
        i = rng.randrange(n)
        files = os.listdir(jobs[i]['out'])
        start = rng.choice([None, (i + 1) % n])
        sizes = sorted(set(os.path.getsize(os.path.join(jobs[i]['out'], f)) for f in files))
        kind = k % 3
        if kind == 0: add(i, start, {'fsize': rng.choice([rng.randrange(sizes[-1] + 100), rng.choice(sizes) - 1, rng.choice(sizes), rng.randrange(1000)])}, start is not None)
        elif kind == 1: add(i, start, {'full': rng.choice(files)}, True)
        else: add(i, start, {'dir': rng.choice(files)}, True)
    obs = drive_items(ck, items, tag='c')
    loads, ids = [], {}
    for it in items:
        i, start, prob = info[it['id']]
        o = obs[it['id']]
        ids[it['id']] = [o['snaps'], o['torn']]
        loads.append({'id': it['id'], 'op': 'loads', 'dirs': o['snaps'] + o['torn'], 'old': (jobs2 if prob else jobs)[start]['out'] if start is not None else '', 'new': jobs[i]['out']})
    cases = []
    for interp, t in ((FAST, 'lf'), (SLOW, 'ls')):
        lo = drive_items(ck, loads, interp=interp, tag=t)
        for it in items:
            i, start, prob = info[it['id']]
            l = [{'load': a, 'files': b} for a, b, _ in lo[it['id']]['loads']]
            k = len(ids[it['id']][0])
            st = 'fails' if start is None else 'new' if start == i and lo[it['id']]['same'] else 'old'
            cases.append({'id': len(cases) + 1, 'start': st, 'snaps': l[:k], 'torn': l[k:], 'end': obs[it['id']]['end'],
                          'what': {'dict': i, 'prob': prob, 'over': -1 if start is None else start, 'fault': json.dumps(it['fault'])}, 'dirs': [os.path.basename(d) for d in ids[it['id']][0] + ids[it['id']][1]]})
    r = validate_all(ck.work, 'StoreTrace', {}, cases)
    ck.add_tlc(r)
    ck.validated += len(cases)
    ck.extra['folder_states'] = sum(len(c['snaps']) + len(c['torn']) for c in cases)
    for c in cases[::max(1, len(cases) // 5)][:5]: ck.sample({k: c[k] for k in ('what', 'end', 'snaps')})
    def desc(c, cl):
        n = [x['load'] for x in c['snaps'] + c['torn']]
        return 'conversion %s, ended %s: %s [%s]' % (json.dumps(c['what']), c['end'][:40], ' '.join('%s=%s' % (d, x) for d, x in zip(c['dirs'], n) if x == 'other')[:100], ','.join(cl))
    ck.judge(cases, r, None, desc)


def est_check(ck, n, nfault, ntorn):
    """interrupted estimation of P(t|w)"""
    rng = random.Random(SEED)
    ck.add_tlc(tlc(ck.work, 'Estimate', {}))
    r = tlc(ck.work, 'Estimate', {}, cfg='EstimateMetaFirst.cfg', expect_ok=False)
    if 'Invariant KeepsWorking is violated' not in r.out: raise Machinery('TLC does not find what goes wrong when the metadata is written first')
    import prob
    jobs = []
    for i in range(n):
        xml, _, _ = write_xml(ck, rng, 'e%d.xml' % i, rng.choice([4, 8, 12]))
        jobs.append(dict(xml=xml, out=ck.work('e%d' % i), options=gen_comp.rand_options(rng), lang='ru'))
    convert_all(ck, jobs)
    tags = drive_items(ck, [{'id': i + 1, 'op': 'tags', 'path': j['out']} for i, j in enumerate(jobs)], tag='et')
    ests = []
    for i, j in enumerate(jobs):
        T = dict(tags[i + 1])
        for k in range(4):      # the last two: an unreadable corpus, one that fails while it is read
            fn = ck.work('ec%d_%d.json' % (i, k))
            with open(fn, 'w', encoding='utf8') as f:
                c = prob.corpus(rng, T, rng.choice([20, 60, 150]))
                if k == 3: c.insert(rng.randrange(len(c) // 2, len(c) + 1), [None, rng.choice(['IOError', 'SyntaxError', 'EOFError', 'UnicodeError'])])
                c = json.dumps(c, ensure_ascii=False)
                f.write(c if k != 2 else c[:len(c) // 2])
            if k < 2: ests.append({'id': len(ests) + 1, 'op': 'est', 'start': j['out'], 'out': ck.work('e%d_%d' % (i, k)), 'corpus': fn, 'min': rng.choice([0, 1, 2, 3])})
    drive_items(ck, ests, tag='ee')
    items, info = [], {}
    def add(i, k, start, fault=None):
        e = ests[2 * i + k] if k < 2 else dict(ests[2 * i], corpus=ck.work('ec%d_%d.json' % (i, k)))
        it = {'id': len(items) + 1, 'op': 'crash', 'corpus': e['corpus'], 'min': e['min'], 'out': ck.work('y%d' % len(items)), 'snaps': ck.work('z%d' % len(items)), 'torn': ntorn, 'fault': fault,
              'start': jobs[i]['out'] if start is None else ests[2 * i + start]['out'], 'debrisfrom': ests[2 * i + 1 - k % 2]['out']}
        items.append(it)
        info[it['id']] = (i, k, start, it['start'], ests[2 * i + k % 2]['out'])
    for i in range(n):
        add(i, 0, None); add(i, 0, 1); add(i, 1, 0); add(i, 0, 0)
        size = os.path.getsize(os.path.join(ests[2 * i + 1]['out'], 'p_t_given_w.intdawg'))
        add(i, 0, None, {'debris': [['p_t_given_w.intdawg', rng.choice([None, 0, 3, size // 2, rng.randrange(size)])]]})
        add(i, 2, None); add(i, 2, 1); add(i, 3, None); add(i, 3, 1)
    for k in range(nfault):
        i = rng.randrange(n)
        size = os.path.getsize(os.path.join(ests[2 * i]['out'], 'p_t_given_w.intdawg'))
        big = os.path.getsize(os.path.join(ests[2 * i]['out'], 'meta.json'))
        start = rng.choice([None, None, 0, 1])
        f = [{'fsize': rng.choice([0, 1, size - 1, size // 2, size, big - 1, big, rng.randrange(size + big)])}, {'full': 'p_t_given_w.intdawg'}, {'dir': 'p_t_given_w.intdawg'}][k % 3]
        add(i, 0, start if 'fsize' in f else None, f)
    obs = drive_items(ck, items, tag='ec')
    loads = [{'id': it['id'], 'op': 'loads', 'dirs': obs[it['id']]['snaps'] + obs[it['id']]['torn'], 'old': info[it['id']][3], 'new': info[it['id']][4], 'corpus': 1} for it in items]
    cases = []
    for interp, t in ((FAST, 'elf'), (SLOW, 'els')):
        lo = drive_items(ck, loads, interp=interp, tag=t)
        for it in items:
            i, k, start, old, new = info[it['id']]
            l = [{'load': a, 'files': b, 'full': c} for a, b, c in lo[it['id']]['loads']]
            m = len(obs[it['id']]['snaps'])
            f = it['fault'] or {}
            cases.append({'id': len(cases) + 1, 'start': 'new' if lo[it['id']]['same'] else 'old', 'first': start is None, 'snaps': l[:m], 'torn': l[m:], 'end': obs[it['id']]['end'],
                          'fault': k >= 2 or any(x in f for x in ('fsize', 'full', 'dir')), 'what': {'dict': i, 'corpus': k, 'over': -1 if start is None else start, 'fault': json.dumps(it['fault'])},
                          'dirs': [os.path.basename(d) for d in obs[it['id']]['snaps'] + obs[it['id']]['torn']]})
    r = validate_all(ck.work, 'EstTrace', {}, cases)
    ck.add_tlc(r)
    ck.validated += len(cases)
    ck.extra['folder_states'] = sum(len(c['snaps']) + len(c['torn']) for c in cases)
    for c in cases[::max(1, len(cases) // 5)][:5]: ck.sample({k: c[k] for k in ('what', 'end', 'snaps')})
    ck.judge(cases, r, None, lambda c, cl: 'estimation %s, ended %s: %s [%s]' % (json.dumps(c['what']), c['end'][:60], ' '.join('%s=%s' % (d, x['load']) for d, x in zip(c['dirs'], c['snaps'] + c['torn']))[:200], ','.join(cl)))
