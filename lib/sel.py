"""Selection of dictionary and language: environments and arguments -> implementation -> SelectTrace."""
import itertools, json, os, random, shutil
from vp import *
from an import mk_toys, validate_all

NONE = '-'
LANGS = ['ru', 'uk', 'xx', 'ru-old', 'qq']
DICTS = {'dru': ('ru', True), 'dru2': ('ru', False), 'duk': ('uk', False), 'duk2': ('uk', True), 'dno': ('', False), 'dnop': ('', True), 'dxx': ('xx', True), 'dold': ('ru-old', False)}
BAD = ['gone', 'fmt3', 'fmtx']


def dictionaries(ck):
    specs = []
    for n, (lang, prob) in DICTS.items():
        N = ['NOUN', 'inan', 'femn']
        lex = [[1, N, [['слово' + n, ['sing', 'nomn']]]], [2, N, [['тёст', ['sing', 'nomn']]]], [3, N, [['ґава', ['sing', 'nomn']]]], [4, N, [['зозо', ['sing', 'nomn']]]],
               [5, N, [['дуо', ['sing', 'nomn']]]], [6, ['ADVB'], [['дуо', []]]]]
        specs.append({'name': n, 'seed': 1, 'lexemes': lex, 'lang': lang or 'ru'})
    mk_toys(ck.work, specs)
    res = {s['name']: s['path'] for s in specs}
    run([FAST, '-c', '''
import dawg, sys, json, io
d = dawg.IntCompletionDAWG([(u"дуо:NOUN,inan,femn sing,nomn", 250000), (u"дуо:ADVB", 750000)])
for p in sys.argv[1:]: d.save(p + "/p_t_given_w.intdawg")
'''] + [res[n] for n in DICTS if DICTS[n][1]])
    def meta(path, f):
        fn = os.path.join(path, 'meta.json')
        m = json.load(open(fn, encoding='utf8'))
        json.dump(f(m), open(fn, 'w', encoding='utf8'), ensure_ascii=False)
    for n, (lang, prob) in DICTS.items():
        meta(res[n], lambda m: [x for x in m if x[0] != 'language_code' or lang] + ([['P(t|w)', True]] if prob else []))
    for n, v in (('fmt3', '3.0'), ('fmtx', '1.4')):
        res[n] = ck.work(n)
        shutil.copytree(res['dru'], res[n])
        meta(res[n], lambda m: [[k, v if k == 'format_version' else x] for k, x in m])
    res['gone'] = ck.work('nowhere')
    ctx = {'dicts': {n: {'lang': l, 'prob': p, 'ok': True} for n, (l, p) in DICTS.items()}}
    for b in BAD: ctx['dicts'][b] = {'lang': '', 'prob': False, 'ok': False}
    return res, ctx


def selection_check(ck, q):
    rng = random.Random(SEED)
    r = tlc(ck.work, 'SelectMC', {})
    ck.add_tlc(r)
    paths, ctx = dictionaries(ck)
    places = {'ru': ['dru', 'dru2', 'dxx'], 'uk': ['duk', 'duk2'], 'xx': ['dxx', 'dno'], 'ru-old': ['dno', 'dnop', 'dold'], 'qq': ['dru']}
    envs = [NONE, NONE, 'duk', 'dno', 'dru', 'dxx', 'gone', 'dnop', 'fmt3']
    A = [dict(path=p, lang=l, units=u, subst=s, est=e, rt=t) for p in [NONE] + list(DICTS) + BAD for l in [NONE] + LANGS
         for u in (NONE, 'own', 'ru', 'uk') for s in ('auto', 'none', 'own', 'empty', 'ru', 'uk') for e in ('auto', 'none', 'table', 'half') for t in ('Parse', 'tuple', 'MyParse')]
    plain = [a for a in A if (a['units'], a['subst'], a['est'], a['rt']) == (NONE, 'auto', 'auto', 'Parse')]
    def some(n):
        """all values of path and lang; the other arguments vary"""
        pl = [a for a in plain if a['path'] == NONE] * 3 + plain
        return [dict(a) for a in rng.sample(pl, min(n // 2, len(pl)))] + [dict(rng.choice(A)) for _ in range(n - n // 2)]
    runs = []
    # every environment of a few packages and the variable, with random constructions in it
    for S in itertools.chain.from_iterable(itertools.combinations(['ru', 'uk', 'xx', 'ru-old'], k) for k in range(5)):
        for e in dict.fromkeys(envs):
            ops = [['install', l, rng.choice(places[l])] for l in S] + ([['env', e]] if e != NONE else [])
            ops += [['create', a] for a in some(q['per'])] + [['find', l] for l in LANGS]
            runs.append(ops)
    # environments that change
    for _ in range(q['n']):
        ops = []
        for _ in range(q['len']):
            k = rng.random()
            if k < .15:
                l = rng.choice(LANGS)
                ops.append(['install', l, rng.choice(places[l])])
            elif k < .25: ops.append(['remove', rng.choice(LANGS)])
            elif k < .35: ops.append(['env', rng.choice(envs)])
            elif k < .45: ops.append(['find', rng.choice(LANGS)])
            else: ops.append(['create', some(2)[rng.randrange(2)]])
        runs.append(ops)
    jf = ck.work('sel.json')
    json.dump({'dir': ck.work('pk'), 'dicts': paths, 'runs': [{'id': i + 1, 'ops': o} for i, o in enumerate(runs)]}, open(jf, 'w', encoding='utf8'), ensure_ascii=False)
    os.makedirs(ck.work('pk'))
    n = 0
    for interp in (FAST, SLOW):
        obs = drive(ck.work, jf, jf + os.path.basename(os.path.dirname(os.path.dirname(interp))), interp=interp, script='drive_sel.py', shards=8)
        cases = []
        for i, o in sorted(obs.items()):
            if 'died' in o: raise Machinery(o['died'])
            cases.append({'id': i, 'evs': o['evs']})
        r = validate_all(ck.work, 'SelectTrace', ctx, cases, tag=interp[5:12].replace('/', ''))
        ck.add_tlc(r)
        ck.validated += sum(len(c['evs']) for c in cases)
        if interp == FAST:
            for c in cases[::50][:4]: ck.sample({'events': c['evs'][-4:-2]})
        ck.judge(cases, r, None, lambda c, cl: 'run %d %s [%s]' % (c['id'], interp, ','.join(cl)))
        runs = runs[:len(runs) // 6]
        json.dump({'dir': ck.work('pk'), 'dicts': paths, 'runs': [{'id': i + 1, 'ops': o} for i, o in enumerate(runs)]}, open(jf, 'w', encoding='utf8'), ensure_ascii=False)
