"""Histories of analyzers: TLC generates behaviours of Analyzers.tla, the implementation replays them,
HistTrace judges what was recorded against references recorded in fresh processes."""
import json, os, random, sys
from vp import *
from an import mk_toys, toy, chunks, TLCResult
from tags import REAL_DICT, OLD_DICT
sys.path.insert(0, HARN)
import toys as _toys
import gen_tags

UNIT_GRAMMEMES = {'fname': ['Init', 'Name'], 'patr': ['Init', 'Patr'], 'number': ['NUMB', 'intg', 'real'], 'punct': ['PNCT'],
                  'latin': ['LATN'], 'roman': ['ROMN'], 'unkn': ['UNKN']}
ALL_UNIT = sorted({g for v in UNIT_GRAMMEMES.values() for g in v})
CYR = dict(gen_tags.BUILTIN); CYR.update(gen_tags.WEAK)


def unit_grammemes(cfg):
    if cfg.get('unitobj') is not None:
        return ALL_UNIT         # no loosening needed there
    if not cfg.get('units'):
        return ALL_UNIT
    res = set()
    for g in cfg['units']:
        for u in g: res |= set(UNIT_GRAMMEMES.get(u['k'] if isinstance(u, dict) else u, []))
    return sorted(res)


def mentioned(q):
    """grammemes a call mentions"""
    k = q[0]
    if k == 'combo': return [g for c in q[1] for g in mentioned(c)]
    def split(s): return [x for x in s.replace(' ', ',').split(',') if x]
    if k in ('in', 'tagin'): return [q[2]] if isinstance(q[2], str) else []
    if k in ('inset', 'infl'): return list(q[2])
    if k == 'one': return list(q[5]) if q[4] == 'infl' else []
    if k in ('newtag', 'l2c'): return split(q[1])
    if k == 'upd': return split(q[1]) + list(q[2])
    if k == 'gknown': return [q[1]]
    if k == 'c2l': return [next((l for l, c in CYR.items() if c == x), x) for x in split(q[1])]
    return []


class Hist:
    def __init__(self, ck, configs, calls, words=(), tag=''):
        self.ck, self.configs, self.calls, self.words, self.tag = ck, configs, calls, list(words), tag
        self.dir = ck.work('h' + tag)
        os.makedirs(self.dir)
        self.n = 0
        know, gram = [], []
        for c in configs:
            table = {x[0] for x in gen_tags.table(c['path'], 'dict')} if c.get('path') else {x[0] for x in gen_tags.table(REAL_DICT, 'dict')}
            u = unit_grammemes(c)
            know.append(u)
            own = table | set(u)
            gram.append([[g for g in mentioned(q) if g not in own and g in ALL_UNIT] for q in calls])
        self.ctx = {'know': know, 'gram': gram, 'ref': []}

    def drive(self, histories, interp=FAST, name='o', patience=0.15, shards=8, configs=None):
        self.n += 1
        jf = os.path.join(self.dir, 'job%d.json' % self.n)
        with open(jf, 'w', encoding='utf8') as f:
            json.dump({'configs': configs or self.configs, 'calls': self.calls, 'words': self.words, 'histories': histories, 'patience': patience}, f, ensure_ascii=False)
        return drive(self.ck.work, jf, os.path.join(self.dir, 'out%d' % self.n), interp=interp, shards=shards, script='drive_hist.py', timeout=800)

    def broken(self, cfg, exc):
        """the implementation cannot even make the analyzer"""
        self.ck.violation('analyzer cannot be created: %s' % exc, {'config': cfg, 'exception': exc})
        raise Broken()

    def references(self, interp=FAST, interp2=None):
        """the answer to every call by an analyzer that is alone in its process and was never used"""
        obs = self.drive([{'id': c, 'refs': c + 1} for c in range(len(self.configs))], interp)
        for c in range(len(self.configs)):
            if obs[c]['exc']: self.broken(self.configs[c], obs[c]['exc'])
        self.ctx['ref'] = [obs[c]['answers'] for c in range(len(self.configs))]

    def session(self, interp=FAST):
        """references from one session per configuration (when independence of history is not the question)"""
        nq = len(self.calls)
        obs = self.drive([{'id': c * 8 + k, 'evs': [['create', c + 1, 0]] + [['call', 1, i + 1] for i in range(k, nq, 8)]} for c in range(len(self.configs)) for k in range(8)], interp)
        self.ctx['ref'] = []
        for c in range(len(self.configs)):
            ans = {}
            for k in range(8):
                evs = obs[c * 8 + k]['evs']
                if evs[0]['ans']: self.broken(self.configs[c], evs[0]['ans'])
                for e in evs[1:]: ans[e['q']] = e['ans']
            self.ctx['ref'].append([ans[i + 1] for i in range(nq)])

    def tlc_histories(self, depth, num=None, live=3, slots=2, copies=1, kinds=('create', 'copy', 'drop', 'call', 'hold', 'later', 'mutate'), nc=None, nq=None, seed=0):
        """behaviours of the specification: all of them (num None) or random ones"""
        gf = os.path.join(self.dir, 'gen%d.json' % self.n)
        self.n += 1
        json.dump({'nc': nc or len(self.configs), 'nq': nq or len(self.calls), 'depth': depth, 'live': live, 'slots': slots,
                   'copies': copies, 'kinds': list(kinds)}, open(gf, 'w'))
        args = () if num is None else ('-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(SEED * 7919 + seed))
        r = tlc(self.ck.work, 'HistGen', {'VP_GEN': gf}, args=args, workers=1, tag='g%d' % self.n, expect_ok=num is None)
        hs = []
        for l in r.lines:
            if l.startswith('H '):
                evs = [x.split(' ') for x in __import__('re').findall(r'\\?"([a-z]+ \d+ \d+)\\?"', l)]
                hs.append([[e[0], int(e[1]), int(e[2])] for e in evs])
        if num is not None:     # TLC prints every successor of the last state; keep one per behaviour
            random.Random(SEED + seed).shuffle(hs)
            hs = list({json.dumps(h[:-1]): h for h in hs}.values())[:num]
        if not hs: raise Machinery('no histories generated:\n' + filter_out(r.out))
        self.ck.add_tlc(r)
        return hs

    def race_points(self, prefix, ops, rng, extra=1):
        """where to suspend the threads: the first, last and some other execution of every source line"""
        obs = self.drive([{'id': 1, 'evs': prefix + [['race', ops, [[], []]]], 'record': True}], shards=1)
        res = []
        for lines in obs[1]['counts']:
            occ = {}
            for i, l in enumerate(lines): occ.setdefault(l, []).append(i + 1)
            ks = set()
            for l, o in occ.items():
                ks |= {o[0], o[-1]} | {rng.choice(o) for _ in range(extra)}
            res.append(sorted(ks))
        return res

    def judge(self, histories, clauses=None, interp=FAST, tag='', patience=0.15, configs=None, label=None):
        hs = [{'id': i + 1, 'evs': h} for i, h in enumerate(histories)]
        obs = self.drive(hs, interp, patience=patience, configs=configs)
        cases = [{'id': h['id'], 'evs': obs[h['id']]['evs']} for h in hs]
        parts = chunks(cases, 1 if len(cases) < 400 else 4)
        rs = parallel([lambda p=p, i=i: validate(self.ck.work, 'HistTrace', self.ctx, p, tag='%s%s_%d_%d' % (self.tag, tag, self.n, i), workers=2)
                       for i, p in enumerate(parts)], len(parts))
        tot = TLCResult()
        for r in rs:
            tot.ok |= r.ok; tot.bad.update(r.bad); tot.states += r.states; tot.transitions += r.transitions
        self.ck.add_tlc(tot)
        self.ck.validated += len(cases)
        for c in cases[::max(1, len(cases) // 2)][:2]:
            self.ck.sample({'history': [[e['k'], e['a'], e['q'], e['ans'][:60]] for e in c['evs']][:8]})
        by = {h['id']: h for h in hs}
        for c in cases: c['history'] = self.describe(by[c['id']]['evs'])
        self.ck.judge(cases, tot, clauses, lambda c, cl: 'history %s [%s]' % (self.wrong(c), ','.join(cl)) if label is None else '%s: %s' % (label, self.wrong(c, True)))
        self.counts = {h['id']: obs[h['id']].get('counts') for h in hs}
        return tot

    def describe(self, evs):
        out = []
        for e in evs:
            if e[0] == 'create': out.append('create %s' % json.dumps(self.configs[e[1] - 1], ensure_ascii=False)[:200])
            elif e[0] in ('call', 'hold', 'mutate'): out.append('%s on %d: %s' % (e[0], e[1], json.dumps(self.calls[e[2] - 1], ensure_ascii=False)))
            elif e[0] == 'race': out.append('race %s' % json.dumps(e[1:]))
            else: out.append('%s %d' % (e[0], e[1]))
        return out

    def wrong(self, c, short=False):
        """the events whose answer is not the reference, readable"""
        live, slots, res, run = [], [], [], {}
        for e in c['evs']:
            k = e['k']
            exp = None
            if k == 'create': live.append(e['a'])
            elif k == 'copy': live.append(live[e['a'] - 1])
            elif k == 'hold': slots.append((e['a'], e['q']))
            elif k == 'call': exp = (live[e['a'] - 1], e['q'])
            elif k == 'later': exp = (live[slots[e['a'] - 1][0] - 1], slots[e['a'] - 1][1])
            elif k == 'begin': run[e['t']] = e
            elif k == 'end':
                o = run[e['t']]
                if o['op'] == 'create': live.append(o['a'])
                else: exp = (live[o['a'] - 1], o['q'])
            if exp:
                ref = self.ctx['ref'][exp[0] - 1][exp[1] - 1]
                if ref != e['ans'] and short: res.append(json.dumps(self.calls[exp[1] - 1]))
                elif ref != e['ans']: res.append('%s %s: %s expected %s' % (k, json.dumps(self.calls[exp[1] - 1], ensure_ascii=False), e['ans'][:150], ref[:150]))
            elif e['ans']: res.append('%s: %s' % (k, e['ans']))
        return '; '.join(res[:3])


def lexicon(i, n=14, alphabet='абенё', templates=None):
    rng = random.Random(SEED * 131 + i)
    return [list(x) for x in _toys.random_lexicon(rng, n, alphabet, templates=[_toys.TEMPLATES[k] for k in templates] if templates else None)]


def words_of(lex):
    return [f for _, b, fs in lex for f, g in fs]


def standard(ck, n=14):
    """two toy dictionaries with the same grammeme table, and words to ask about"""
    la, lb = lexicon(1, n), lexicon(2, n)
    ta, tb = toy(1, lexemes=la, prob='missing'), toy(2, lexemes=lb)
    mk_toys(ck.work, [ta, tb])
    return la, lb, ta['path'], tb['path']


def other_tables(ck, la):
    """the first toy dictionary again, with other Cyrillic names, another hierarchy, fewer grammemes"""
    if not hasattr(ck, 'others'):
        G = _toys.grammemes()
        used = {g for _, b, fs in la for f, x in fs for g in list(b) + list(x)}
        anc = {g[0]: g[1] for g in G}
        keep = set(ALL_UNIT) | {'Abbr', 'Fixd', 'Sgtm', 'anim', 'masc', 'femn', 'sing', 'plur', 'NOUN', 'ADJF', 'ADVB', 'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct'}
        for g in used:
            while g and g not in keep:
                keep.add(g); g = anc.get(g)
        flat = [[g[0], '', g[2], g[3]] for g in G]
        up = {'anim': 'masc', 'inan': 'anim', 'sing': 'femn', 'CAse': 'neut'}
        deep = [[g[0], up.get(g[0], g[1]), g[2], g[3]] for g in G]
        ts = [toy(3, lexemes=la, grammemes=[[g[0], g[1], g[2] + 'ъ', g[3]] for g in G]), toy(4, lexemes=la, grammemes=flat), toy(6, lexemes=la, grammemes=deep),
              toy(5, lexemes=la, grammemes=[g for g in G if g[0] in keep or g[0] in set(anc[k] for k in keep if k in anc)])]
        mk_toys(ck.work, ts)
        ck.others = [t['path'] for t in ts]
    return ck.others


def std_calls(la, lb, rng, full=False):
    wa, wb = words_of(la), words_of(lb)
    w1 = rng.choice([w for w in wa if 'ё' in w] or wa).replace('ё', 'е')
    w2 = rng.choice([w for w in wa if len(w) > 2])
    w3 = rng.choice(wb)
    nouns = [f for _, b, fs in la for f, g in fs if b[0] in ('NOUN', 'ADJF') and len(f) > 1] or wa
    w4 = rng.choice(nouns)
    noms = [f for _, b, fs in la for f, g in fs if b[0] in ('NOUN', 'ADJF') and 'nomn' in g] or nouns
    fem = [f for _, b, fs in la for f, g in fs if b[0] in ('ADJF', 'PRTF') and 'nomn' in g and 'femn' in g] or noms
    w5, w6 = rng.choice(noms), rng.choice(fem)
    oov = 'квз' + rng.choice([w for w in wa if len(w) > 2])
    far = 'щюэфъцг' + oov[3:]       # no prefix rule applies
    calls = [['parse', w1], ['rich', w2], ['tag', w3], ['lex', far], ['parse', 'х' + far], ['norm', 'э' + far], ['parse', 'А'], ['tag', 'А'], ['parse', '12'], ['lex', oov], ['norm', w2],
             ['infl', w4, ['plur']], ['infl', w4, ['foo']], ['agree', w4, 2], ['agree', w5, 1], ['agree', w5, 3], ['agree', w5, 5], ['agree', w6, 2], ['known', w1], ['isknown', w1], ['iter', w2[:1]],
             ['l2c', 'NOUN,masc sing'], ['c2l', 'СУЩ,мр ед'], ['l2c', 'NUMB,intg'], ['c2l', 'ЛАТ'], ['l2c', 'NOUN,Init'], ['in', w2, 'LATN'], ['in', w2, 'NOUN'],
             ['in', 'А', 'Init'], ['in', 'Ї', 'Name'], ['inset', w2, ['NOUN', 'Patr']], ['in', w2, 'foo'], ['newtag', 'NOUN,anim sing'], ['newtag', 'ROMN'], ['newtag', 'NOUN,foo'],
             ['gknown', 'UNKN'], ['gknown', 'xxxx'], ['attrs', w4], ['cyr', 'А'], ['cyr', '12'], ['nfs', w1], ['tagcyr', w2], ['rich', 'xvi'], ['parse', oov + '-то'],
             ['lex', w4 + '-' + w4], ['rare', ['loc2', 'gen1', 'plur']], ['meta'], ['parse', 'не' + w2], ['cyr', '!?'], ['parse', 'ъъъъ'], ['lex', 'Б'], ['norm', 'В'],
             ['parse', 'а'], ['parse', w2.upper()], ['rich', w2.title()], ['rich', w1], ['rich', 'XVI'], ['tag', w1], ['known', w2], ['iter', ''],
             ['infl', w4, ['sing']], ['infl', w5, ['loc2']], ['agree', w5, 11], ['c2l', 'NOUN'], ['l2c', 'foo,СУЩ']]
    calls += [['upd', 'NOUN,anim,masc sing,nomn', ['plur']], ['upd', 'NOUN,inan,femn sing,gent', ['plur', 'datv']], ['upd', 'ADJF,Qual neut,sing,ablt', ['femn']], ['upd', 'NOUN', ['NUMB']],
              ['upd', 'NUMB,intg', ['NOUN']]]
    # words of the units of the configurations with two sets of parameters
    calls += [['parse', 'кв' + w2], ['lex', 'жж' + w2], ['parse', w2 + '-ы'], ['parse', w2 + '-э'], ['lex', 'кв-' + w2], ['lex', 'жж-' + w2], ['nfs', 'жж' + w4], ['parse', 'Г'], ['parse', 'щъё'], ['tag', 'щёы' + w2[-1]]]
    return calls, [w5, w6, w1, 'А', oov]


def std_configs(pa, pb):
    D = [[{'k': 'dict'}]]
    return [dict(path=pa), dict(path=pa, units=D), dict(path=pa, units=[['dict'], ['unkn']]), dict(path=pa, plain=True),
            dict(path=pa, subst=None), dict(path=pa, lang='uk'), dict(path=pb),
            dict(path=pa, units=[['dict', {'k': 'fname', 'letters': 'АБВ'}], ['number'], ['suf', 'unkn']], shared='S'),
            dict(path=pb, units=[['dict', {'k': 'fname', 'letters': 'АБВ'}], ['number'], ['suf', 'unkn']], shared='S'),
            # the same classes with other parameters (as many of them)
            dict(path=pa, units=[['dict', {'k': 'fname', 'letters': 'АБ'}], [{'k': 'part', 'particles': ['-то', '-ы']}], [{'k': 'comp', 'prefixes': ['кв', 'ув']}],
                                 [{'k': 'kpref', 'prefixes': ['кв', 'жз'], 'mul': [1, 2]}], ['unkn']]),
            dict(path=pa, units=[['dict', {'k': 'fname', 'letters': 'ВГ'}], [{'k': 'part', 'particles': ['-ка', '-э']}], [{'k': 'comp', 'prefixes': ['жж', 'фф']}],
                                 [{'k': 'kpref', 'prefixes': ['жж', 'фф'], 'mul': [1, 4]}], ['unkn']]),
            dict(path=pa, units=[['dict', {'k': 'upref', 'mul': [1, 4]}], [{'k': 'suf', 'minlen': 3}, 'unkn']], noprob=True),
            dict(path=pa, units=[['dict', {'k': 'upref', 'mul': [1, 2]}], [{'k': 'suf', 'minlen': 5}, 'unkn']], noprob=True),
            dict(path=pa, noprob=True), dict(path=pa, units=[['dict', {'k': 'patr', 'letters': 'АБ', 'score': 0.3}], ['latin', 'punct', 'roman']])]


NOUN_LIKE = [['', 'а', 'у', 'ы', 'ов'], ['', 'у', 'а', 'а', 'ей'], ['', 'а', 'е', 'ёва', 'ёв']]


def homonyms(rng, n=3):
    """lexemes that share words with the same tag, and what they are asked: (lexemes, calls)"""
    lex, words = [], []
    tags = [['sing', 'nomn'], ['sing', 'gent'], ['sing', 'datv'], ['plur', 'nomn'], ['plur', 'gent']]
    for k in range(n):
        stem = ''.join(rng.choice('бнкрт') + rng.choice('аео') for _ in range(k % 2 + 1)) + rng.choice('бнкрт')
        base = rng.choice([['NOUN', 'inan', 'masc'], ['NOUN', 'anim', 'masc']])
        for ends in rng.sample(NOUN_LIKE, len(NOUN_LIKE) - k % 2):
            lex.append([str(len(lex) + 1), base, [(stem + e, g) for e, g in zip(ends, tags)]])
        words += [stem, stem + 'а', rng.choice(['не', 'квз', 'фыв']) + stem, stem + '-то', rng.choice(['бао-', stem + '-']) + stem]
    return lex, object_calls(rng, words)


def object_calls(rng, words, n=3):
    calls = []
    for w in words:
        ops = [['lex'], ['norm'], ['infl', ['plur']], ['infl', rng.choice([['gent'], ['plur', 'gent'], ['sing', 'datv'], ['masc']])], ['agree', rng.choice([2, 3])], ['agree', rng.choice([5, 11])], ['cyr'], ['known']]
        for i in range(n):
            js = [False, rng.randrange(3)]
            calls += [['one', w, i, j] + op for op in rng.sample(ops, 5) for j in [rng.choice(js)]]
            calls += [['one', w, i, False, 'infl', ['plur']]]
    return [list(x) for x in dict.fromkeys(json.dumps(c) for c in calls) for x in [json.loads(x)]]


HOMONYMS = ['арифулле', 'арифе', 'арифуллы']      # several analyses with the same tag, of different lexemes


def orders(rng, nq, k, c=1):
    """one analyzer is asked everything, in different orders: every ordered pair of calls soon occurs"""
    hs = []
    for i in range(k):
        o = list(range(1, nq + 1))
        rng.shuffle(o)
        hs += [[['create', c, 0]] + [['call', 1, x] for x in o], [['create', c, 0]] + [['call', 1, x] for x in o[::-1]]]
    return hs


def real_words(n, seed=0):
    """random words of the installed dictionary"""
    import subprocess
    code = ("import sys,random;sys.path.insert(0,%r);from slices import Reader;from words import WordGen;r=Reader(%r);rng=random.Random(%d);"
            "g=WordGen(r,rng);print(u'\\n'.join(g.word() for _ in range(%d)))" % (HARN, REAL_DICT, SEED * 17 + seed, n))
    return run([SLOW, '-c', code]).stdout.decode('utf8').split()


def real_calls(rng, n):
    ws = real_words(n)
    res = []
    for i, w in enumerate(ws):
        w = rng.choice([w, w.upper(), w.title(), w.replace('ё', 'е')])
        f = [lambda: ['parse', w], lambda: ['rich', w], lambda: ['tag', w], lambda: ['lex', 'не' + w], lambda: ['norm', w + '-то'], lambda: ['parse', 'по-' + w],
             lambda: ['known', w], lambda: ['infl', w, [rng.choice(['plur', 'gent', 'femn', 'past', 'loc2', 'foo', 'sing', 'datv'])]],
             lambda: ['agree', w, rng.choice([1, 2, 5, 11, 22])], lambda: ['lex', w + '-' + rng.choice(ws)], lambda: ['isknown', w],
             lambda: ['parse', rng.choice(['ква', 'зю', 'мега']) + w], lambda: ['nfs', w], lambda: ['iter', w[:5]], lambda: ['cyr', w]]
        res.append(f[i % len(f)]())
        res.append(f[rng.randrange(len(f))]())
    return res + [['parse', 'А'], ['parse', 'а'], ['rich', 'XI'], ['parse', '15'], ['parse', '1.5'], ['tag', 'ok'], ['l2c', 'NOUN,sing'], ['c2l', 'СУЩ,ед'], ['cyr', 'ok']]


def race_calls(calls):
    """combined calls, for threads"""
    def g(*kinds): return [c for c in calls if c[0] in kinds]
    tagc = [['in', 'А', 'Init'], ['in', '12', 'intg'], ['newtag', 'NOUN,anim sing'], ['newtag', 'ROMN'], ['l2c', 'NUMB,intg'], ['c2l', 'ЛАТ'], ['gknown', 'UNKN'],
            ['cyr', 'А'], ['cyr', '12'], ['parse', 'ъъъъ']]
    return [['combo', tagc + g('attrs')[:1] + g('agree')[:2]],
            ['combo', [c for c in g('rich', 'infl') if not (c[0] == 'infl' and 'foo' in c[2])][:4]],
            ['combo', g('lex', 'norm', 'tag')[:6] + [['rich', 'А'], ['rich', 'xvi']]],
            ['combo', g('iter', 'known', 'isknown', 'nfs')[:6]]]


def single_calls(la, lb, rng):
    """one call per rule of analysis, each with a word of its own; twice"""
    wa = [w for w in words_of(la) if len(w) > 2]
    w = lambda: rng.choice(wa)
    nouns = [[f for f, _ in fs if len(f) > 1] for _, b, fs in la if b[0] in ('NOUN', 'ADJF')]
    def double():
        fs = rng.choice([x for x in nouns if x] or [wa])
        return rng.choice(fs) + '-' + rng.choice(fs)
    def rules(i):
        return [['parse', w()], ['parse', ('квз', 'фыв')[i] + w()], ['parse', ('щюэфъцг', 'эхцгшъ')[i] + w()], ['tag', ('фывъцжх', 'щщъгк')[i] + w()], ['lex', ('не', 'анти')[i] + w()],
                ['parse', w() + ('-то', '-ка')[i]], ['lex', w() + ('-таки', '-то')[i]], ['lex', w() + '-' + w()], ['parse', double()],
                ['rich', w()], ['norm', ('жъахгцф', 'цфкъ')[i] + w()], ['infl', w(), ['plur']], ['parse', ('Б', 'А')[i]], ['lex', ('В', 'Б')[i]],
                ['parse', ('ok', 'ko')[i]], ['rich', ('mix', 'xim')[i]], ['parse', ('12', '1.5')[i]], ['parse', ('.,', ',-')[i]], ['nfs', w()], ['known', w()], ['iter', w()[:2]], ['agree', w(), (2, 5)[i]],
                ['cyr', ('А', '12')[i]], ['l2c', ('NOUN,masc sing', 'NUMB,intg')[i]], ['c2l', ('СУЩ,мр ед', 'ЛАТ')[i]], ['newtag', ('NOUN,anim sing', 'ROMN')[i]], ['in', ('А', '12')[i], ('Init', 'intg')[i]],
                ['upd', ('NOUN,anim,masc sing,nomn', 'NOUN,inan,femn sing,gent')[i], ['plur']], ['rare', (['loc2', 'plur'], ['gen1'])[i]], ['parse', 'по-' + w()], ['isknown', w()], ['gknown', ('UNKN', 'xxxx')[i]]]
    return rules(0), [c if i % 2 else ['combo', [c] + list(more)] for i, (c, *more) in enumerate(zip(rules(1), rules(0), rules(1), rules(1)))]


def random_unit(rng):
    """a unit class with random constructor arguments (some of them false in a boolean context)"""
    def kw(**opts):
        return {k: v() for k, v in opts.items() if rng.random() < .7}
    mult = lambda: rng.choice([0.9, 0.5, 0.3, 0.75, 1.5, 1.0])
    score = lambda: rng.choice([0.1, 0.9, 0.4, 1.0, 2.0])
    coll = lambda xs: rng.choice([lambda: xs, lambda: {'tuple': xs}, lambda: {'set': xs}])()
    letters = lambda: rng.choice(['АБВ', 'А', coll(['А', 'Б']), coll(['В', 'АБ'])])
    n = rng.randrange(14)
    return [lambda: ['DictionaryAnalyzer', {}],
            lambda: ['AbbreviatedFirstNameAnalyzer', dict(kw(score=score), letters=letters())],
            lambda: ['AbbreviatedFirstNameAnalyzer', dict(kw(score=score), letters=letters(), tag_pattern='NOUN,anim,%(gender)s,Abbr,Init sing,%(case)s')],
            lambda: ['AbbreviatedPatronymicAnalyzer', dict(kw(score=score), letters=letters())],
            lambda: ['NumberAnalyzer', kw(score=score)], lambda: ['PunctuationAnalyzer', kw(score=score)], lambda: ['RomanNumberAnalyzer', kw(score=score)],
            lambda: ['LatinAnalyzer', kw(score=score)],
            lambda: ['HyphenSeparatedParticleAnalyzer', dict(kw(score_multiplier=mult), particles_after_hyphen=rng.choice([['-то'], ['-ка', '-то', '-а'], {'tuple': ['-а']}, []]))],
            lambda: ['HyphenAdverbAnalyzer', kw(score_multiplier=mult)],
            lambda: ['HyphenatedWordsAnalyzer', dict(kw(score_multiplier=mult), skip_prefixes=rng.choice([['а'], ['не', 'б'], []]))],
            lambda: ['KnownPrefixAnalyzer', dict(kw(score_multiplier=mult, min_remainder_length=lambda: rng.choice([0, 1, 2, 5])), known_prefixes=rng.choice([['а', 'аб', 'не'], ['квз'], ['не']]))],
            lambda: ['UnknownPrefixAnalyzer', kw(score_multiplier=mult)],
            lambda: rng.choice([['KnownSuffixAnalyzer', kw(score_multiplier=mult, min_word_length=lambda: rng.choice([0, 1, 2, 7]))], ['ShortSuffix', kw(min_word_length=lambda: 1)],
                                ['EchoUnit', dict(kw(score=score, times=lambda: rng.choice([0, 2])), ending=rng.choice(['', 'а', 'е']))]])][n]()


def pickle_configs(rng, pa, pb, n):
    res = []
    for i in range(n):
        c = {'path': rng.choice([pa, pa, pb])}
        if rng.random() < .8:
            us = [['DictionaryAnalyzer', {}]] if rng.random() < .7 else []
            while len(us) < 6:
                us.append(random_unit(rng) if rng.random() < .7 else [random_unit(rng) for _ in range(rng.choice([1, 2, 3]))])
            c['unitobj'] = us + ([['UnknAnalyzer', {}]] if rng.random() < .5 else []) if i % 13 != 5 else []
        if rng.random() < .5: c['subst'] = rng.choice([None, {'а': 'б'}, {'е': 'ё', 'а': 'е'}, {}])
        if rng.random() < .3: c['noprob'] = True
        if rng.random() < .25: c['plain'] = True
        elif rng.random() < .4: c['own'] = rng.sample(['estimator', 'result', 'class'], rng.choice([1, 1, 2, 3]))
        if c.get('noprob') and 'estimator' in c.get('own', []): del c['noprob']
        if rng.random() < .4: c['lang'] = rng.choice(['ru', 'uk', 'ru-old', 'xx'])
        res.append(c)
    return res
