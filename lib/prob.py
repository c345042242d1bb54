"""P(t|w) tables: dictionaries and corpora -> implementation -> ProbTrace."""
import json, os, random
from vp import *
from an import mk_toys, toy, validate_all
from tags import REAL_DICT
import hist

OLDCASE = {'loct': 'loc1', 'gent': 'gen1', 'accs': 'acc1'}
ODD = ['UNKN', 'UNKN', 'PNCT', 'LATN', 'NOUN,inan,masc sing,nomn', 'ADVB', 'NOUN', 'UNKN,ADVB', 'VERB,loc1']


def grams(tag): return tag.replace(' ', ',').split(',')


def spell(rng, tag):
    """a spelling of the tag with the same grammemes"""
    gs = [OLDCASE[g] if g in OLDCASE and rng.random() < .4 else g for g in grams(tag)]
    r = rng.random()
    if r < .2: rng.shuffle(gs)
    if r < .6 or len(gs) < 2: return ','.join(gs)
    k = rng.randrange(1, len(gs))
    return ','.join(gs[:k]) + ' ' + ','.join(gs[k:])


def corpus(rng, tags, n):
    """occurrences [word, [[lemma, tag]...]] over words with known tags"""
    ws = list(tags)
    amb = [w for w in ws if len(tags[w]) > 1] or ws
    pool = rng.sample(amb, min(len(amb), rng.choice([1, 2, 4, 8, 20]))) + rng.sample(ws, min(len(ws), rng.choice([0, 1, 4])))
    # letter case variants of the same words
    var = [v for w in pool for v in (w.upper(), w.title(), w.capitalize(), w.lower()) if v in tags and rng.random() < .5]
    pool += var
    bias = {w: rng.choice([.1, .5, .9]) for w in pool}
    res = []
    for _ in range(n):
        w = rng.choice(pool)
        ts = tags[w]
        r = rng.random()
        if r < .8: t = ts[0] if rng.random() < bias[w] else rng.choice(ts)
        elif r < .9: t = rng.choice(ODD)
        else: t = rng.choice(tags[rng.choice(ws)])
        k = 1 if rng.random() < .85 else rng.choice([0, 2, 3])
        res.append([w, [[w, spell(rng, t if i == 0 else rng.choice(ts))] for i in range(k)]])
    return res


def prob_check(ck, ntoy, ncorp, nreal):
    rng = random.Random(SEED)
    toys = mk_toys(ck.work, [toy(i, n=16, alphabet='абен', prob=[None, None, 'full'][i % 3], options=[dict(), dict(min_paradigm_popularity=2)][i % 2]) for i in range(ntoy)])
    for t in toys:
        lex = json.load(open(ck.work(t['name'] + '.words.json'), encoding='utf8')) if os.path.exists(ck.work(t['name'] + '.words.json')) else None
    items, base = [], []
    def words_of_xml(p):
        return sorted(set(re.findall(r't="([^"]+)">', open(p, encoding='utf8').read())))
    for t in toys:
        ws = words_of_xml(ck.work(t['name'] + '.xml'))
        ws = [w for w in ws if re.match('^[а-яё]+$', w)]
        ws += [rng.choice('бнек') + w for w in rng.sample(ws, 6)] + [w + '-то' for w in rng.sample(ws, 2)]
        ws += [w.upper() for w in ws] + [w.title() for w in ws] + ['а', 'А', 'Б', 'v', 'V', 'X', '12', '!', 'кот:', ':']
        base.append((t['path'], list(dict.fromkeys(ws))))
    ws = hist.real_words(300)
    base.append((REAL_DICT, list(dict.fromkeys(['стали', 'Стали', 'СТАЛИ', 'ель', 'мой', 'Мой', 'а', 'А', 'V', 'и', 'при', 'бутявка', 'бутявки'] + ws + [w.title() for w in ws]))))
    for p, ws in base: items.append({'id': len(items) + 1, 'op': 'tags', 'path': p, 'words': ws})
    def go(items, tag):
        jf = ck.work('prob%s.json' % tag)
        json.dump({'items': items}, open(jf, 'w', encoding='utf8'), ensure_ascii=False)
        return drive(ck.work, jf, jf + '.out', script='drive_prob.py', shards=8)
    tags = go(items, 't')
    jobs, info = [], {}
    for k, (p, ws) in enumerate(base):
        T = {w: ts for w, low, ts, ps in tags[k + 1]}
        low = {w: l for w, l, ts, ps in tags[k + 1]}
        extra = sorted(set(low.values()) - set(T))
        if extra:
            more = go([{'id': 1, 'op': 'tags', 'path': p, 'words': extra}], 'x%d' % k)[1]
            for w, l, ts, ps in more: T[w], low[w] = ts, l
        for c in range(nreal if p == REAL_DICT else ncorp):
            steps = []
            for s in range(rng.choice([1, 1, 1, 2])):
                cs = corpus(rng, T, rng.choice([0, 1, 5, 20, 60, 120]))
                fn = ck.work('corpus%d_%d.json' % (len(jobs), s))
                json.dump(cs, open(fn, 'w', encoding='utf8'), ensure_ascii=False)
                steps.append([fn, rng.choice([1, 1, 2, 3, 5, 0, '2'])])
            used = [w for w in dict.fromkeys(x[0] for x in cs)]
            probe = used + [low[w] for w in used if low[w] not in used] + rng.sample(list(T), min(5, len(T)))
            jobs.append({'id': len(jobs) + 1, 'op': 'build', 'path': p, 'out': ck.work('p%d' % len(jobs)), 'steps': steps, 'words': list(dict.fromkeys(probe))})
            info[jobs[-1]['id']] = (T, low, cs, steps)
    obs = go(jobs, 'b')
    cases, nrows = [], 0
    for j in jobs:
        T, low, cs, steps = info[j['id']]
        o = obs[j['id']]
        words, tagtab = {}, {}
        def wi(w): return words.setdefault(w, len(words) + 1)
        def ti(t): return tagtab.setdefault(t, len(tagtab) + 1)
        for w, _ in cs: wi(w); wi(low[w])
        for w in j['words']: wi(w); wi(low[w])
        W = [{'low': wi(low[w]), 'many': len(T[w]), 'tags': [ti(t) for t in T[w]]} for w in list(words)]
        c = {'id': j['id'], 'exc': o['exc'], 'min': int(steps[-1][1]), 'words': W, 'occ': [{'w': wi(w), 'parses': [grams(p[1]) for p in ps]} for w, ps in cs],
             'table': [], 'scores': [], 'meta': {'ptw': False, 'words': 0, 'outcomes': 0, 'min': 0, 'kept': False},
             'what': {'dict': os.path.basename(j['path']), 'corpora': [len(json.load(open(s[0], encoding='utf8'))) for s in steps], 'min': steps[-1][1]}}
        if not o['exc']:
            a, b = dict(o['after']), dict(o['before'])
            c['table'] = [[words.get(w, 0), tagtab.get(t, 0), v] for (w, t), v in o['table']]
            nrows += len(c['table'])
            own = {'P(t|w)', 'P(t|w)_unique_words', 'P(t|w)_outcomes', 'P(t|w)_min_word_freq'}
            c['meta'] = {'ptw': a.get('P(t|w)') is True, 'words': a.get('P(t|w)_unique_words', -1), 'outcomes': a.get('P(t|w)_outcomes', -1), 'min': a.get('P(t|w)_min_word_freq', -1),
                         'kept': {k: v for k, v in a.items() if k not in own} == {k: v for k, v in b.items() if k not in own} and len(a) == len(o['after'])}
            c['scores'] = [{'w': wi(w), 'tags': [tagtab.get(t, 0) for t, v in ps], 'vals': [v for t, v in ps], 'ordered': od} for w, ps, od in zip(j['words'], o['scores'], o['ordered'])]
        c['tags'] = [{'g': grams(t)} for t in tagtab]
        cases.append(c)
    r = validate_all(ck.work, 'ProbTrace', {}, cases)
    ck.add_tlc(r)
    ck.validated += len(cases)
    ck.extra['occurrences'] = sum(len(c['occ']) for c in cases)
    ck.extra['table_rows'] = nrows
    for c in cases[::max(1, len(cases) // 5)][:5]: ck.sample({'what': c['what'], 'rows': len(c['table']), 'meta': c['meta']})
    ck.judge(cases, r, None, lambda c, cl: 'P(t|w) of %s from %s occurrences, minimum %s, %s [%s]' % (c['what']['dict'], c['what']['corpora'], c['what']['min'], obs[c['id']].get('tb', '')[-100:], ','.join(cl)))
