# -*- coding: utf-8 -*-
"""Histories of calls on tags.  usage: gen_tags.py PARAMS.json OUTDIR -> cases.ndjson ctx.json jobs.json
params: mode 'algebra' | 'translate', groups: [{path, units ('default'|'dict'), n, all}]"""
import io, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

BUILTIN = {'UNKN': u'НЕИЗВ', 'PNCT': u'ЗПР', 'LATN': u'ЛАТ', 'ROMN': u'РИМ', 'NUMB': u'ЧИСЛО', 'intg': u'цел', 'real': u'вещ'}
WEAK = {'Init': u'иниц', 'Name': u'имя', 'Patr': u'отч'}
CATS = {'POS': ["NOUN", "ADJF", "ADJS", "COMP", "VERB", "INFN", "PRTF", "PRTS", "GRND", "NUMR", "ADVB", "NPRO", "PRED", "PREP", "CONJ", "PRCL", "INTJ"],
        'animacy': ["anim", "inan"], 'aspect': ["perf", "impf"],
        'case': ["nomn", "gent", "datv", "accs", "ablt", "loct", "voct", "gen1", "gen2", "acc2", "loc1", "loc2"],
        'gender': ["masc", "femn", "neut"], 'involvement': ["incl", "excl"], 'mood': ["indc", "impr"], 'number': ["sing", "plur"],
        'person': ["1per", "2per", "3per"], 'tense': ["pres", "past", "futr"], 'transitivity': ["tran", "intr"], 'voice': ["actv", "pssv"]}


def table(path, units):
    g = json.load(io.open(os.path.join(path, 'grammemes.json'), encoding='utf8'))
    t = [[x[0], x[1] or '', x[2] or '', ''] for x in g]
    names = set(x[0] for x in t)
    if units == 'default':
        for k, v in BUILTIN.items(): t.append([k, '', v, ''])
        for k, v in WEAK.items():
            if k not in names: t.append([k, '', v, ''])
    return t


def respell(rng, s):
    """same grammemes, other separators"""
    q = s.replace(' ', ',', 1).split(',')
    if len(q) < 2: return s
    k = rng.randrange(0, len(q))
    return ','.join(q) if k == 0 else ','.join(q[:k]) + ' ' + ','.join(q[k:])


def main():
    params, out = json.load(io.open(sys.argv[1], encoding='utf8')), sys.argv[2]
    rng = random.Random(params['seed'])
    cases, gts, jobs = [], [], []
    for gi, g in enumerate(params['groups']):
        t = table(g['path'], g['units'])
        gts.append(t)
        names = sorted(set(x[0] for x in t))
        meta = dict(json.load(io.open(os.path.join(g['path'], 'meta.json'), encoding='utf8')))
        tags = json.load(io.open(os.path.join(g['path'], meta['gramtab_formats']['opencorpora-int']), encoding='utf8'))
        builtin = (['UNKN', 'PNCT', 'LATN', 'ROMN', 'NUMB,intg', 'NUMB,real'] +
                   ['NOUN,anim,%s,Sgtm,%s,Fixd,Abbr,Init sing,%s' % (a, b, c) for a in ('masc', 'femn') for b in ('Name', 'Patr')
                    for c in ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct')]) if g['units'] == 'default' else []
        def rand_tag():
            k = rng.randrange(6)
            if k < 2: return rng.choice(tags)
            if k == 2 and builtin: return rng.choice(builtin)
            q = rng.sample(names, rng.randrange(1, 7))
            if k == 5: q = [rng.choice(CATS[c]) for c in rng.sample(sorted(CATS), rng.randrange(1, 6))]
            if rng.random() < .1: q.append(rng.choice(q))
            return respell(rng, ','.join(x for x in q if x in names) or 'NOUN')
        def bad_tag():
            k = rng.randrange(9)
            base = rng.choice(tags)
            return [u'', u'foo', base + ',foo', base + ',', ' ' + base, base.lower() + 'x', base.replace(',', ', ', 1) + ' x y', u'СУЩ',
                    base + rng.choice([u' sing sing', u'\n', u',UNKN2'])][k]
        ops = []
        def case(s, calls):
            cases.append({'id': len(cases) + 1, 'gt': gi + 1, 's': s, 'ops': calls})
            ops.append({'id': len(cases), 's': s, 'ops': calls})
        junkg = ['foo', '', 'noun', u'СУЩ', 'NOUN,anim', 'sing ', 'GNdr', 'NUMB', 'UNKN', 'Init', 'POST']
        if params['mode'] == 'translate':
            src = list(builtin)
            src += tags if g.get('all') else rng.sample(tags, min(len(tags), g['n']))
            src += [rand_tag() for _ in range(g['n'] // 4)]
            for s in src:
                c = [{'o': 'cyr_repr'}, {'o': 'grammemes_cyr'}, {'o': 'roundtrip', 's': s}, {'o': 'lat2cyr', 's': s}, {'o': 'cyr_repr'}, {'o': 'grammemes'}]
                if rng.random() < .3: c.append({'o': 'roundtrip', 's': respell(rng, s)})
                case(s, c)
            if True:
                alias = [x[2] for x in t]
                c = [{'o': 'lat2cyr', 's': x} for x in names] + [{'o': 'cyr2lat', 's': x} for x in alias] + [{'o': 'roundtrip', 's': x} for x in names]
                near = set(v for x in names + alias for v in (x.upper(), x.lower(), x.title(), x.swapcase(), x[:-1], x[1:], x + rng.choice(u'12xц'), u'*' + x))
                near = sorted(near - set(names) - set(alias) - set([u'']))
                c += [{'o': o, 's': x} for x in rng.sample(near, min(len(near), 300)) for o in ('lat2cyr', 'cyr2lat')]
                for k in range(0, len(c), 40): case('NOUN', c[k:k + 40])
                pool = names + alias + ['foo', u'ЪЪ', 'noun', '1', u'сущ', 'x-y', 'gen1', 'loc1', '!'] + near[:60]
                for _ in range(g['n'] // 8):
                    x = ' '.join(','.join(rng.choice(pool) for _ in range(rng.randrange(1, 5))) for _ in range(rng.randrange(1, 4)))
                    case('NOUN', [{'o': 'lat2cyr', 's': x}, {'o': 'cyr2lat', 's': x}])
        else:
            for _ in range(g['n']):
                s = rand_tag() if rng.random() < .85 else bad_tag()
                q = s.replace(' ', ',', 1).split(',')
                c = []
                for _ in range(rng.randrange(4, 14)):
                    k = rng.randrange(15)
                    anyg = lambda: rng.choice([rng.choice(q), rng.choice(names), rng.choice(junkg)])
                    cat = rng.choice(sorted(CATS))
                    if k < 3: c.append({'o': 'in', 'g': anyg()})
                    elif k < 6: c.append({'o': 'inset', 'f': bool(rng.randrange(2)), 'q': sorted(set(
                        rng.sample(q, rng.randrange(0, min(4, len(q) + 1))) + [anyg() for _ in range(rng.choice([0, 0, 1, 2]))]))})
                    elif k == 6: c += [{'o': 'attr', 'c': x} for x in rng.sample(sorted(CATS), 4)]
                    elif k == 7: c.append({'o': rng.choice(['cmp', 'ncmp']), 'c': cat, 'g': rng.choice(CATS[cat])})
                    elif k == 8: c.append({'o': rng.choice(['cmp', 'ncmp']), 'c': cat, 'g': rng.choice([anyg(), rng.choice(q)])})
                    elif k == 9: c.append({'o': 'cmpnone', 'c': cat})
                    elif k == 10: c.append({'o': 'attrset', 'c': cat, 'q': rng.sample(CATS[cat], rng.randrange(1, len(CATS[cat]) + 1))})
                    elif k == 11:
                        o = rng.choice([respell(rng, s), rand_tag(), rng.choice(tags), ','.join(reversed(q)), s + ',' + rng.choice(names), ','.join(q[:-1]) or 'NOUN'])
                        if all(x in names for x in o.replace(' ', ',', 1).split(',')): c.append({'o': 'pair', 't': o})
                    elif k == 12: c.append({'o': 'triple', 't': rand_tag(), 'u': rand_tag()})
                    elif k == 13: c += [{'o': 'str'}, {'o': 'pickle'}, {'o': 'grammemes'}]
                    else: c.append({'o': 'new', 's': rng.choice([bad_tag(), rand_tag()])})
                case(s, c)
        jobs.append({'path': g['path'], 'units': g['units'], 'ops': ops})
    for name, rows in (('cases.ndjson', cases), ('jobs.json', jobs), ('ctx.json', {'gts': gts, 'tags': [], 'paras': []})):
        with io.open(os.path.join(out, name), 'w', encoding='utf8') as f:
            if name.endswith('ndjson'):
                for r in rows: f.write(json.dumps(r, ensure_ascii=False) + u'\n')
            else:
                f.write(json.dumps(rows, ensure_ascii=False))

if __name__ == '__main__':
    main()
