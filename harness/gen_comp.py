# -*- coding: utf-8 -*-
"""Source lexicons for the compiler checks.
usage: gen_comp.py PARAMS.json OUTDIR -> cases.json, *.xml
A unit of work is one conversion; it carries one or more cases.  Cases of one
conversion have disjoint lexemes (separated by the first letters of words)."""
import io, itertools, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import toys

ID0 = {'paradigm_prefixes': ["", u"по", u"наи"], 'min_paradigm_popularity': 1, 'min_ending_freq': 1, 'max_suffix_length': 5}


def lex(id, base, forms):
    return {'id': id, 'base': list(base), 'forms': [{'w': w, 'g': list(g)} for w, g in forms]}


def rand_options(rng):
    return {'paradigm_prefixes': rng.choice([["", u"по", u"наи"], [""], ["", u"а", u"б", u"аб"], [u"", u"наи", u"по", u"на"], [u"по", u"", u"а"],
                                            [u"", u"по", u"наи", u"на", u"пра", u"б", u"а", u"аб", u"об", u"у", u"вы", u"ба", u"за"]]),
            'min_paradigm_popularity': rng.choice([1, 1, 2, 3]), 'min_ending_freq': rng.choice([1, 1, 2, 3]),
            'max_suffix_length': rng.choice([1, 2, 3, 5, 5, 7])}


EXTRA = [u'Аб', u'бА-в', u'ё', u'a', u'1-й', u'Ӕб', u"о'а", u'а.б', u'ЁЁ', u'İа', u'ab c']

def random_source(rng, n):
    """lexemes of the templates plus irregular ones"""
    res = []
    ids = rng.sample(range(1, 400), n + 14)
    for (i, base, forms), id in zip(toys.random_lexicon(rng, n, alphabet=rng.choice([u'абенё', u'аб', u'абпо'])), ids):
        if rng.random() < 0.15:
            base, forms = [], [(w, list(base) + g) for w, g in forms]      # all grammemes on the forms
        if rng.random() < 0.1:
            forms = [(w.upper() if rng.random() < 0.5 else w.title(), g) for w, g in forms]
        if rng.random() < 0.15:
            forms = forms + [forms[rng.randrange(len(forms))]]             # repeated form
        if rng.random() < 0.1:
            forms = forms + [(rng.choice(EXTRA), forms[0][1] + ['Abbr'])]
        if rng.random() < 0.1:
            rng.shuffle(forms)
        res.append(lex(id, base, forms))
    ids = ids[n:]
    for _ in range(rng.randrange(3)): res.append({'id': ids.pop(), 'base': [], 'forms': []})     # deleted
    for _ in range(rng.randrange(3)):
        w = rng.choice(EXTRA + [u'аб', u'бе'])
        k = rng.randrange(5)
        id = ids.pop()
        if k == 0: res.append(lex(id, [], [(w, [])]))                                           # no information
        elif k == 1: res.append(lex(id, [], [(w, ['NOUN']), (w + u'а', []), (w + u'б', ['NOUN', 'plur'])]))
        elif k == 2: res.append(lex(id, ['NOUN', 'Init'], [(w, ['sing']), (w, ['plur'])]))
        elif k == 3: res.append(lex(id, ['NOUN'], [(w, ['sing']), (w, ['Init', 'sing']), (w + u'а', ['plur'])]))
        else: res.append(lex(id, ['NOUN', 'anim'], [(w, ['sing', 'nomn'])] * 2))
    if res and rng.random() < 0.5:                                                               # an identical lexeme
        d = json.loads(json.dumps(rng.choice(res)))
        d['id'] = ids.pop()
        res.append(d)
    rng.shuffle(res)
    return res


def small_lexicons(nforms, alphabet, maxlen):
    words = [u''.join(t) for k in range(1, maxlen + 1) for t in itertools.product(alphabet, repeat=k)]
    for fs in itertools.product(words, repeat=nforms):
        yield fs


TAGPOOL = [['NOUN', 'masc'], ['sing', 'loct'], ['sing', 'loc1'], ['plur'], ['gen1', 'plur'], ['gent', 'plur'], ['accs'], ['acc1']]

def tag_source(rng):
    """few grammemes, many orders"""
    sets = []
    for _ in range(rng.randrange(1, 4)):
        sets.append(rng.sample(['masc', 'sing', rng.choice(['loct', 'loc1', 'gen1', 'gent', 'accs', 'acc1', 'nomn', 'loc2', 'gen2']), 'inan', 'perf'], rng.randrange(2, 5)))
    spell = {}
    res = []
    for i in range(rng.randrange(2, 9)):
        forms = []
        nb = rng.randrange(0, 3)
        base = None
        for _ in range(rng.randrange(1, 4)):
            gs = list(rng.choice(sets))
            rng.shuffle(gs)
            m = {'loct': 'loc1', 'loc1': 'loct', 'gent': 'gen1', 'gen1': 'gent', 'accs': 'acc1', 'acc1': 'accs'}
            gs = [m[g] if g in m and rng.random() < .5 else g for g in gs]
            if base is None:
                base = gs[:nb]
            forms.append((u''.join(rng.choice(u'абв') for _ in range(2)), [g for g in gs if g not in base] or ['plur']))
        res.append(lex(i + 1, base, forms))
    return res


def cluster_name(n):
    s = u''
    for _ in range(4):
        s = u'абвгдежзик'[n % 10] + s
        n //= 10
    return s + u'ц'


def link_clusters(nlex, maxlinks, types, limit, rng):
    """every sequence of links over nlex lexemes (or a random sample of them)"""
    pairs = [(a, b, t) for a in range(nlex) for b in range(nlex) for t in types]
    seqs = []
    for k in range(maxlinks + 1):
        total = len(pairs) ** k
        if total <= limit:
            seqs += list(itertools.product(pairs, repeat=k))
        else:
            seqs += [tuple(rng.choice(pairs) for _ in range(k)) for _ in range(limit)]
    return seqs


def cluster_case(n, nlex, links, rng, base_id, shared=False):
    """lexemes of one cluster: forms are distinguishable; sometimes homonymous"""
    pre = cluster_name(n)
    order = list(range(nlex))
    if rng.random() < .5: rng.shuffle(order)
    lexs = []
    for i in range(nlex):
        forms = [(pre + u'шщю'[i % 3] + u'ыэ'[j] * (1 + i // 3) if not shared else pre + u'ш', [['sing'], ['plur']][j] + (['Abbr'] if i else []))
                 for j in range(1 + (i + n) % 2)]
        lexs.append(lex(base_id + order[i], [['NOUN'], ['ADJF'], ['VERB'], ['COMP']][i % 4], forms))
    ids = [l['id'] for l in lexs]
    return {'lexs': lexs, 'links': [[ids[a], ids[b], t] for a, b, t in links], 'pre': pre}


def low(src):
    for l in src['lexs']:
        for f in l['forms']:
            f['orig'] = f['w']
            f['w'] = f['w'].lower()
    return src


def main():
    params, out = json.load(io.open(sys.argv[1], encoding='utf8')), sys.argv[2]
    rng = random.Random(params['seed'])
    units = []                                  # {cases: [{src, pre}], options}
    k = params['kind']
    if k == 'lexicon':
        for i in range(params['n']):
            o = rand_options(rng)
            units.append(([{'lexs': random_source(rng, rng.choice([2, 5, 9, 14])), 'links': []}], o))
        for nf, alpha, ml, pp in params.get('small', []):
            lx = [lex(i + 1, ['NOUN'], [(w, [['nomn'], ['gent'], ['datv']][j]) for j, w in enumerate(fs)])
                  for i, fs in enumerate(small_lexicons(nf, alpha, ml))]
            for part in [lx[i:i + 60] for i in range(0, len(lx), 60)]:
                units.append(([{'lexs': part, 'links': []}], dict(ID0, paradigm_prefixes=pp)))
    elif k == 'links':
        cases = []
        n = 0
        base = 1
        for nlex, ml, types, limit in params['graphs']:
            for seq in link_clusters(nlex, ml, types, limit, rng):
                c = cluster_case(n, nlex, seq, rng, base, shared=rng.random() < .1)
                base += nlex
                n += 1
                cases.append(c)
        # a word of each cluster belongs to one lexeme at most
        for part in [cases[i:i + 700] for i in range(0, len(cases), 700)]:
            units.append((part, ID0))
        for i in range(params.get('n', 0)):
            src = random_source(rng, rng.choice([5, 9, 14]))
            ids = [l['id'] for l in src]
            links = [[rng.choice(ids), rng.choice(ids), rng.choice(['1', '2', '3', '7', '11', '21', '22', '23', '27', '10'])] for _ in range(rng.randrange(1, 12))]
            units.append(([{'lexs': src, 'links': links}], rand_options(rng)))
    elif k == 'tags':
        for i in range(params['n']):
            units.append(([{'lexs': tag_source(rng), 'links': []}], ID0))
    elif k == 'tables':
        for i in range(params['n']):
            src = random_source(rng, rng.choice([5, 9, 14, 20]))
            links = []
            if rng.random() < .3:
                ids = [l['id'] for l in src]
                links = [[rng.choice(ids), rng.choice(ids), '3'] for _ in range(3)]
            units.append(([{'lexs': src, 'links': links}], rand_options(rng)))
    cases, jobs = [], []
    for u, (cs, o) in enumerate(units):
        xml = os.path.join(out, 'u%d.xml' % u)
        alll, links = [], []
        job = {'xml': xml, 'out': os.path.join(out, 'u%d' % u), 'options': o, 'cases': [], 'pred': bool(params.get('pred'))}
        for c in cs:
            low(c)
            id = len(cases) + 1
            for l in c['lexs']:
                f = [(f['orig'], f['g']) for f in l['forms']]
                alll.append((str(l['id']), l['base'], f if f else None))
            links += c['links']
            cases.append({'id': id, 'haspred': bool(params.get('pred')) and len(cs) == 1,
                          'src': {'lexs': [{'id': l['id'], 'base': l['base'], 'forms': [{'w': f['w'], 'g': f['g']} for f in l['forms']]} for l in c['lexs']],
                                  'links': c['links'], 'opt': {'pp': o['paradigm_prefixes'], 'maxsuf': o['max_suffix_length'],
                                                               'minpop': o['min_paradigm_popularity'], 'minend': o['min_ending_freq']}}})
            job['cases'].append([id, c.get('pre', '')])
        toys.write_xml(xml, alll, links)
        jobs.append(job)
    for name, x in (('cases.json', cases), ('jobs.json', jobs)):
        with io.open(os.path.join(out, name), 'w', encoding='utf8') as f:
            f.write(json.dumps(x, ensure_ascii=False))

if __name__ == '__main__':
    main()
