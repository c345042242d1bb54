# -*- coding: utf-8 -*-
"""Small random lexicons in OpenCorpora XML format."""
import io, json, os
from xml.sax.saxutils import quoteattr, escape
HERE = os.path.dirname(os.path.abspath(__file__))
_G = None

def grammemes():
    """the grammeme table of the specification: [name, parent, alias, description]"""
    global _G
    if _G is None:
        with io.open(os.path.join(HERE, '..', 'spec', 'data', 'grammemes.json'), encoding='utf8') as f:
            _G = json.load(f)
    return _G


def version_of(lexemes, links):
    """(version, revision) of a source ('' if it does not tell): they depend on the contents only"""
    n = len(lexemes)
    return u'0.%d' % (90 + len(links)) if n % 5 != 3 else u'', u'%d' % (403000 + 7 * n) if n % 7 != 6 else u''


def write_xml(fn, lexemes, links=(), gram=None):
    """lexemes: list of (id, base_grammemes, [(form, grammemes)]) or (id, None, None) for deleted ones;
    links: list of (from, to, type).  Half of the files are laid out in the manner of the published
    dumps (restrictions, link types, comments, indentation)"""
    gram = gram or grammemes()
    loose = (len(lexemes) + len(links)) % 2 == 1
    with io.open(fn, 'w', encoding='utf8') as f:
        f.write(u'<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n<dictionary%s%s>\n<grammemes>\n' % tuple(
            u' %s="%s"' % (k, v) if v else u'' for k, v in zip(('version', 'revision'), version_of(lexemes, links))))
        for name, parent, alias, descr in gram:
            f.write(u'<grammeme parent=%s><name>%s</name><alias>%s</alias><description>%s</description></grammeme>\n'
                    % (quoteattr(parent or ''), escape(name), escape(alias), escape(descr)))
        f.write(u'</grammemes>\n')
        if loose:
            f.write(u'<!-- <lemma id="1"><l t="x"/></lemma> -->\n<restrictions>\n<restr type="maybe" auto="0"><left type="lemma"></left><right type="lemma">NOUN</right></restr>\n'
                    u'<restr type="obligatory" auto="1"><left type="lemma">NOUN</left><right type="form">nomn</right></restr>\n</restrictions>\n')
        f.write(u'<lemmata>\n')
        for lid, base, forms in lexemes:
            if forms is None:
                f.write(u'<lemma id="%s" rev="1"/>\n' % lid)
                continue
            nl = u'\n    ' if loose else u''
            g_ = u'<g v=%s></g>' if loose else u'<g v=%s/>'
            f.write(u'<lemma %s>%s<l t=%s>%s</l>' % (
                u'rev="9%s" id="%s"' % (lid, lid) if loose else u'id="%s" rev="1"' % lid, nl, quoteattr(forms[0][0]), u''.join(g_ % quoteattr(g) for g in base)))
            for k, (form, gr) in enumerate(forms):
                if loose and k == 1: f.write(u'<!-- form -->')
                f.write(nl + u'<f t=%s>%s</f>' % (quoteattr(form), u''.join(g_ % quoteattr(g) for g in gr)))
            f.write(u'</lemma>\n')
        f.write(u'</lemmata>\n<link_types>%s</link_types>\n<links>\n' % (u'\n<type id="1">ADJF-ADJS</type>\n<type id="3">ADJF-COMP</type>\n' if loose else u''))
        for i, (a, b, t) in enumerate(links):
            f.write(u'<link id="%d" from="%s" to="%s" type="%s"/>\n' % (i + 1, a, b, t))
        f.write(u'</links>\n</dictionary>\n')


NOUN_F = ['NOUN', 'inan', 'femn']; NOUN_M = ['NOUN', 'anim', 'masc']; NOUN_N = ['NOUN', 'inan', 'neut']
TEMPLATES = [
    # (base, [(prefix, suffix, grammemes)])
    (NOUN_F, [('', 'а', ['sing', 'nomn']), ('', 'е', ['sing', 'datv']), ('', 'у', ['sing', 'accs']), ('', '', ['plur', 'gent'])]),
    (NOUN_M, [('', '', ['sing', 'nomn']), ('', 'а', ['sing', 'gent']), ('', 'е', ['sing', 'loct']), ('', 'у', ['sing', 'loc2']), ('', 'ё', ['sing', 'gen2'])]),
    (NOUN_N, [('', 'о', ['sing', 'nomn']), ('', 'а', ['sing', 'gent']), ('', 'ах', ['plur', 'loct'])]),
    (['ADJF', 'Qual'], [('', 'ый', ['masc', 'sing', 'nomn']), ('', 'ому', ['masc', 'sing', 'datv']), ('', 'ая', ['femn', 'sing', 'nomn']),
                ('', 'ую', ['femn', 'sing', 'accs']), ('', 'ой', ['femn', 'sing', 'ablt', 'V-oy']), ('', 'ей', ['femn', 'sing', 'ablt', 'V-ey']),
                ('', 'ых', ['plur', 'gent']), ('', 'ые', ['plur', 'nomn'])]),
    (['COMP', 'Qual'], [('', 'ее', []), ('', 'ей', ['V-ej']), ('по', 'ее', ['Cmp2']), ('по', 'ей', ['Cmp2', 'V-ej'])]),
    (['ADJF', 'Supr', 'Qual'], [('наи', 'ый', ['masc', 'sing', 'nomn']), ('наи', 'ая', ['femn', 'sing', 'nomn']), ('наи', 'нёй', ['femn', 'sing', 'ablt']), ('', 'ей', ['femn', 'sing', 'datv'])]),
    (['VERB', 'perf', 'tran'], [('', 'у', ['sing', '1per', 'futr', 'indc']), ('', 'ет', ['sing', '3per', 'futr', 'indc']), ('', 'и', ['sing', 'impr', 'excl'])]),
    (['PREP'], [('', '', [])]),
    (['CONJ'], [('', '', [])]),
    (['ADVB'], [('', 'о', [])]),
    (['NPRO', '1per'], [('', 'я', ['sing', 'nomn']), ('', 'ы', ['plur', 'nomn'])]),
    (['ADJF', 'Apro'], [('', 'ый', ['masc', 'sing', 'nomn']), ('', 'ому', ['masc', 'sing', 'datv'])]),
    (['NUMR'], [('', 'а', ['nomn']), ('', 'ух', ['gent'])]),
    (['PRTF', 'impf', 'past', 'actv'], [('', 'ая', ['femn', 'sing', 'nomn']), ('', 'ые', ['plur', 'nomn'])]),
    # suppletive (empty stem): no common substring
    (['NOUN', 'anim', 'femn'], [('мать', '', ['sing', 'nomn']), ('у', 'ё', ['plur', 'gent'])]),
    (['VERB', 'impf', 'intr'], [('', 'ю', ['sing', '1per', 'pres', 'indc']), ('', 'ешь', ['sing', '2per', 'pres', 'indc']), ('', 'ет', ['sing', '3per', 'pres', 'indc']),
                                ('', 'ем', ['plur', '1per', 'pres', 'indc']), ('', 'ил', ['masc', 'sing', 'past', 'indc']), ('', 'ила', ['femn', 'sing', 'past', 'indc'])]),
    # homonyms: the same first form (and tag) as in another template, but another paradigm
    (NOUN_M, [('', '', ['sing', 'nomn']), ('', 'у', ['sing', 'gent']), ('', 'у', ['sing', 'datv']), ('', 'е', ['sing', 'loct'])]),
    (NOUN_F, [('', 'а', ['sing', 'nomn']), ('', 'ё', ['sing', 'datv']), ('', 'е', ['sing', 'datv']), ('', 'е', ['sing', 'loct'])]),
    (['NOUN', 'inan', 'masc'], [('', '', ['sing', 'nomn']), ('', '', ['sing', 'accs']), ('', 'а', ['sing', 'gent']), ('', 'а', ['plur', 'nomn'])]),
    (['COMP', 'Qual'], [('', 'ее', []), ('', 'ей', ['V-ej']), ('наи', 'ее', ['Cmp2']), ('наи', 'ей', ['Cmp2', 'V-ej'])]),
    # short words
    (['ADJF'], [('', 'й', ['masc', 'sing', 'nomn']), ('', 'у', ['masc', 'sing', 'datv']), ('', 'м', ['plur', 'datv']), ('', 'е', ['plur', 'nomn']), ('', 'и', ['plur', 'accs', 'inan'])]),
]
TWINS = {0: [17, 2], 17: [0], 1: [16, 18], 16: [1, 18], 18: [1, 16], 4: [19], 19: [4]}


CASES = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'gen2', 'acc2', 'loc2']
ENDINGS = [u'', u'а', u'е', u'ё', u'у', u'ы', u'ой', u'ом', u'ах', u'ам', u'о', u'и']
REMARKS = ['Arch', 'Infr', 'Slng', 'Litr', 'Erro', 'Dist', 'Ques', 'Dmns']

def random_template(rng, remarks=.3):
    """a lexeme with many forms of one part of speech and any combination of features"""
    k = rng.choice(['noun', 'noun', 'noun', 'adj', 'adj', 'verb', 'num', 'any', 'any'])
    pick = lambda *xs: rng.choice(xs)
    forms = []
    if k == 'noun':
        base = ['NOUN', pick('anim', 'inan'), pick('masc', 'femn', 'neut', 'ms-f', 'GNdr')] + pick([], [], ['Name'], ['Geox'], ['Sgtm'])
        nums = [x for x in ('sing', 'plur') if rng.random() < .8] or ['sing']
        forms = [[n, c] for n in nums for c in CASES if rng.random() < (.8 if c in CASES[:6] else .4)]
    elif k == 'adj':
        base = pick(['ADJF', 'Qual'], ['ADJF'], ['PRTF', 'impf', 'tran', 'past', 'pssv'], ['ADJF', 'Apro'], ['PRTF', 'perf', 'intr', 'past', 'actv'])
        forms = [[g, 'sing', c] for g in ('masc', 'femn', 'neut') for c in CASES[:6] if rng.random() < .5] + [['plur', c] for c in CASES[:6] if rng.random() < .5]
        forms = [f + [pick('anim', 'inan')] if 'accs' in f and rng.random() < .5 else f for f in forms]
        forms = [f + [pick('V-oy', 'V-ey')] if 'ablt' in f and rng.random() < .5 else f for f in forms]
    elif k == 'verb':
        base = ['VERB', pick('perf', 'impf'), pick('tran', 'intr')]
        forms = [[n, p, t, 'indc'] for n in ('sing', 'plur') for p in ('1per', '2per', '3per') for t in ('pres', 'futr') if rng.random() < .35]
        forms += [[g, 'sing', 'past', 'indc'] for g in ('masc', 'femn', 'neut') if rng.random() < .5] + [['plur', 'impr', x] for x in ('incl', 'excl') if rng.random() < .4]
    elif k == 'any':            # any combination of features, with or without each of them
        base = [pick('NOUN', 'ADJF', 'PRTF', 'NPRO', 'VERB')] + pick([], ['anim'], ['inan'])
        cats = [('masc', 'femn', 'neut'), ('sing', 'plur'), CASES, ('1per', '2per', '3per'), ('past', 'pres', 'futr'), ('anim', 'inan'), ('actv', 'pssv')]
        # a noun always has a case: agreement with a number needs one
        use = [(c, 1 if c is CASES and base[0] == 'NOUN' else rng.choice([.5, .8, 1])) for c in cats[:3 if rng.random() < .6 else 7] if not (c[0] == 'anim' and len(base) > 1)]
        forms = [[rng.choice(c) for c, p in use if rng.random() < p] or ['sing'] for _ in range(12)]
    else:
        base = ['NUMR']
        forms = [[c] for c in CASES[:6] if rng.random() < .7]
    forms = forms or [['sing']]
    if rng.random() < remarks:  # remarks: forms of one lexeme may differ much in length
        forms = [f + rng.sample(REMARKS, rng.choice([1, 3, 5, 6])) if rng.random() < .4 else f for f in forms]
    if rng.random() < .2: rng.shuffle(forms)
    return base, [(rng.choice(['', '', '', '', '', u'по']) if k == 'adj' else '', rng.choice(ENDINGS), f) for f in forms[:14]]


def random_lexicon(rng, n=14, alphabet=u'абенё', templates=None, stems=None):
    """A lexicon of n lexemes; several lexemes per template, sometimes sharing stems."""
    if templates == 'rich':
        templates = [random_template(rng, .6) for _ in range(6)]
    if templates is None:       # every third lexeme is of one of a few random templates
        own = [random_template(rng) for _ in range(3)]
        templates = TEMPLATES + own * (len(TEMPLATES) // 6)
    lex = []
    last = -1
    pool = list(stems or [])
    while len(pool) < max(4, n // 2):
        s = u''.join(rng.choice(alphabet) for _ in range(rng.choice([1, 2, 2, 3, 3, 4])))
        if s not in pool: pool.append(s)
    for i in range(n):
        twin = [TEMPLATES[k] for k in TWINS.get(last, ())]
        if twin and twin[0] in templates and rng.random() < .25:
            base, forms = rng.choice(twin)      # a homonym of the previous lexeme
        else:
            base, forms = rng.choice(templates)
            stem = rng.choice(pool)
        last = TEMPLATES.index((base, forms)) if (base, forms) in TEMPLATES else -1
        lex.append((str(i + 1), base, [(p + stem + s, g) for p, s, g in forms]))
    return lex
