# -*- coding: utf-8 -*-
"""Generators of analyzer cases.  Each generator g(b) registers configurations
and cases on a Build; b.p holds the parameters given by the check:
 toys: [{path, ...}], real: bool, old: bool, n: scale of the random part, seed."""
import itertools, random, unicodedata
from mk import RU_FAST, RU_OLD
from words import WordGen
from configs import lang_data

RU = lang_data('ru')
UK = lang_data('uk')
ABC = u'абвгдеёжзийклмнопрстуфхцчшщъыьэюя'


def exhaustive(alphabet, maxlen):
    return [u''.join(t) for n in range(0, maxlen + 1) for t in itertools.product(alphabet, repeat=n)]


class Lex(object):
    """word material from a (small or real) dictionary"""
    def __init__(self, reader, rng, real):
        self.r, self.rng, self.real = reader, rng, real
        if real:
            self.g = WordGen(reader, rng)
        else:
            self.known = sorted(set(reader.words.iterkeys()))
            self.ends = sorted(set(e for d in reader.pred for e in d.iterkeys())) or [u'а']

    def word(self):
        return self.g.word() if self.real else self.rng.choice(self.known)

    def oov(self):
        if self.real: return self.g.pseudo()
        r = self.rng
        return u''.join(r.choice(u'абенёпо') for _ in range(r.choice([0, 1, 2, 3, 4]))) + r.choice(self.ends)

    def tagged(self, *subs):
        if self.real:
            return self.g.word_with(*subs)
        for _ in range(300):
            w = self.rng.choice(self.known)
            for p, i in self.r.words.get(w) or []:
                t = self.r.paradigm(p)[i][1].replace(' ', ',').split(',')
                if all(s in t for s in subs): return w
        return self.rng.choice(self.known)

    def part(self):
        r = self.rng
        return r.choice([self.word, self.word, self.word, self.oov])()


def recase(rng, w):
    k = rng.randrange(6)
    if k == 0: return w.upper()
    if k == 1: return w.title()
    if k == 2: return u''.join(rng.choice([c, c.upper()]) for c in w)
    return w


def plain(rng, w, subst):
    inv = dict((b, a) for a, b in (subst or {}).items())
    return u''.join(inv[c] if c in inv and rng.random() < 0.6 else c for c in w)


# ---------------------------------------------------------------- themes
def t_dict(x, rng):
    w = x.word()
    return recase(rng, plain(rng, w, RU['subst']))

def t_subst(x, rng):
    """spellings of a dictionary word that substitutions (of this analyzer) lead to, or should not lead to"""
    w, sub = x.word(), getattr(x, 'subst', None) or RU['subst']
    inv, p = dict((b, a) for a, b in sub.items()), rng.choice([0, 0, .2, .5, .8])
    w = u''.join(inv[c] if c in inv and rng.random() >= p else c for c in w)
    if rng.random() < .3: w = u''.join(sub[c] if c in sub and rng.random() < .3 else c for c in w)
    return recase(rng, w) if rng.random() < .3 else w

def t_near(x, rng):
    """a dictionary word with one letter changed (often e/yo)"""
    w = list(x.word())
    i = rng.randrange(len(w))
    k = rng.randrange(4)
    if k == 0: w[i] = rng.choice(u'её')
    elif k == 1: w[i] = rng.choice(ABC)
    elif k == 2: del w[i]
    else: w.insert(i, rng.choice(ABC))
    return u''.join(w)

def t_oov(x, rng):
    return recase(rng, plain(rng, x.oov(), RU['subst']))

def t_pprefix(x, rng):
    """starts like a form with a paradigm prefix"""
    if rng.random() < .4 and not x.real:
        p = rng.choice([u'по', u'наи'])
        ws = [w for w in x.known if w.startswith(p)]
        if ws:      # ... and ends like one
            w = rng.choice(ws)
            return plain(rng, p + u''.join(rng.choice(u'щъбвг') for _ in range(rng.choice([0, 1, 2, 3]))) + w[rng.randrange(len(p), len(w) + 1):], RU['subst'])
    return rng.choice([u'по', u'наи', u'поо', u'наиб']) + rng.choice([x.word, x.oov])()

def t_prefix(x, rng):
    p = rng.choice([u'не', u'авиа', u'псевдо', u'анти', u'анти-', u'супер', u'супер-', u'экс-', u'вице-', u'евро']
                   + [rng.choice(RU['prefixes']) for _ in range(6)])
    w = rng.choice([x.word, x.word, x.oov])()
    k = rng.randrange(8)
    if k == 0: p = rng.choice(RU['prefixes']) + p
    if k == 1: w = w[:rng.choice([1, 2, 3])]
    if k == 2 and x.real: w = x.tagged(rng.choice(['PREP', 'CONJ', 'NPRO', 'PRCL', 'NUMR']))
    if k == 3: p = rng.choice([u'над', u'меж', u'под']) + p
    return recase(rng, p + w)

def t_uprefix(x, rng):
    p = u''.join(rng.choice(u'бвгд' if rng.random() < 0.6 else ABC) for _ in range(rng.choice([1, 2, 3, 4, 5, 6])))
    w = x.word() if rng.random() < 0.85 else x.tagged(rng.choice(['PREP', 'NPRO', 'CONJ', 'NUMR']))
    if rng.random() < .15: p = w[:rng.choice([2, 3, 4, 5, 6])]         # the prefix looks like the word
    return recase(rng, p + w)

def t_particle(x, rng):
    return recase(rng, x.part() + rng.choice(RU['particles'] + [u'-бы', u'то', u'-то-то', u'-с-то']))

def t_adverb(x, rng):
    k = rng.randrange(8)
    near = [('ADJF', 'plur', 'datv'), ('ADJF', 'sing', 'gent'), ('NOUN', 'sing', 'datv'), ('PRTF', 'sing', 'datv'), ('ADJF', 'sing', 'ablt'), ('NUMR', 'datv'), ('ADJS', 'sing')]
    if k < 6:
        try: w = x.tagged(*(('ADJF', 'sing', 'datv') if k < 4 else rng.choice([near[0], near[0]] + near)))
        except LookupError: w = x.word()
        if k == 0 and not x.real:
            short = [v for v in x.known if len(v) <= 3]
            w = rng.choice([v for v in short if any('datv' in x.r.paradigm(p)[i][1] for p, i in x.r.words[v])] or short or [w])
    else: w = x.part()
    return recase(rng, rng.choice([u'по-', u'по-', u'по-', u'по', u'на-', u'по-по-']) + w)

FEATURES = [('NOUN', 'ADJF', 'VERB', 'ADJS', 'PRTF'), ('sing', 'plur'), ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct'), ('1per', '2per', '3per'), ('past', 'pres', 'futr')]

OTHER = [('actv', 'pssv'), ('masc', 'femn', 'neut'), ('anim', 'inan'), ('perf', 'impf'), ('tran', 'intr'), ('Qual', 'Name', 'Geox', 'Apro'), ('indc', 'impr')]

def t_compound(x, rng):
    k = rng.randrange(8)
    a, b = x.part(), x.part()
    if k <= 2:
        # same tag on both sides
        w = x.word()
        ents = x.r.words.get(w)
        if ents:
            t = x.r.paradigm(ents[0][0])[ents[0][1]][1].replace(' ', ',').split(',')
            fs = [g for g in t if any(g in s for s in FEATURES)]
            if fs and rng.random() < .6:    # ... or one feature differs
                i = rng.choice(range(len(fs)))
                s = [s for s in FEATURES if fs[i] in s][0]
                fs[i] = rng.choice([g for g in s if g != fs[i]])
            if fs and rng.random() < .1: fs.remove(rng.choice(fs))
            try: a, b = w, x.tagged(*fs)
            except LookupError: pass
            if rng.random() < .5: a, b = b, a
        return recase(rng, plain(rng, a, RU['subst']) + u'-' + b)
    if k in (3, 6) and rng.random() < .7:
        # parts that agree but differ in a category that does not count
        s = rng.choice(OTHER)
        fs = [rng.choice(v) for v in (FEATURES[0], FEATURES[1])]
        if rng.random() < .5: fs[0] = 'PRTF'
        if fs[0] != 'VERB': fs.append(rng.choice(FEATURES[2]))
        if fs[0] == 'PRTF':
            fs.append(rng.choice(['past', 'past', 'pres']))
            s = rng.choice([OTHER[0], OTHER[0], s])
        s = rng.sample(s, 2)
        try: a, b = x.tagged(*(fs + [s[0]])), x.tagged(*(fs + [s[1]]))
        except LookupError: pass
        return recase(rng, a + u'-' + b)
    if k == 3: return a + u'-' + b + u'-' + x.part()
    if k == 4: return rng.choice([u'-' + a, a + u'-', u'-' + a + u'-', a + u'--' + b, u'-', u'--', u'-' + a + u'-' + b])
    if k == 5: return rng.choice([u'анти-', u'вице-', u'экс-', u'интернет-']) + b
    if k == 6: return rng.choice([u'12', u'X', u'foo', u'а', u',']) + u'-' + b
    return recase(rng, a + u'-' + rng.choice([b, u'12', u'foo', u'а', u'и', u'XX']))

NUMS = [u'1.,', u'1,.', u'1.,5', u'٣,١', u'0', u'00', u'-0', u'.', u'5e', u'1\u0660', u'①', u'Ⅻ', u'三', u'1٫5', u'1٬000', u'0b1', u'1j', u'+.5', u'-,5', u'0', u'1', u'12', u'-5', u'+5', u'1.5', u'1,5', u'.5', u'5.', u',5', u'1.5.2', u'1,5,2', u'1e5', u'1e', u'e5', u'1_000', u'1__0', u'_1', u'1_',
        u'--5', u'+-5', u' 12', u'12 ', u'1 2', u'1.', u'.', u',', u'1.e5', u'1e+5', u'1e-5', u'1E5', u'1.5e3', u'1,5e3', u'0x10', u'1½', u'²', u'٣', u'１２', u'1.٣',
        u'nan', u'inf', u'-inf', u'infinity', u'NaN', u'1-2', u'12-й', u'1-1', u'+', u'-', u'1a', u'а1', u'1\n', u'1' * 30, u'9' * 4301, u'-' + u'9' * 4400, u'1.' + u'0' * 60, u'1e400']
PUNCT = [u',', u'.', u'...', u'!?', u' , ', u'—', u'«', u'»', u'(', u')', u'"', u'_', u'__', u'$', u'+', u'=', u'%', u'№', u'…', u'-', u'--', u' ', u'\t', u'\n', u'', u',а', u'а,', u'1,',
         u'@', u'#', u'^', u'~', u'`', u'|', u'<', u'>', u'\\', u'/', u'*', u'&', u'՞', u'。', u'、', u'؟', u'\u200b', u'\xa0', u'\xa0.', u'\u2028', u', \n .']
LATIN = [u'a', u'foo', u'Foo-Bar', u'x1', u'foo.bar', u'é', u'ß', u'ﬁ', u'Å', u'foo бар', u'fooбар', u'c3p0', u'iPhone', u"don't", u'ｆｏｏ', u'ª', u'º', u'Ǆ', u'ŉ', u'123-FOO',
         u'œ', u'ɐ', u'ᵃ', u'foo\n', u'µ', u'α', u'fooα', u'中', u'foo中', u'\u4db6', u'a\u4db6', u'q' * 60, u'Ⓐ', u'ⓐⓑ', u'⒜', u'🄰', u'🅰1', u'aⓐ', u'ⓐ1.', u'ᴬ', u'Ⅻ', u'ↄ', u'﹪', u'ꜰ', u'C++', u'A&B', u'K', u'Å']
ROMAN = [u'I', u'II', u'III', u'IIII', u'IV', u'V', u'VI', u'IX', u'VIIII', u'X', u'XL', u'XC', u'IC', u'L', u'C', u'D', u'M', u'MM', u'MMMM', u'MMMMM', u'MCMXCIV', u'mcmxciv', u'XIi', u'xX', u'XX.',
         u'ХХ', u'IVX', u'VX', u'LC', u'DM', u'CMC', u'XIX', u'XIXв', u'XIX-й', u'MDCLXVI', u'MMMMDCCCLXXXVIII', u'MMMMDCCCLXXXVIIII', u'IIX', u'X\n', u'\n', u'XII\n', u' X', u'X ', u'CD', u'CM', u'civil', u'mix', u'dim', u'MIX', u'Di']

def t_shape(x, rng):
    k = rng.randrange(10)
    pick = lambda: rng.choice(rng.choice([NUMS, PUNCT, LATIN, ROMAN]))
    if k < 6: return pick()
    if k == 6: return pick() + pick()
    if k == 7: return u''.join(rng.choice(u'0123456789.,-+e _') for _ in range(rng.randrange(1, 7)))
    if k == 8: return u''.join(rng.choice(u'IVXLCDMivxlcdm') for _ in range(rng.randrange(1, 8)))
    return u''.join(rng.choice(u'aé.,1 -αа') for _ in range(rng.randrange(1, 6)))

def t_initial(x, rng):
    k = rng.randrange(7)
    c = rng.choice(ABC.upper() + UK['letters'][0] + u'ІЇЄҐ')
    if k == 6:      # several letters, next to each other in the alphabet
        s = u''.join(rng.choice([RU, UK])['letters'])
        i, j = rng.randrange(len(s)), rng.choice([1, 2, 2, 3])
        return s[i:i + j]
    if k <= 2: return c
    if k == 3: return c.lower()
    if k == 4: return c + rng.choice([u'.', u' ', c, u'-' + c, u'\n'])
    return rng.choice(u'ABCZαЖЪЬЫЙЁ')

JUNK = u'\u0301\u0306\u200d\ufeff\xad\U0001f600\U00010400\u0130\u01c5ẞß\u1e9e\ufb01\u03a3ς\u0345ÅΩK\xa0\u3000\x1b\u0378\u2160ⅻ①½\u0661\u0e01\u4e2d\uac00ґїєіўљњ\u04d8\u1c80\ua64a_-.,:;!?1a '
def t_junk(x, rng):
    k = rng.randrange(5)
    if k == 0: return u''.join(rng.choice(JUNK) for _ in range(rng.randrange(0, 6)))
    if k == 1:
        c = 0xd800
        while 0xd800 <= c < 0xe000: c = rng.randrange(0x20, 0x30000 if rng.random() < 0.3 else 0xffff)
        return chr(c) * rng.choice([1, 1, 2, 3])
    if k == 2: return x.word() + rng.choice(JUNK)
    if k == 3:
        w = x.word(); i = rng.randrange(len(w) + 1)
        return w[:i] + rng.choice(JUNK) + w[i:]
    return x.word() + rng.choice(u' .,:') + x.word()

def t_nested(x, rng):
    w = x.part()
    for _ in range(rng.choice([1, 2])):
        k = rng.randrange(5)
        if k == 0: w = rng.choice([u'не', u'анти', u'супер', u'анти-']) + w
        elif k == 1: w = w + rng.choice(RU['particles'])
        elif k == 2: w = x.part() + u'-' + w
        elif k == 3: w = u'по-' + w
        else: w = u'бя' + w
    return recase(rng, w)[:34]

def t_prob(x, rng):
    """a word with P(t|w)"""
    if not x.r.prob or x.real: return x.word()
    w = rng.choice(sorted(x.r.prob.iterkeys())).split(u':')[0]
    if rng.random() < .2: w = rng.choice([u'не', u'анти', u'супер']) + rng.choice(sorted(k for k in x.r.prob.iterkeys() if len(k.split(u':')[0]) > 2) or [w]).split(u':')[0]
    return recase(rng, plain(rng, w, RU['subst']))

def t_own(x, rng):
    """made with the prefixes, particles and letters of the units configured"""
    us = [u for u in getattr(x, 'own', []) if 'prefixes' in u or 'particles' in u or 'letters' in u]
    if not us: return t_prefix(x, rng)
    u = rng.choice(us)
    if u['k'] == 'part': return recase(rng, x.part() + rng.choice(u['particles']))
    if 'letters' in u: return rng.choice(u['letters'])
    p = rng.choice(u['prefixes'])
    if u['k'] == 'comp': return recase(rng, p + rng.choice(['-', '', '']) + x.part() + rng.choice(['-', '']) + x.part())
    return recase(rng, p + rng.choice([x.word, x.word, x.oov])())

def t_edge(x, rng):
    """nothing but prefixes and particles, or hardly more"""
    pre, part = rng.choice(RU['prefixes'] + [u'по-', u'по', u'наи']), rng.choice(RU['particles'])
    few = x.word()[:rng.choice([1, 1, 2, 2, 3])]
    return recase(rng, rng.choice([part, part, pre, pre, u'по-' + few, pre + part, part + part, few + part, pre + few, u'-' + few, few + u'-', few + u'-' + few,
                                   pre + rng.choice(RU['prefixes']), u'по-' + few + part, pre + u'-' + few, part[1:], u'по' + part, few]))

def t_pieces(x, rng):
    pieces = [x.word(), x.word(), x.oov(), u'по', u'наи', u'не', u'авиа', u'анти-', u'по-', u'б', u'н', u'-', u'а', u'1', u'X', u'пол', u'-то', u'е', u'ё']
    return u''.join(rng.choice(pieces) for _ in range(rng.choice([2, 2, 2, 3])))[:30]

THEMES = dict((k[2:], v) for k, v in list(globals().items()) if k.startswith('t_'))


def random_units(rng):
    """a random unit list (groups of units), with varied parameters"""
    kinds = ['dict', 'fname', 'patr', 'number', 'punct', 'roman', 'latin', 'part', 'adverb', 'comp', 'kpref', 'upref', 'suf']
    def unit(k):
        u = {'k': k}
        if rng.random() < 0.5:
            if k in ('part', 'comp', 'kpref', 'upref', 'suf'): u['mul'] = rng.choice([[1, 2], [1, 4], [4, 5], [1, 1]])
            if k in ('number', 'punct', 'roman', 'latin', 'fname', 'patr', 'adverb'): u['score'] = rng.choice([0.5, 0.25, 1.0, 0.8])
            if k == 'suf': u['minlen'] = rng.choice([1, 2, 3, 5, 6])
            if k == 'kpref':
                u['minrem'] = rng.choice([1, 2, 4])
                u['prefixes'] = [u'не', u'нен', u'б', u'анти-', u'ан', u'аб']
            if k == 'comp': u['prefixes'] = [u'анти-', u'б', u'ав']
            if k == 'part': u['particles'] = rng.choice([[u'-то', u'-та', u'-а'], [u'-е', u'-то']])
            if k in ('fname', 'patr'): u['letters'] = [u'А', u'Б', u'Ё', u'Щ']
        return u
    chosen = [k for k in kinds if rng.random() < 0.6]
    if rng.random() < 0.4: rng.shuffle(chosen)
    units = [unit(k) for k in chosen] or [unit('dict')]
    if rng.random() < 0.5:      # a second unit of the same class with other words, all else equal
        for k in ('kpref', 'part', 'comp', 'fname', 'patr'):
            for i, u in enumerate(units):
                if u['k'] == k and rng.random() < .5:
                    v = dict(u)
                    if k in ('kpref', 'comp'): v['prefixes'] = rng.choice([[u'е', u'ён', u'бе'], [u'е', u'п'], [u'но']])
                    elif k == 'part': v['particles'] = rng.choice([[u'-ё', u'-н'], [u'-б', u'-бе']])
                    else: v['letters'] = [u'В', u'Е', u'Н']
                    units.insert(rng.randrange(i, len(units)) + 1, v)
                    break
    if rng.random() < .2: units.append(unit(rng.choice(units)['k']))
    groups, i = [], 0
    while i < len(units):
        n = rng.choice([1, 1, 1, 2, 3])
        groups.append(units[i:i + n]); i += n
    if rng.random() < 0.8: groups.append([{'k': 'unkn'}])
    return groups


KINDS = ['dict', 'fname', 'patr', 'number', 'punct', 'roman', 'latin', 'part', 'adverb', 'comp', 'kpref', 'upref', 'suf', 'unkn']
HITS = {'dict': lambda x, rng: x.word(), 'fname': lambda x, rng: rng.choice([u'А', u'Б', u'Н']), 'number': lambda x, rng: rng.choice([u'12', u'1.5', u'007', u'1,5']),
        'punct': lambda x, rng: rng.choice([u',', u'...', u'!?']), 'roman': lambda x, rng: rng.choice([u'XII', u'V', u'mix']), 'latin': lambda x, rng: rng.choice([u'foo', u'V', u'a1']),
        'part': lambda x, rng: x.word() + rng.choice([u'-то', u'-ка']), 'adverb': lambda x, rng: u'по-' + x.tagged('ADJF', 'sing', 'datv'),
        'comp': lambda x, rng: rng.choice([t_compound(x, rng), x.word() + u'-' + x.word(), x.oov() + u'-' + x.word()]),
        'kpref': lambda x, rng: rng.choice([u'не', u'анти', u'по-', u'пона']) + x.word(), 'upref': lambda x, rng: rng.choice([u'бя', u'по', u'не', u'по-']) + x.word(),
        'suf': lambda x, rng: x.oov(), 'unkn': lambda x, rng: rng.choice([u'ъъ', u'', x.oov()])}
HITS['patr'] = HITS['fname']

def pair_units(rng, k1, k2, form):
    """a list in which the two rules meet"""
    def unit(k):
        u = {'k': k}
        if k == 'part': u['particles'] = [u'-то', u'-ка']
        if k == 'kpref': u['prefixes'] = [u'не', u'по', u'по-', u'пона', u'анти', u'на']
        if k == 'comp': u['prefixes'] = [u'анти-', u'на']
        if k in ('fname', 'patr'): u['letters'] = [u'А', u'Б', u'Н']
        return u
    a, b, d = unit(k1), unit(k2), unit('dict')
    return [[[d], [a, b]], [[a, b]], [[a, b], [d]], [[d], [a], [b]], [[a], [b], [d]], [[d, a, b]], [[d], [a, b], [unit('unkn')]], [[b, d, a]]][form]


def setup(b):
    """register the analyzers asked for; list of (an, Lex, weight)"""
    res = []
    if b.p.get('pairs'):
        def adjectives(t):      # every rule needs words it applies to
            r = b.reader(t['path'])
            return len([w for w, (p, i) in r.iter_words() if len(w) > 1 and {'ADJF', 'sing', 'datv'} <= set(r.paradigm(p)[i][1].replace(' ', ',').split(','))])
        t = max([t for t in b.p['toys'] if t.get('lang', 'ru') == 'ru' and 'subst' not in t], key=adjectives)
        if not adjectives(t): raise AssertionError('no dictionary with adjectives')
        for k1 in KINDS:
            for k2 in KINDS:
                for form in [0] + b.rng.sample(range(1, 8), b.p['pairs'] - 1):
                    x = Lex(b.reader(t['path']), b.rng, False)
                    x.pair = k1, k2
                    res.append((b.config(t['path'], True, units=pair_units(b.rng, k1, k2, form)), x, 1))
    for t in b.p.get('toys', []):
        kw = {}
        if 'subst' in t: kw['subst'] = t['subst']
        if t.get('units') == 'random': kw['units'] = random_units(random.Random(t['seed'] * 7 + 1))
        elif t.get('units') is not None: kw['units'] = t['units']
        if t.get('noprob'): kw['useprob'] = False
        lang = t.get('ulang', 'ru')
        a = b.config(t['path'], True, lang=lang, **kw)
        x = Lex(b.reader(t['path']), b.rng, False)
        x.own = [u for g in kw.get('units', ()) for u in g]
        x.subst = kw.get('subst')
        res.append((a, x, t.get('w', 1)))
    for v in b.p.get('real', []):
        kw = dict((k, v[k]) for k in ('subst', 'units') if k in v)
        if v.get('noprob'): kw['useprob'] = False
        a = b.config(RU_OLD if v.get('old') else RU_FAST, False, **kw)
        res.append((a, Lex(b.reader(RU_OLD if v.get('old') else RU_FAST), b.rng, True), v.get('w', 1)))
    return res


def words_for(b, an, x, real):
    p = b.p
    res = []
    if hasattr(x, 'pair'):
        for k in x.pair * 3:
            try: res.append(HITS[k](x, b.rng))
            except LookupError: pass
        return res
    if not real and p.get('alphabet'):
        res += exhaustive(p['alphabet'], p.get('maxlen', 3))
    if p.get('all_known') and not real:
        res += x.known
        res += [w.upper() for w in x.known[:30]]
    for lst in p.get('fixed', []):
        if isinstance(lst, list):
            if real: res += lst
            continue
        res += {'nums': NUMS, 'punct': PUNCT, 'latin': LATIN, 'roman': ROMAN,
                'letters': list(ABC + ABC.upper() + u'ІЇЄҐіїєґABZ'),
                'pairs': [u''.join(l['letters'])[i:i + 2] for l in (RU, UK) for i in range(40)] + [u'']}[lst]
    if 'prob' in p['themes'] and not real and x.r.prob:
        res += [u'не' + k for k in sorted(set(k.split(u':')[0] for k in x.r.prob.iterkeys())) if 2 < len(k) < 8][:24]
    if 'adverb' in p['themes'] and not real and p.get('all_short', 'own' in p['themes']):
        short = [v for v in x.known if len(v) <= 3]
        res += [u'по-' + v for v in b.rng.sample(short, min(len(short), 24))]
    n = p['n_real'] if real else p['n']
    for _ in range(n):
        t = b.rng.choice(p['themes'])
        try: w = THEMES[t](x, b.rng)
        except LookupError: continue
        if len(w) <= p.get('maxword', 40) or t == 'shape': res.append(w)
    return res


def parse(b):
    for an, x, weight in setup(b):
        for w in words_for(b, an, x, x.real):
            b.case(an, w)


def known(b):
    """membership; kwords are the lexicon words that may matter for Parse.is_known of the results"""
    for an, x, weight in setup(b):
        rep = x.r.words.compile_replaces(b.configs[an]['subst'])
        for w in words_for(b, an, x, x.real):
            c = b.case(an, w, op='known', spec_extra={'op': 'known', 'kwords': []})
            if c is None: continue
            # the results of parse() are spelled like the token, up to substitutions in either place
            low = c['low']
            sp = set([low])
            inv = dict((v, k) for k, v in b.configs[an]['subst'].items())
            kw = set()
            both = dict(b.configs[an]['subst'])
            cands = set([low])
            for i, ch in enumerate(low[:14]):
                alt = [both[ch]] if ch in both else []
                cands |= set(y[:i] + a + y[i + 1:] for y in cands for a in alt)
            for y in cands:
                kw |= set(x.r.words.similar_keys(y, rep))
            c['kwords'] = sorted(kw)


EXTRA_GR = ['UNKN', 'PNCT', 'LATN', 'ROMN', 'NUMB', 'intg', 'real', 'Init', 'Name', 'Patr']
def gram_ctx(b, r):
    b.extra_ctx['grammemes'] = [[g[0], g[1] or '', g[2] or '', ''] for g in r.grammemes]
    b.extra_ctx['extra_grammemes'] = EXTRA_GR


def lex(b):
    for an, x, weight in setup(b):
        gram_ctx(b, x.r)
        for w in words_for(b, an, x, x.real):
            deep = [b.rng.randrange(0, 200) for _ in range(b.p.get('deep', 2))]
            b.case(an, w, op='lex', spec_extra={'op': 'lex'}, deep=deep)

CATS = [['sing', 'plur'], ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'gen1', 'gen2', 'acc2', 'loc1', 'loc2'],
        ['masc', 'femn', 'neut'], ['NOUN', 'ADJF', 'ADJS', 'COMP', 'VERB', 'INFN', 'PRTF', 'PRTS', 'GRND'],
        ['1per', '2per', '3per'], ['past', 'pres', 'futr'], ['anim', 'inan'], ['perf', 'impf'], ['V-oy', 'V-ey'], ['Supr', 'Cmp2', 'Qual'],
        ['incl', 'excl'], ['impr', 'indc'], ['actv', 'pssv'], ['tran', 'intr'], ['Name', 'UNKN', 'LATN', 'Init', 'ms-f', 'GNdr', 'NMbr']]

def rand_req(rng):
    k = rng.randrange(12)
    if k == 0: return []
    if k == 1: return [rng.choice(['XXXX', 'foo', '', 'СУЩ', 'sing,nomn', 'Sing'])] + ([rng.choice(CATS[0])] if rng.random() < 0.5 else [])
    cats = rng.sample(CATS[:5], rng.choice([1, 1, 2, 2, 3])) if k < 8 else rng.sample(CATS, rng.choice([1, 2, 3]))
    if k == 9: return rng.sample(CATS[1], 2)
    if k == 10: return ['plur', rng.choice(CATS[2])]
    return [rng.choice(c) for c in cats]

def infl(b):
    for an, x, weight in setup(b):
        gram_ctx(b, x.r)
        for w in words_for(b, an, x, x.real):
            rng = b.rng
            req = [rand_req(rng) for _ in range(b.p.get('nreq', 6))]
            nums = b.p.get('numbers') and [rng.choice(b.p['numbers']) if rng.random() < 0.7 else rng.choice([
                rng.randrange(0, 130), rng.randrange(0, 10 ** 6), rng.randrange(0, 10 ** 30)]) for _ in range(b.p.get('nnum', 3))] or []
            b.case(an, w, op='infl', spec_extra={'op': 'infl', 'req': req, 'nums': [[n % 10, n % 100] for n in nums]},
                   req=req, nums=[str(n) for n in nums])


def iterwords(b):
    for an, x, weight in setup(b):
        rng = b.rng
        pre = [u'', u'а', u'б', u'е', u'ё', u'по', u'щщщ', u'-', u'A', u'А', u'Е', u'Ё', u'аБ', u'х' * 40]
        if not x.real:
            pre += sorted(set(w[:k] for w in x.known for k in (1, 2, 3))) + x.known[:20] + [w.upper()[:2] for w in x.known[:10]] + [w[:3].title() for w in x.known[10:20]]
        else:
            pre = [x.word()[:rng.choice([6, 7, 8, 9, 10])] for _ in range(b.p['n_real'])] + [u'ящерк', u'ёжи', u'ъ', u'щщщ'] + [x.word()[:7].upper() for _ in range(3)] + [x.word()[:7].title() for _ in range(3)] + b.p.get('literal', [])
        for p in pre:
            if x.real and not (p in (u'ъ', u'щщщ')) and len(p) < 3: continue
            c = b.case(an, p, op='iter')
            if c is None: continue
            words = {}
            for w, (para, idx) in x.r.words.iteritems(p):
                if not w.startswith(p): continue
                words.setdefault(w, []).append([b.tables.para(x.r, para), idx + 1])
            c.pop('d', None); c['di'] = 0
            c['words'] = words; c['op'] = 'iter'
