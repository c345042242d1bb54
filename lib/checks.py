"""The check of each property: what is generated, which specification judges
it and which clauses of its verdict belong to the property."""
from vp import *
from an import *
from comp import compile_check
from tags import tag_check, REAL_DICT, OLD_DICT

CHECKS = {}
def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco

def q(quick, thorough):
    return thorough if THOROUGH else quick

DIFF = {'missing', 'extra', 'duplicate', 'order', 'raised', 'empty'}
CORE = DIFF | {'score'}
# paradigm popularity/frequency thresholds that leave something to predict from
OPTS = [dict(), dict(min_paradigm_popularity=2, min_ending_freq=2), dict(max_suffix_length=3)]
REAL = [dict()]


# rules applied many times over
DEEP = ['не' * 10 + 'кот', 'аб' * 4 + 'нён-то-то', 'кот' + '-ка' * 9, 'анти' * 7 + 'ёж', 'наи' + 'не' * 14 + 'абён', 'экс-' * 8 + 'по-бему-то', 'не' * 20 + 'ъ', 'а' + '-то' * 14]
# the same, far beyond: words for which each layer of rules is one more nested call (see known_findings.jsonl)
PROBES = [('не', 3000, 'кот'), ('-ка', -3000, 'кот'), ('небез', 60, 'кот')]


def start_probes():
    import subprocess
    h = lambda x: x.encode('utf8').hex()
    return [(b, n, t, call, subprocess.Popen([SLOW, os.path.join(VERIF, 'harness/probe_deep.py'), h(b), str(n), h(t), call],
                                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1')))
            for b, n, t in PROBES for call in ('parse', 'tag')]


def judge_probes(ck, probes):
    """the property asks for a non-empty answer, whatever the word; the specification has nothing else to say about these"""
    import subprocess
    for b, n, t, call, p in probes:
        try:
            out = p.communicate(timeout=20)[0].decode().split('\n')
        except subprocess.TimeoutExpired:
            p.kill()
            out = [p.communicate()[0].decode().split('\n')[0], 'no answer']
        if out[0] != 'ready': raise Machinery('probe %r: %r' % ((b, n, t, call), out))
        got = out[1] or 'died'
        if not got.startswith('answer') or got == 'answer 0':
            name = '%r * %d + %r' % (b, n, t) if n > 0 else '%r + %r * %d' % (t, b, -n)
            ck.violation('real %s(%s) [%s]' % (call, name, got), {'call': call, 'word': name, 'outcome': got})


@check('C01')
def c01(ck):
    probes = start_probes()
    toys = [toy(i, options=OPTS[i % 3], prob=[None, 'missing', 'full'][i % 3]) for i in range(q(3, 6))] + [toy(90, lang='uk', ulang='uk', alphabet='абґг'), PREFIXLESS]
    analyzer_check(ck, 'gen_an.parse', dict(
        toys=toys, real=REAL, alphabet='аеё-б', maxlen=q(2, 4), fixed=['nums', 'punct', 'latin', 'roman', 'letters', DEEP],
        themes=['junk', 'junk', 'junk', 'shape', 'nested', 'pieces', 'near', 'oov', 'initial', 'compound', 'prob', 'prob', 'prob', 'prob', 'prob', 'dict', 'edge', 'edge'],
        n=q(150, 1500), n_real=q(300, 4000)), 'ParseTrace', {'raised', 'empty', 'emptytag', 'nfs', 'unkn'}, q(('fast',), ('fast', 'slow')))
    judge_probes(ck, probes)


@check('C02')
def c02(ck):
    toys = [toy(i, options=OPTS[i % 3], prob=[None, 'missing', 'full'][i % 3]) for i in range(q(3, 8))] \
        + [toy(50 + i, units='random', prob=[None, 'missing'][i % 2]) for i in range(q(3, 10))]
    analyzer_check(ck, 'gen_an.parse', dict(
        pairs=q(1, 4), toys=toys, real=REAL, alphabet='аеё-б', maxlen=q(1, 3), all_known=True,
        themes=['dict', 'near', 'oov', 'oov', 'pprefix', 'prefix', 'uprefix', 'particle', 'adverb', 'compound', 'initial', 'shape', 'nested', 'pieces'],
        n=q(150, 1500), n_real=q(300, 4000)), 'ParseTrace', {'tags', 'tagrank', 'tagspec', 'emptytag'})


@check('C03')
def c03(ck):
    toys = [toy(i, options=OPTS[i % 3], n=q(24, 40)) for i in range(q(3, 8))] + [toy(20 + i, units=[[{'k': 'dict'}]], n=20) for i in range(q(2, 5))]
    analyzer_check(ck, 'gen_an.parse', dict(
        toys=toys, real=REAL + [dict(units=[[{'k': 'dict'}]])], all_known=True, alphabet='абеё', maxlen=q(2, 4), fixed=[['кот\x00', 'кот\x01', 'кот\x02']],
        themes=['dict', 'dict', 'dict', 'near'], n=q(60, 500), n_real=q(300, 4000)), 'ParseTrace', CORE)


@check('C04')
def c04(ck):
    D = [[{'k': 'dict'}]]
    subs = ['auto', None, {}, {'е': 'ё', 'а': 'б'}, {'а': 'е', 'е': 'ё'}, {'н': 'п'}]
    toys = [toy(i, n=24, alphabet='аеёбнп', units=D if i % 2 == 0 else None, **({} if subs[i % 6] == 'auto' else {'subst': subs[i % 6]}))
            for i in range(q(6, 18))] + [toy(60, n=24, alphabet='агґб', lang='uk', ulang='uk')]
    toys += [toy(70, n=24, alphabet='аеёбнп', units=[[{'k': 'unkn'}]]), toy(71, n=24, alphabet='аеёбнп', units=[[{'k': 'upref'}, {'k': 'suf', 'minlen': 1}], [{'k': 'unkn'}]])]
    # words full of letters that have substitutes
    full = ['еёееёе', 'ебеёбёеёе', 'ёёёёё', 'енёнеёнеёне', 'аеаёабаёе', 'ееееёеееее', 'ёнёнёнёнён', 'еаёебеёаёб']
    toys += [toy(80 + i, n=16, alphabet='её', stems=full, units=D if i else None, **([{}, {'subst': subs[3]}, {'subst': subs[4]}][i])) for i in range(q(2, 3))]
    for t in toys:
        if t.get('units', 1) is None: del t['units']
    real = [dict(units=D), dict(units=D, subst=None)]
    P = dict(toys=toys, real=real, all_known=True, alphabet='аеёг', maxlen=q(3, 4), maxword=20,
             themes=['dict', 'subst', 'subst', 'near', 'near', 'oov'], n=q(80, 600), n_real=q(200, 3000))
    analyzer_check(ck, 'gen_an.parse', P, 'ParseTrace', CORE, tag='p')
    P2 = dict(P, real=REAL + [dict(subst=None), dict(subst={})])
    analyzer_check(ck, 'gen_an.known', P2, 'QueryTrace', {'raised', 'known', 'strict', 'isknown'}, tag='k')


LEXC = {'raised', 'lexempty', 'lexnf', 'lexapi', 'normlex', 'normidem', 'normnf', 'deep', 'deepnorm', 'lexspec', 'lexorder',
        'normspec', 'lexself', 'normword', 'normfirst'}

@check('C05')
def c05(ck):
    toys = [toy(i, n=q(18, 30), options=OPTS[i % 3]) for i in range(q(3, 8))] + [toy(40, units='random'), toy(41, lang='uk', ulang='uk', alphabet='абгґ')]
    analyzer_check(ck, 'gen_an.lex', dict(
        toys=toys, real=REAL, all_known=True, fixed=['letters'],
        themes=['dict', 'oov', 'oov', 'pprefix', 'prefix', 'uprefix', 'particle', 'adverb', 'compound', 'compound', 'initial', 'shape', 'nested', 'pieces'],
        n=q(60, 600), n_real=q(200, 2500), deep=q(2, 6)), 'LexTrace', LEXC)


@check('C06')
def c06(ck):
    toys = [toy(i, n=q(18, 30), options=OPTS[i % 3]) for i in range(q(3, 8))] + [toy(60 + i, templates='rich', n=q(14, 30)) for i in range(q(2, 6))]
    analyzer_check(ck, 'gen_an.infl', dict(
        toys=toys, real=REAL, themes=['dict', 'dict', 'dict', 'dict', 'oov', 'pprefix', 'prefix', 'particle', 'compound', 'initial', 'nested'],
        n=q(60, 500), n_real=q(160, 2000), nreq=q(10, 25)), 'LexTrace',
        {'infl_noerror', 'infl_raised', 'infl_notnone', 'infl_none', 'infl_choice', 'infl_grammemes', 'raised'})


@check('C07')
def c07(ck):
    toys = [toy(i, n=q(18, 30), options=OPTS[i % 3]) for i in range(q(2, 5))] + [toy(60 + i, templates='rich', n=q(14, 30)) for i in range(q(2, 6))]
    nums = list(range(0, 31)) + [100, 101, 102, 104, 105, 110, 111, 112, 113, 114, 115, 119, 120, 121, 122, 124, 125, 131, 200, 201, 211, 212, 221,
                                 1000, 1001, 1011, 1014, 10 ** 20 + 1, 10 ** 20 + 11, 10 ** 20 + 12, 10 ** 20 + 22]
    analyzer_check(ck, 'gen_an.infl', dict(
        toys=toys, real=REAL, themes=['dict', 'dict', 'dict', 'oov', 'prefix', 'particle', 'compound', 'initial', 'shape'],
        n=q(60, 500), n_real=q(150, 2000), nreq=0, numbers=nums, nnum=q(14, 40)), 'LexTrace',
        {'num_raised', 'num_grammemes', 'num_form', 'raised'})


# words some analyses of which go with no prefix; only these have P(t|w)
PREFIXLESS = toy(32, n=18, templates=[0, 12, 3, 11, 12, 2], stems=['абб', 'нён', 'обен', 'бенб'], prob='full')
ALLT = ['edge', 'dict', 'near', 'oov', 'oov', 'pprefix', 'prefix', 'uprefix', 'particle', 'adverb', 'compound', 'initial', 'shape', 'nested', 'pieces']

@check('C08')
def c08(ck):
    toys = [toy(i, n=20, options=OPTS[i % 3], prob=['missing', 'full', None][i % 3]) for i in range(q(4, 9))] \
        + [toy(30, n=20, prob='full', noprob=True), toy(31, n=20, prob='missing', units='random'),
           PREFIXLESS]
    analyzer_check(ck, 'gen_an.parse', dict(
        toys=toys, real=REAL + [dict(noprob=True)], all_known=True, themes=ALLT + ['dict', 'dict'] + ['prob'] * 8,
        n=q(110, 900), n_real=q(200, 3000)), 'ParseTrace', CORE | {'range', 'ranked', 'sum'})


@check('C09')
def c09(ck):
    toys = [toy(i, n=16, alphabet='абенё', options=OPTS[i % 3], units='random') for i in range(q(10, 40))] + [toy(99)]
    # two units of one class that differ in their words only
    P, C, D, U = ('kpref', 'comp', [{'k': 'dict'}], [{'k': 'unkn'}])
    two = [[D, [{'k': P, 'prefixes': ['не', 'аб'], 'minrem': 1}], [{'k': P, 'prefixes': ['бе', 'а', 'е'], 'minrem': 1}], U],
           [D, [{'k': C, 'prefixes': ['а']}], [{'k': C, 'prefixes': ['б', 'не']}], U],
           [D, [{'k': 'part', 'particles': ['-то']}, {'k': 'part', 'particles': ['-а', '-б', '-то']}], [{'k': 'fname', 'letters': ['А', 'Б']}, {'k': 'fname', 'letters': ['Б', 'Н']}], U],
           [[{'k': 'suf', 'minlen': 4}], [{'k': P, 'prefixes': ['б', 'бе', 'н'], 'minrem': 2}, {'k': 'suf', 'minlen': 2}], [{'k': P, 'prefixes': ['а', 'ен'], 'minrem': 2}], D, D, U]]
    toys += [toy(200 + i, n=16, alphabet='абенё', units=two[i % 4]) for i in range(q(4, 12))] + [toy(220, n=8, units=[])]
    analyzer_check(ck, 'gen_an.parse', dict(
        pairs=q(2, 8), toys=toys, real=REAL, themes=ALLT + ['shape', 'initial', 'own', 'own', 'own', 'own', 'own'], n=q(70, 300), n_real=q(150, 2000)), 'ParseTrace', CORE)


@check('C10')
def c10(ck):
    K = [[{'k': 'dict'}], [{'k': 'kpref', 'prefixes': ['а', 'аб', 'абе', 'не', 'б'], 'minrem': 2}], [{'k': 'upref'}], [{'k': 'suf', 'minlen': 2}, {'k': 'unkn'}]]
    toys = [toy(i, n=20, options=OPTS[i % 3]) for i in range(q(3, 6))] + [toy(10 + i, n=20, units=K) for i in range(q(2, 4))]
    analyzer_check(ck, 'gen_an.parse', dict(
        toys=toys, real=REAL, themes=['prefix', 'prefix', 'uprefix', 'uprefix', 'nested', 'own', 'edge'], alphabet='абе', maxlen=q(4, 6),
        n=q(80, 800), n_real=q(250, 3500)), 'ParseTrace', CORE)


@check('C11')
def c11(ck):
    S = [[{'k': 'suf', 'minlen': 1}], [{'k': 'unkn'}]]
    toys = [toy(i, n=24, options=[dict(), dict(min_paradigm_popularity=2, min_ending_freq=2), dict(max_suffix_length=3), dict(max_suffix_length=7), dict(paradigm_prefixes=['', 'по', 'наи', 'на'])][i % 5])
            for i in range(q(5, 10))] + [toy(10 + i, n=24, units=S, subst={'е': 'ё'} if i % 2 else None) for i in range(q(3, 6))]
    toys += [toy(20 + i, n=24, units=S, options=dict(max_suffix_length=7 + i), stems=[p + t for p in ('', 'а', 'бе', 'наб') for t in ('ебанен', 'бебанен', 'нанен', 'ёнен')]) for i in range(q(1, 3))]
    many = ['по', '', 'наи', 'на', 'пра', 'б', 'а', 'аб', 'об', 'у', 'вы', 'ба', 'за']
    toys += [toy(40, n=24, units=S, options=dict(paradigm_prefixes=many))] + q([], [toy(41, n=24, options=dict(paradigm_prefixes=many[::-1])), toy(42, n=24, units=S, options=dict(paradigm_prefixes=['по', '', 'наи']))])
    analyzer_check(ck, 'gen_an.parse', dict(
        toys=toys, real=REAL + [dict(units=S)], themes=['oov', 'oov', 'pprefix', 'near', 'pieces'], alphabet='абеё', maxlen=q(3, 5),
        n=q(60, 800), n_real=q(200, 3000)), 'ParseTrace', CORE)


@check('C12')
def c12(ck):
    D = [{'k': 'dict'}]
    own = [[D, [{'k': 'part', 'particles': ['-а', 'о-а', '-о', 'б-о', '-бо']}], [{'k': 'adverb'}, {'k': 'unkn'}]],
           [D, [{'k': 'comp', 'prefixes': ['а-', 'бо', 'аа-']}, {'k': 'adverb'}], [{'k': 'part', 'particles': ['о-а', '-а', 'а-б', '-б']}, {'k': 'unkn'}]]]
    toys = [toy(i, n=24, options=OPTS[i % 3]) for i in range(q(4, 8))] + [toy(30 + i, n=24, alphabet='абон', units=own[i % 2]) for i in range(q(2, 6))] \
        + [toy(60, n=16, templates=[3, 20, 20, 11, 2], stems=['а', 'б', 'о', 'н', 'аб', 'п', 'но'])]
    analyzer_check(ck, 'gen_an.parse', dict(
        toys=toys, real=REAL, themes=['own', 'particle', 'adverb', 'compound', 'compound', 'nested', 'edge'], alphabet='а-бо', maxlen=q(3, 5),
        n=q(100, 1000), n_real=q(300, 3500)), 'ParseTrace', CORE)


@check('C13')
def c13(ck):
    toys = [toy(i, n=12) for i in range(q(1, 2))]
    analyzer_check(ck, 'gen_an.parse', dict(
        toys=toys, real=REAL, themes=['shape', 'shape', 'shape', 'junk', 'initial'], fixed=['nums', 'punct', 'latin', 'roman'], alphabet='1.,-e ', maxlen=q(4, 5),
        n=q(150, 2000), n_real=q(400, 4000), maxword=100000), 'ParseTrace', CORE | {'nfs'}, tag='p')
    analyzer_check(ck, 'gen_an.lex', dict(
        toys=toys, themes=['shape'], n=q(60, 300), n_real=0), 'LexTrace', LEXC, tag='l')


@check('C14')
def c14(ck):
    toys = [toy(0, n=16), toy(1, n=16, alphabet='абґ', lang='uk', ulang='uk')] + [toy(5 + i, n=16, units='random') for i in range(q(2, 6))]
    P = dict(toys=toys, real=REAL, fixed=['letters', 'pairs'], themes=['initial', 'initial', 'shape'], n=q(40, 200), n_real=q(100, 500))
    analyzer_check(ck, 'gen_an.parse', P, 'ParseTrace', CORE, tag='p')
    analyzer_check(ck, 'gen_an.lex', dict(P, deep=12), 'LexTrace', LEXC, tag='l')


@check('C32')
def c32(ck):
    toys = [toy(i, n=16) for i in range(q(3, 8))]
    P = dict(toys=toys, real=REAL, themes=['dict'], n=0, n_real=q(60, 600), literal=['кот\x01', 'котик\x00'])
    analyzer_check(ck, 'gen_an.iterwords', P, 'QueryTrace', {'raised', 'itermissing', 'iterextra', 'itercount', 'iterscore', 'iterself'}, tag='i', interps=('fast', 'slow'))
    analyzer_check(ck, 'gen_an.known', dict(P, n=60, all_known=True, themes=['dict', 'near', 'oov']), 'QueryTrace', {'raised', 'strict'}, tag='k')


ENTRIES = {'raised', 'lost', 'invented', 'lexeme', 'count'}

@check('C20')
def c20(ck):
    small = [[1, 'аб', 2, [""]], [2, 'аб', 2, [""]], [2, 'аб', 2, ["", "а", "б", "аб"]], [3, 'аб', 2, ["", "а"]]]
    if THOROUGH:
        small += [[3, 'аб', 2, ["", "а", "б"]], [2, 'аб', 3, ["", "а", "ба"]]]
    compile_check(ck, dict(kind='lexicon', n=q(300, 2500), small=small), ENTRIES | {'spelling'})


@check('C21')
def c21(ck):
    compile_check(ck, dict(kind='links', n=q(40, 400), graphs=q(
        [[2, 3, ['3', '7'], 600], [3, 3, ['3'], 800], [4, 5, ['3', '23'], 250], [5, 7, ['1', '8', '27'], 100]],
        [[2, 4, ['3', '7'], 5000], [3, 4, ['3'], 7000], [3, 3, ['3', '21'], 6000], [4, 6, ['3', '23'], 1500], [6, 9, ['1', '8', '27'], 800]])), ENTRIES)


@check('C22')
def c22(ck):
    compile_check(ck, dict(kind='tags', n=q(800, 8000)), {'raised', 'redundant', 'reordered', 'spelling', 'lost', 'invented'})


@check('C23')
def c23(ck):
    compile_check(ck, dict(kind='tables', n=q(250, 2500), pred=True), {'raised', 'predtables', 'predmissing', 'predextra', 'preddup'})


def small_grammemes():
    """a grammeme table without Init/Name/Patr and with other aliases"""
    import toys
    drop = {'Init', 'Name', 'Patr', 'Supr'}
    return [[g[0], g[1], (g[2] + 'ё' if i % 7 == 0 else g[2]), g[3]] for i, g in enumerate(toys.grammemes()) if g[0] not in drop]

def tag_groups(ck, n, **kw):
    sys.path.insert(0, HARN)
    t = mk_toys(ck.work, [toy(0, n=20), toy(1, n=14, grammemes=small_grammemes(), templates=[0, 1, 6, 7])])
    return [dict(path=REAL_DICT, units='default', n=n, **kw), dict(path=OLD_DICT, units='default', n=n // 4),
            dict(path=t[0]['path'], units='dict', n=n // 2), dict(path=t[1]['path'], units='default', n=n // 4)]


@check('C15')
def c15(ck):
    tag_check(ck, 'algebra', tag_groups(ck, q(900, 9000)), None)


@check('C16')
def c16(ck):
    tag_check(ck, 'translate', tag_groups(ck, q(1200, 2500), all=THOROUGH), None)


import hist, text

@check('C17')
def c17(ck):
    rng = hist.random.Random(SEED)
    la, lb, pa, pb = hist.standard(ck)
    calls, words = hist.std_calls(la, lb, rng)
    H = hist.Hist(ck, hist.std_configs(pa, pb), calls, words)
    H.references()
    # every history of a few events on the most different configurations, and random long ones
    hs = H.tlc_histories(depth=8, num=q(700, 8000), live=4, slots=3)
    hs += H.tlc_histories(depth=5, num=q(500, 4000), live=3, slots=2, kinds=('create', 'call', 'hold', 'later'), seed=1)
    hs += H.tlc_histories(depth=16, num=q(150, 2000), live=5, slots=4, seed=2)
    H.judge(hs)
    # one call at a time after every other call: all pairs
    nq = len(calls)
    pairs = [[['create', 1, 0], ['call', 1, a + 1], ['call', 1, b + 1], ['mutate', 1, a + 1], ['call', 1, a + 1]] for a in range(nq) for b in range(nq)
             if THOROUGH or (a * 7 + b) % 4 == SEED % 4]
    H.judge(pairs)
    # all histories create, create, [mutate], call; creation of any configuration after any
    nc = len(H.configs)
    trip = []
    for a in range(nc):
        for b in range(nc):
            evs = [['create', a + 1, 0], ['hold', 1, 2], ['hold', 1, 4], ['hold', 1, 14], ['create', b + 1, 0]]
            evs += [['later', 1, 0], ['later', 2, 0], ['later', 3, 0]] + [['call', 1, i + 1] for i in range(nq)] + [['call', 2, i + 1] for i in range(nq)]
            trip.append(evs)
    H.judge(trip)
    # dictionaries with other grammeme tables: the analyzer created last is not affected by the earlier ones
    O = hist.Hist(ck, hist.std_configs(pa, pb)[:3] + [dict(path=p) for p in hist.other_tables(ck, la)], calls, words, tag='o')
    O.references()
    hs = []
    for a in range(7):
        for b in range(7):
            if a < 3 and b < 3: continue
            hs.append([['create', a + 1, 0]] + [['call', 1, i + 1] for i in range(nq)] + [['hold', 1, 2]] + [['drop', 1, 0]] * (a % 2)
                      + [['create', b + 1, 0]] + [['call', 2, i + 1] for i in range(nq)])
            hs.append([['create', b + 1, 0], ['create', a + 1, 0], ['create', b + 1, 0]] + [['call', 3, i + 1] for i in range(nq)])
    O.judge(hs)
    # ... but the earlier ones are: the tag class is shared (known findings)
    calls2 = [['l2c', 'NOUN,masc sing'], ['c2l', 'СУЩ,мр']]
    O = hist.Hist(ck, [dict(path=pa), dict(path=hist.other_tables(ck, la)[0])], calls2, [], tag='o2')
    O.references()
    O.judge([[['create', 1, 0], ['create', 2, 0], ['call', 1, 1]], [['create', 1, 0], ['create', 2, 0], ['call', 1, 2]]], label='analyzer of a dictionary with other Cyrillic names created later')
    O = hist.Hist(ck, [dict(path=REAL_DICT), dict(path=OLD_DICT)], [['in', 'Саша', 'ms-f']], [], tag='o3')
    O.references()
    O.judge([[['create', 1, 0], ['create', 2, 0], ['call', 1, 1]]], label='analyzer of the older dictionary created later')
    # operations on one of several results that look alike, or on one of their forms
    lh, calls = hist.homonyms(rng, q(2, 4))
    t = toy(7, lexemes=lh, prob='missing')
    mk_toys(ck.work, [t])
    for tag, path, calls in [('h', t['path'], calls), ('hr', REAL_DICT, hist.object_calls(rng, hist.HOMONYMS[:q(2, 3)] + hist.real_words(q(2, 10), seed=3)))]:
        O = hist.Hist(ck, [dict(path=path)], calls, [], tag=tag)
        O.references()
        O.judge(hist.orders(rng, len(calls), q(4, 12)))
    # the installed dictionary: long random histories over many words
    d = dict(path=REAL_DICT)
    calls = hist.real_calls(rng, q(60, 400))
    R = hist.Hist(ck, [d, dict(d, units=[[{'k': 'dict'}]]), dict(d, plain=True, subst=None), dict(d, units=[['dict', 'fname'], ['kpref'], ['upref'], ['suf', 'unkn']])],
                  calls, [], tag='r')
    R.references()
    hs = []
    for i in range(q(8, 40)):
        h = [['create', i % 4 + 1, 0]]
        n = 1
        for k in range(q(250, 1500)):
            if n < 4 and rng.random() < .02:
                h.append(['create', rng.randrange(4) + 1, 0]); n += 1
            h.append(['mutate' if rng.random() < .03 else 'call', rng.randrange(n) + 1, rng.randrange(len(calls)) + 1])
        hs.append(h)
    R.judge(hs)


@check('C18')
def c18(ck):
    ck.add_tlc(tlc(ck.work, 'Registry', {}, cfg='Registry_good.cfg'))
    for d in ('nolock', 'forget', 'inplace'):
        r = tlc(ck.work, 'Registry', {}, cfg='Registry_%s.cfg' % d, expect_ok=False, tag=d)
        if 'Invariant NoLoss is violated' not in r.out: raise Machinery('Registry: design %s should lose grammemes' % d)
    rng = hist.random.Random(SEED)
    la, lb, pa, pb = hist.standard(ck)
    calls, words = hist.std_calls(la, lb, rng)
    rc = hist.race_calls(calls)
    mix = ['combo', rc[0][1][:10] + rc[1][1][:2] + rc[2][1][:2] + rc[3][1][:2]]
    rc = rc + [mix]
    M = S0 = len(rc)
    one, two = hist.single_calls(la, lb, rng)
    R = len(one)
    rc = rc + one + two
    H = hist.Hist(ck, hist.std_configs(pa, pb), rc, words)
    H.references()
    after = lambda n: [['call', i + 1, M] for i in range(n)]
    pre = [['create', 1, 0]]
    hs = []
    def some(xs, n):
        return xs if THOROUGH or len(xs) <= n else sorted(rng.sample(xs, n))
    # a thread constructs an analyzer, suspended at k; another one uses an analyzer meanwhile
    for c, n in ((1, 420), (2, 90), (6, 90), (8, 90)):
        ops = [['create', c], ['call', 1, M]]
        p = H.race_points(pre, ops, rng)
        hs += [pre + [['race', ops, [[k], []]]] + after(2) for k in some(p[0], n)]
        # the user is suspended at k while another thread constructs
        ops2 = [['call', 1, M], ['create', c]]
        p2 = H.race_points(pre, ops2, rng)
        hs += [pre + [['race', ops2, [[k], []]]] + after(2) for k in some(p2[0], n // 4)]
        # three switches
        for _ in range(q(n // 6, n * 4)):
            k, j = rng.choice(p[0]), rng.choice(p[1])
            hs.append(pre + [['race', ops, [[k, min(k + rng.randrange(1, 200), 10 ** 6)], [j]]]] + after(2))
    # two threads use the same, not yet used analyzer
    for a in range(M):
        ops = [['call', 1, a + 1], ['call', 1, rng.choice([a, rng.randrange(M)]) + 1]]
        p = H.race_points(pre, ops, rng)
        hs += [pre + [['race', ops, [[k], []]]] + after(1) for k in some(p[0], 60)]
        hs += [pre + [['race', ops, [[rng.choice(p[0])], [rng.choice(p[1])]]]] + after(1) for _ in range(q(15, 400))]
    # two single calls for the same rule, with different words or the same one; and for different rules
    for i in range(S0, S0 + R):
        p = H.race_points(pre, [['call', 1, i + 1], ['call', 1, S0 + R + i - S0 + 1]], rng, extra=2)
        for j in [i + R, i]:
            hs += [pre + [['race', [['call', 1, i + 1], ['call', 1, j + 1]], [[k], []]], ['call', 1, i + 1], ['call', 1, j + 1]] for k in some(p[0], 45 if '-' not in str(rc[i]) else 100)]
            hs += [pre + [['race', [['call', 1, i + 1], ['call', 1, j + 1]], [[rng.choice(p[0])], [rng.choice(p[1])]]], ['call', 1, i + 1]] for _ in range(q(5, 100))]
        for j in rng.sample(range(S0, S0 + R), q(3, 12)):
            hs += [pre + [['race', [['call', 1, i + 1], ['call', 1, j + 1]], [[k], []]], ['call', 1, i + 1]] for k in some(p[0], 9)]
    # two threads use two analyzers of one dictionary
    ops = [['call', 1, M], ['call', 2, M]]
    p = H.race_points(pre + [['create', 3, 0]], ops, rng)
    hs += [pre + [['create', 3, 0], ['race', ops, [[k], []]]] + after(2) for k in some(p[0], 60)]
    H.judge(hs, patience=.05)
    # two threads construct
    hs = []
    for a, b in ((1, 1), (1, 2), (8, 11)):
        ops = [['create', a], ['create', b]]
        p = H.race_points([], ops, rng)
        hs += [[['race', ops, [[k], []]]] + after(2) for k in some(p[0], 50)]
    H.judge(hs, patience=.05)


@check('C19')
def c19(ck):
    rng = hist.random.Random(SEED)
    la, lb, pa, pb = hist.standard(ck)
    calls, words = hist.std_calls(la, lb, rng)
    base = [c for c in calls if c[0] not in ('in', 'inset', 'gknown', 'newtag', 'l2c', 'c2l', 'infl', 'tagin', 'iter', 'upd')]
    calls = base + [['kind', words[0]]] + [['parse', w + '-' + v] for w, v in (('а', 'аб'), ('квз', words[0]))] + [['parse', 'квз' + words[0]], ['parse', 'абв'], ['tag', 'АБ']]
    cfgs = [dict(path=pa), dict(path=pa, plain=True), dict(path=pa, subst=None), dict(path=pa, noprob=True), dict(path=pa, subst={}), dict(path=pa, lang='uk'),
            dict(path=pb, own=['estimator']), dict(path=pa, own=['result']), dict(path=pa, own=['class']), dict(path=pa, lang='ru')]
    cfgs += hist.pickle_configs(rng, pa, pb, q(40, 300))
    H = hist.Hist(ck, cfgs, calls, words)
    H.references()
    nq, nc = len(calls), len(cfgs)
    every = lambda a: [['call', a, i + 1] for i in range(nq)]
    hs = []
    for c in range(nc):
        # every pickle protocol, and copies of copies
        p = rng.randrange(1, 7)
        hs.append([['create', c + 1, 0], ['copy', 1, p]] + every(2))
        hs.append([['create', c + 1, 0]] + every(1) + [['copy', 1, rng.randrange(1, 7)], ['copy', 2, rng.randrange(1, 7)], ['drop', 1, 0], ['drop', 2, 0]] + every(3))
    for c in range(10):
        for p in range(1, 7): hs.append([['create', c + 1, 0], ['copy', 1, p]] + every(2))
    # copies unpickled by a new interpreter
    for c in list(range(10)) + rng.sample(range(10, nc), q(22, nc - 10)):
        hs.append([['create', c + 1, 0], ['call', 1, 1], ['copyfresh', 1, rng.randrange(1, 7)]] + every(2))
    H.judge(hs)
    # random histories of copies, calls and drops
    H.judge(H.tlc_histories(depth=9, num=q(200, 3000), live=5, copies=6, kinds=('create', 'copy', 'drop', 'call')))
    # analyzers made of cloned units
    H.judge([[['create', c + 1, 0]] + every(1) for c in range(nc) if cfgs[c].get('unitobj')], configs=[dict(c, clone=True) for c in cfgs])
    # the installed dictionary, chosen by language or path
    R = hist.Hist(ck, [dict(), dict(lang='ru', plain=True), dict(path=REAL_DICT, subst=None), dict(path=OLD_DICT), dict(path=OLD_DICT, lang='ru')], hist.real_calls(rng, q(12, 60)) + [['meta']], tag='r')
    R.references()
    ev = lambda a: [['call', a, i + 1] for i in range(len(R.calls))]
    R.judge([[['create', c + 1, 0], [k, 1, p]] + ev(2) for c in range(5) for k, p in (('copy', 3), ('copyfresh', 5))])


@check('C28')
def c28(ck):
    text.tokenizer(ck, q(4, 6), q(300, 5000), q(1500, None))


@check('C29')
def c29(ck):
    text.capitalization(ck, q(3, 5), q(1500, 20000), q(500, None))


@check('C30')
def c30(ck):
    import itertools
    rng = hist.random.Random(SEED)
    la, lb, pa, pb = hist.standard(ck, q(20, 40))
    ws = [''.join(x) for n in range(q(4, 5)) for x in itertools.product('аеё-', repeat=n)]
    ws += hist.words_of(la) + hist.words_of(lb)
    ws += ['аб' + w for w in hist.words_of(lb)[:40]] + ['нена' + w for w in hist.words_of(lb)[:40]] + ['а-' + w for w in hist.words_of(lb)[:20]]
    ws += [w.upper() for w in hist.words_of(la)] + ['квз' + w for w in hist.words_of(la)] + ['не' + w for w in hist.words_of(lb)]
    tails = ['-то', 'ь', '\n', ' ', '', '-', '1', 'ё', '\ud7ff', '\U0001f600', 'é', '\uffff']
    ws += [rng.choice(ws) + rng.choice(tails) + rng.choice(ws + ['']) for _ in range(q(300, 4000))]
    ws += ['А', '12', '1.5', 'xvi', 'ok', '!?', 'квз', '' , '--']
    ws = list(dict.fromkeys(ws))
    def compare(cfgs, calls, tag, interps):
        H = hist.Hist(ck, cfgs, calls, tag=tag)
        H.session(FAST)
        nq, n = len(calls), 4
        hs = [[['create', c + 1, 0]] + [['call', 1, i + 1] for i in range(k, nq, n)] for c in range(len(cfgs)) for k in range(n)]
        for interp, plain in interps:
            H.judge(hs, interp=interp, tag='p%d' % plain, label='%s%s differs from C++ DAWG, Parse on' % ('C++ DAWG' if interp == FAST else 'Python DAWG', ['', ', tuples', ', own type'][plain]),
                     configs=[None, [dict(c, plain=True) for c in cfgs], [dict(c, own=['row']) for c in cfgs]][plain])
    both = [(SLOW, 0), (FAST, 1), (SLOW, 1), (FAST, 2)]
    D = [[{'k': 'dict'}]]
    calls = [['all', w] for w in ws] + [['walk', w, 200] for w in ['', 'а', 'аб', 'е', 'по', 'наи', 'ъ', '-']]
    compare([dict(path=pa), dict(path=pb), dict(path=pa, units=D), dict(path=pb, lang='uk'), dict(path=pa, noprob=True, subst=None),
             dict(path=pb, units=[['dict'], [{'k': 'kpref', 'prefixes': ['аб', 'а', 'нена', 'е', 'не', 'ене', 'аа'], 'minrem': 1}], ['upref'], ['suf', 'unkn']]),
             dict(path=pb, units=[[{'k': 'comp', 'prefixes': ['аба', 'а', 'е']}], [{'k': 'kpref', 'prefixes': ['нена', 'не', 'аба', 'на', 'аб', 'е'], 'minrem': 2}], ['suf', 'unkn']], noprob=True)], calls, 't', both)
    ws = hist.real_words(q(500, 6000))
    def variant(w):
        return rng.choice([lambda: w, lambda: w.upper(), lambda: w.title(), lambda: w.replace('ё', 'е'), lambda: rng.choice(['не', 'кваси', 'по-', 'экс', 'наи', 'зюк']) + w,
                           lambda: w + rng.choice(['-то', '-ка', 'ться', '1', '.']), lambda: w + '-' + rng.choice(ws), lambda: w[1:], lambda: w[::-1], lambda: w[:-1]])()
    calls = [['all', variant(w)] for w in ws] + [['walk', w[:4], 40] for w in ws[:q(20, 200)]] + [['all', x] for x in 'АБЁaxvIV12.-']
    compare([dict(path=REAL_DICT), dict(path=REAL_DICT, units=D)], calls, 'r', both)
    compare([dict(path=OLD_DICT)], calls[:q(100, 2000)], 'o', both)
    # characters that the C++ and the Python DAWG treat as the end of a key or as a separator
    odd = [['all', 'кот\x00'], ['all', 'кот\x01'], ['all', '\x00'], ['all', 'ко\x00т'], ['all', 'котто\x00'], ['walk', 'котик\x01', 5], ['walk', 'котик\x00', 5]]
    for o in odd: compare([dict(path=REAL_DICT)], [o], 'x%d' % odd.index(o), both[:1])


import sel

@check('C31')
def c31(ck):
    sel.selection_check(ck, dict(per=q(10, 60), n=q(60, 600), len=q(25, 60)))


import cli

@check('C27')
def c27(ck):
    cli.cli_check(ck, q(300, 4000), q(8, 60), q(30, 300))


import store

@check('C24')
def c24(ck):
    store.roundtrip_check(ck, q(60, 600), q(20, 100), q(4, 20))


@check('C25')
def c25(ck):
    store.crash_check(ck, q(5, 24), q(30, 200), q(60, 600))


@check('C33')
def c33(ck):
    store.est_check(ck, q(5, 20), q(30, 300), q(30, 200))


import prob

@check('C26')
def c26(ck):
    prob.prob_check(ck, q(6, 20), q(25, 200), q(6, 60))


DEFAULT_NOTE = ('TLA+ specification of the analyzer; TLC validates recorded executions',
                'TLC computes, from the TLA+ specification of the dictionary, the analysis units and the pipeline, the only allowed outcome of each '
                'recorded execution of the real code on toy dictionaries compiled with the code and on slices of the installed dictionary, and compares. '
                'Covers the inputs explored (enumerated over small alphabets plus generated); trusts the DAWG libraries, the dictionary reader of the harness and TLC.')
NOTES = {}
def note(ids, tech, text):
    for i in ids.split(): NOTES[i] = (tech, text)
note('C16', 'TLA+ specification of the tag set; TLC checks every observed tag operation against it',
     'Tagset.tla/TagTrace.tla define grammeme hierarchies, attributes, membership and translations; every tag of the installed dictionaries and generated tags and grammeme trees are '
     'checked by TLC against what the real tag class answers. Trusts the recorder and TLC.')
NOTES['C15'] = NOTES['C16']
note('C17', 'TLA+ history specification: TLC generates call/creation histories, they are replayed into the real code and the recorded answers validated by TLC',
     'HistGen.tla generates histories (create, call, copy, drop, mutate a result) exhaustively to a depth and by simulation; each is replayed in a fresh process and HistTrace.tla requires every answer to be the one '
     'a fresh analyzer gives (or a permitted unknown-grammeme difference). Bounded by the depth, the configurations and the call set explored.')
note('C18', 'TLA+ history specification with threads; controlled preemption of the real code at every line of the shared code, traces validated by TLC',
     'Schedules (preemption points inside analyzer construction, dictionary loading and calls) are enumerated and forced on the real threads; HistTrace.tla validates every answer against the sequential one. '
     'One preemption per schedule is enumerated exhaustively over traced lines, several are sampled. Context switches inside C code are not controlled.')
note('C19', 'TLA+ history specification with copies; pickled, unpickled (also in a new process) and cloned analyzers replayed, traces validated by TLC',
     'All configurations of the configuration space x all pickle protocols, histories of copies of copies generated by TLC; answers must equal those of the original.')
note('C20', 'TLA+ model of the compiler; TLC computes the compiled dictionary from the source lexicon and compares',
     'Compile.tla models lexeme joining, tag unification, paradigms and prediction tables step by step; generated lexicons (all small link graphs, random lexicons, all options) are compiled with the real code and '
     'CompileTrace.tla decides. Bounded by the lexicons generated.')
NOTES['C21'] = NOTES['C22'] = NOTES['C23'] = NOTES['C20']
note('C24', 'TLA+ specification of the stored format; recorded saves, loads and refusals validated by TLC',
     'FormatTrace.tla compares the compiled dictionary with what both DAWG backends load, decodes the paradigm file, decides which format versions are accepted, and what conversion does to existing folders.')
note('C25', 'TLA+ model of the conversion with crashes, model-checked by TLC; every folder state of real conversions recorded, loaded and validated by TLC',
     'Store.tla: crash at every step of writing (TLC shows the mixture when metadata is not removed first). StoreTrace.tla: the real conversion is snapshotted at every change of the folder (line tracing), with torn files, '
     'disk-full, size limits and leftovers; each state is loaded with both backends. Does not model reordering of writes by the file system (no fsync).')
note('C33', 'TLA+ model of adding P(t|w) with crashes, model-checked by TLC; every folder state of real estimations recorded, loaded and validated by TLC',
     'Estimate.tla: death at every step (TLC shows the dictionary that stops working when the metadata goes first). EstTrace.tla: real estimations snapshotted at every change of the folder, with torn files, disk-full, size limits, '
     'unreadable corpora and leftovers; each state is loaded with both backends and its answers compared. No reordering of writes by the file system; NLTK and opencorpora-tools are stand-ins.')
note('C26', 'TLA+ specification of P(t|w) estimation, occurrence by occurrence; tables built by the real code validated by TLC',
     'ProbTrace.tla counts the corpus and computes each table entry exactly; NLTK and opencorpora-tools are not installed and replaced by stand-ins with the documented behaviour, so differences in those packages are out of reach.')
note('C27', 'TLA+ specification of the command line (tokens, formatting, LRU cache); recorded runs validated by TLC',
     'Cli.tla model-checks the cache design; CliTrace.tla computes the output from the analyses of the tokens for every text/option/cache size and compares with what the real command printed.')
note('C28', 'TLA+ specification of tokenization; recorded outputs validated by TLC', 'TokTrace.tla consumes the text character by character; all short texts over an alphabet of character classes plus generated and all-BMP characters.')
note('C29', 'TLA+ specification of capitalization; recorded outputs validated by TLC', 'CaseTrace.tla restores part by part; all short pairs over an alphabet of cased/uncased characters plus random ones.')
note('C30', 'TLA+ history specification; answers of the other backend and result type validated by TLC against recorded sessions of the first',
     'Queries over enumerated strings, dictionary words and their variants on toy and real dictionaries; HistTrace.tla requires identical answers.')
note('C31', 'TLA+ specification of dictionary/language selection, model-checked exhaustively; recorded constructions validated by TLC',
     'Select.tla is a decision table over path, environment, language, installed dictionaries and other arguments; SelectMC checks its own properties over all combinations, SelectTrace replays combinations in the real code.')
