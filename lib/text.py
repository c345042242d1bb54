"""Tokenizer and capitalization checks."""
import json, itertools
from vp import *
from an import validate_all


def text_check(ck, module, cases, clauses, describe):
    jf = ck.work('text_%s.ndjson' % module)
    with open(jf, 'w', encoding='utf8') as f:
        for c in cases: f.write(json.dumps(c, ensure_ascii=False) + '\n')
    obs = drive(ck.work, jf, jf + '.out', interp=SLOW, script='drive_text.py', shards=4)
    for c in cases:
        o = obs[c['id']]
        for k in ('cls', 'm', 'odd'):
            if k in o: c[k] = o.pop(k)
        c['obs'] = o
    r = validate_all(ck.work, module, {}, cases, procs=1 if len(cases) < 3000 else 4)
    ck.add_tlc(r)
    ck.validated += len(cases)
    for c in cases[::max(1, len(cases) // 4)][:4]: ck.sample({'input': [c['w'][:60], c.get('ex', '')], 'output': c['obs']})
    ck.judge(cases, r, clauses, describe)


def codepoints(rng, n):
    """every code point (n None) or those below U+3100 and n others"""
    allcp = [c for c in range(0x110000) if not 0xD800 <= c < 0xE000]
    if n is None: return allcp
    return [c for c in allcp if c < 0x3100 and not (0x400 > c > 0x300)] + sorted(rng.sample(allcp[0x3100:], n))


# Whether these are white space differs between the standard predicates of one
# Python (isspace, strip, split, \\s) and between Pythons: left open.
OPEN_SPACE = set('\x1c\x1d\x1e\x1f\u180e')


def tokenizer(ck, maxlen, n, ncp):
    rng = __import__('random').Random(SEED)
    ts = [''.join(x) for k in range(maxlen + 1) for x in itertools.product('а1_-+. \n', repeat=k)]
    cps = [c for c in codepoints(rng, ncp) if chr(c) not in OPEN_SPACE]
    for i in range(0, len(cps), 40):
        part = cps[i:i + 40]
        ts.append(''.join('а%c' % c for c in part))
        ts.append(''.join('-%c%c' % (c, c) for c in part))
    words = ['слово', 'кое-где', 'a_b', "don't", '3.14', '+7', '...', '—', '«', '»', '\u00a0', '\u200b', '\t', '\r\n', '\u2028', 'e\u0301', 'x+y', '-', '--', '_', '+', '№', '½', 'Ⅷ',
             '\x0b', '\x85', '\u3000', 'ё', '🙂', '𝔸', '²', '१२', 'ﬁ', '\ufeff', '\x00']
    for _ in range(n): ts.append(rng.choice(['', ' ']).join(rng.choice(words) for _ in range(rng.randrange(1, 30))))
    ts = list(dict.fromkeys(ts))
    text_check(ck, 'TokTrace', [{'id': i + 1, 'op': 'tok', 'w': t} for i, t in enumerate(ts)], None, lambda c, cl: 'text %r [%s]' % (c['w'], ','.join(cl)))


def capitalization(ck, maxlen, n, ncp):
    rng = __import__('random').Random(SEED)
    ps = []
    strs = [''.join(x) for k in range(maxlen + 1) for x in itertools.product('бБ-1', repeat=k)]
    ps += [(a, b) for a in strs for b in strs if len(a) + len(b) <= maxlen + 3]
    exs = ['ж', 'Ж', 'ЖЖ', 'Жж', 'жЖ', 'Ж-ж', 'ж-Ж', '1', 'Жж-жж-ЖЖ']
    cps = [c for c in codepoints(rng, ncp) if chr(c) not in 'Σ\u0345']
    import unicodedata
    cased = [c for c in range(0x20000) if not 0xD800 <= c < 0xE000 and (chr(c).lower() != chr(c) or chr(c).upper() != chr(c)) and chr(c) not in 'Σς\u0345']
    for c in (cased if ncp is None else rng.sample(cased, min(len(cased), ncp))) + rng.sample(cps, min(len(cps), 300)):
        ch = chr(c)
        w = rng.choice([ch, ch + 'б', 'б' + ch, ch + ch, 'б-' + ch, '1' + ch])
        ps.append((w, rng.choice(exs)))
        ps.append(('слово-Дело', w))
        ps.append((w, w))
    words = ['слово', 'СЛОВО', 'Слово', 'сЛово', 'аб', 'А', 'я', '', '1', "д'артаньян", "Д'Артаньян", 'ёж', 'McDonald', 'IEEE', 'straße', 'Ǆ', 'ǅ', 'ﬁ', '12а', 'A1b', 'İ']
    for _ in range(n):
        mk = lambda: '-'.join(rng.choice(words) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
        a = mk()
        ps.append((a, rng.choice([mk(), mk(), a, a.upper(), a.title()])))
    ps = list(dict.fromkeys(ps))
    text_check(ck, 'CaseTrace', [{'id': i + 1, 'op': 'case', 'w': a, 'ex': b} for i, (a, b) in enumerate(ps)], None,
               lambda c, cl: 'restore_capitalization(%r, %r) [%s]' % (c['w'], c['ex'], ','.join(cl)))
