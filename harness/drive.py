# -*- coding: utf-8 -*-
"""Runs the implementation (imported from /repo) on a job and records what it
returned.  Only public API is used.

usage: drive.py JOB OUT [SHARD NSHARDS]
JOB: {"analyzers": [{...}], "ops": [...]} per line after the first (ndjson)."""
from __future__ import print_function
import io, json, os, random, signal, sys, warnings
warnings.simplefilter('ignore')
ONE = 10000000


def make_units(groups, lang):
    from pymorphy2 import units as U
    from configs import lang_data
    L = lang_data(lang)
    def one(u):
        if not isinstance(u, dict):
            u = {'k': u}
        k = u['k']
        kw = {}
        def mul(default):
            if 'mul' in u: kw['score_multiplier'] = u['mul'][0] / float(u['mul'][1])
        if k == 'dict': return U.DictionaryAnalyzer()
        if k in ('fname', 'patr'):
            if 'score' in u: kw['score'] = u['score']
            cls = U.AbbreviatedFirstNameAnalyzer if k == 'fname' else U.AbbreviatedPatronymicAnalyzer
            return cls(u.get('letters', ''.join(L['letters'])), **kw)
        if k in ('number', 'punct', 'roman', 'latin'):
            if 'score' in u: kw['score'] = u['score']
            return {'number': U.NumberAnalyzer, 'punct': U.PunctuationAnalyzer,
                    'roman': U.RomanNumberAnalyzer, 'latin': U.LatinAnalyzer}[k](**kw)
        if k == 'part':
            mul(0); return U.HyphenSeparatedParticleAnalyzer(u.get('particles', L['particles']), **kw)
        if k == 'adverb':
            if 'score' in u: kw['score_multiplier'] = u['score']
            return U.HyphenAdverbAnalyzer(**kw)
        if k == 'comp':
            mul(0); return U.HyphenatedWordsAnalyzer(u.get('prefixes', L['prefixes']), **kw)
        if k == 'kpref':
            mul(0)
            if 'minrem' in u: kw['min_remainder_length'] = u['minrem']
            return U.KnownPrefixAnalyzer(u.get('prefixes', L['prefixes']), **kw)
        if k == 'upref':
            mul(0); return U.UnknownPrefixAnalyzer(**kw)
        if k == 'suf':
            mul(0)
            if 'minlen' in u: kw['min_word_length'] = u['minlen']
            return U.KnownSuffixAnalyzer(**kw)
        if k == 'unkn': return U.UnknAnalyzer()
        raise ValueError(k)
    # groups may be lists or tuples; a group of one unit may be given with or without brackets; the list may be a tuple
    rng = random.Random(json.dumps(groups, sort_keys=True))
    res = []
    for g in groups:
        us = [one(u) for u in g]
        form = rng.choice([list, tuple])
        res.append(us[0] if len(g) == 1 and rng.random() < .6 else form(us))
    return rng.choice([list, list, tuple])(res)


def make_analyzer(a):
    import pymorphy2
    kw = {}
    if a.get('path'): kw['path'] = a['path']
    if a.get('lang'): kw['lang'] = a['lang']
    if a.get('units') is not None: kw['units'] = make_units(a['units'], a.get('unitlang', 'ru'))
    if 'subst' in a: kw['char_substitutes'] = a['subst']
    if a.get('noprob'): kw['probability_estimator_cls'] = None
    if a.get('plain'): kw['result_type'] = None
    return pymorphy2.MorphAnalyzer(**kw)


def micro(x):
    if x != x or x in (float('inf'), float('-inf')) or abs(x) > 100: return -1
    return int(round(x * ONE))

def p4(p):
    return [p[0], str(p[1]), p[2], micro(p[3])]

def f3(p):
    return [p[0], str(p[1]), p[2]]


class TookTooLong(Exception):
    pass

def _alarm(sig, frame):
    raise TookTooLong('no answer in %d s' % LIMIT)

LIMIT = 60

def guarded(f):
    signal.alarm(LIMIT)
    try:
        return f(), ''
    except Exception as e:          # recorded, judged by the specification
        return None, '%s: %s' % (type(e).__name__, str(e)[:100])
    finally:
        signal.alarm(0)


def op_parse(morph, c):
    def go():
        return ([p4(p) for p in morph.parse(c['w'])], [str(t) for t in morph.tag(c['w'])],
                list(morph.normal_forms(c['w'])))
    r, exc = guarded(go)
    if exc: return {'parse': [], 'tag': [], 'nfs': [], 'exc': exc}
    return {'parse': r[0], 'tag': r[1], 'nfs': r[2], 'exc': ''}


def op_lex(morph, c):
    """parse + for (a sample of) parses: normalized, lexeme, lexemes of lexeme forms"""
    deep = c.get('deep', [])
    def go():
        ps = morph.parse(c['w'])
        res = []
        for i, p in enumerate(ps):
            lex = p.lexeme
            item = {'norm': f3(p.normalized), 'norm2': f3(p.normalized.normalized),
                    'lex': [f3(f) for f in lex], 'lex2': [f3(f) for f in morph.get_lexeme(p)],
                    'known': bool(p.is_known), 'deep': []}
            for j in deep:
                f = lex[j % len(lex)]
                l2 = f.lexeme
                item['deep'].append({'j': j % len(lex) + 1, 'same': [x[:2] for x in map(f3, l2)] == [x[:2] for x in item['lex']],
                                     'nfsame': all(x[2] == f[2] for x in l2),
                                     'n': len(l2), 'norm': f3(f.normalized)})
            res.append(item)
        return [p4(p) for p in ps], res
    r, exc = guarded(go)
    if exc: return {'parse': [], 'items': [], 'exc': exc}
    return {'parse': r[0], 'items': r[1], 'exc': ''}


def op_infl(morph, c):
    """inflect every parse of a word by every given grammeme set / number"""
    def go():
        ps = morph.parse(c['w'])
        res = []
        for p in ps:
            item = {'lex': [f3(f) for f in p.lexeme], 'infl': [], 'num': []}
            for G in c['req']:
                f, e = guarded(lambda: p.inflect(set(G)))
                item['infl'].append({'none': f is None, 'form': f3(f) if f is not None else ['', '', ''],
                                     'exc': e.split(':')[0]})
            for n in c['nums']:
                n = int(n)
                g, e1 = guarded(lambda: sorted(p.tag.numeral_agreement_grammemes(n)))
                f, e2 = guarded(lambda: p.make_agree_with_number(n))
                item['num'].append({'gr': g if g is not None else [], 'none': f is None,
                                    'form': f3(f) if f is not None else ['', '', ''], 'exc': e1 or e2})
            res.append(item)
        return [p4(p) for p in ps], res
    r, exc = guarded(go)
    if exc: return {'parse': [], 'items': [], 'exc': exc}
    return {'parse': r[0], 'items': r[1], 'exc': ''}


def op_known(morph, c):
    def go():
        return (bool(morph.word_is_known(c['w'])), bool(morph.word_is_known(c['w'], strict=True)),
                [[p[0], bool(p.is_known)] for p in morph.parse(c['w'])])
    r, exc = guarded(go)
    if exc: return {'known': False, 'strict': False, 'pk': [], 'exc': exc}
    return {'known': r[0], 'strict': r[1], 'pk': r[2], 'exc': ''}


def op_iter(morph, c):
    def go():
        import itertools
        res = []
        for p in itertools.islice(morph.iter_known_word_parses(c['w']), c.get('limit', 100000)):
            lex = [f3(f) for f in morph.get_lexeme(p)]
            same = [q for q in morph.parse(p[0]) if (q[0], str(q[1]), q[2]) == (p[0], str(p[1]), p[2])]
            ok = f3(p) in lex and (not c.get('dictfirst', True) or
                                   any([f3(f) for f in morph.get_lexeme(q)] == lex for q in same))
            res.append(p4(p) + [len(lex), ok])
        return res
    r, exc = guarded(go)
    return {'parses': r or [], 'exc': exc}


EMPTY = {'parse': {'parse': [], 'tag': [], 'nfs': []}, 'lex': {'parse': [], 'items': []}, 'infl': {'parse': [], 'items': []},
         'known': {'known': False, 'strict': False, 'pk': []}, 'iter': {'parses': []}}
OPS = {'parse': op_parse, 'lex': op_lex, 'infl': op_infl, 'known': op_known, 'iter': op_iter}


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    job, out = sys.argv[1], sys.argv[2]
    shard, n = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, 1)
    import pymorphy2
    assert pymorphy2.__file__.startswith('/repo/'), pymorphy2.__file__
    morphs = {}
    signal.signal(signal.SIGALRM, _alarm)
    with io.open(job, encoding='utf8') as f, io.open(out, 'w', encoding='utf8') as o:
        head = json.loads(f.readline())
        for i, line in enumerate(f):
            if i % n != shard: continue
            c = json.loads(line)
            a = c['an']
            op = c.get('op', 'parse')
            if a not in morphs:
                morphs[a] = guarded(lambda: make_analyzer(head['analyzers'][a]))
            morph, exc = morphs[a]
            r = OPS[op](morph, c) if not exc else dict(EMPTY[op], exc=exc)
            o.write(json.dumps({'id': c['id'], 'obs': r}, ensure_ascii=False) + u'\n')

if __name__ == '__main__':
    main()
