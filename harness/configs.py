# -*- coding: utf-8 -*-
"""Analyzer configurations, both as the specification sees them and as
constructor arguments for the implementation."""
import io, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ONE = 10000000

def lang_data(lang):
    with io.open(os.path.join(HERE, '..', 'spec', 'data', 'lang_%s.json' % lang), encoding='utf8') as f:
        return json.load(f)

def spec_unit(u, term, lang):
    """u: name or dict with parameters overriding the defaults"""
    if not isinstance(u, dict):
        u = {'k': u}
    L = lang_data(lang)
    k = u['k']
    r = {'k': k, 'term': term}
    if k in ('fname', 'patr'):
        r['letters'] = list(u.get('letters', L['letters'])); r['score'] = int(round(u.get('score', 0.1) * ONE))
    elif k in ('number', 'punct', 'roman', 'latin'):
        r['score'] = int(round(u.get('score', 0.9) * ONE))
    elif k == 'part':
        r['particles'] = u.get('particles', L['particles']); r['num'], r['den'] = u.get('mul', (9, 10))
    elif k == 'adverb':
        r['score'] = int(round(u.get('score', 0.7) * ONE))
    elif k in ('comp', 'kpref'):
        r['prefixes'] = u.get('prefixes', L['prefixes']); r['num'], r['den'] = u.get('mul', (3, 4))
        r['maxlen'] = max([len(x) for x in r['prefixes']] or [0])
        if k == 'kpref': r['minrem'] = u.get('minrem', 3)
    elif k == 'upref':
        r['num'], r['den'] = u.get('mul', (1, 2))
    elif k == 'suf':
        r['num'], r['den'] = u.get('mul', (1, 2)); r['minlen'] = u.get('minlen', 4)
    return r

def spec_units(groups, lang):
    res = []
    for g in groups:
        for i, u in enumerate(g):
            res.append(spec_unit(u, i == len(g) - 1, lang))
    return res

def spec_config(reader, lang='ru', units=None, subst='auto', useprob='auto'):
    L = lang_data(lang)
    return {'units': spec_units(L['units'] if units is None else units, lang), 'pp': reader.pp, 'maxsuf': reader.maxsuf,
            'subst': L['subst'] if subst == 'auto' else (subst or {}),
            'useprob': bool(reader.prob is not None) if useprob == 'auto' else bool(useprob)}
