# -*- coding: utf-8 -*-
"""Calls on tags of the implementation.  usage: drive_tags.py JOBS.json OUT SHARD NSHARDS
One analyzer per process: shard i runs job i."""
import copy, io, json, os, pickle, sys, warnings
warnings.simplefilter('ignore')
import pymorphy2
from pymorphy2 import units as U
assert pymorphy2.__file__.startswith('/repo/'), pymorphy2.__file__


def call(Tag, tag, a):
    o = a['o']
    r = {}
    if o == 'in': r['b'] = bool(a['g'] in tag)
    elif o == 'inset': r['b'] = bool((frozenset if a['f'] else set)(a['q']) in tag)
    elif o == 'attr':
        v = getattr(tag, a['c'])
        r['none'] = v is None
        r['s'] = u'' if v is None else u'' + v
    elif o == 'cmp': r['b'] = bool(getattr(tag, a['c']) == a['g'])
    elif o == 'ncmp': r['b'] = bool(getattr(tag, a['c']) != a['g'])
    elif o == 'cmpnone': r['b'] = bool(getattr(tag, a['c']) == None)
    elif o == 'attrset': r['b'] = bool(getattr(tag, a['c']) in set(a['q']))
    elif o == 'pair':
        t = Tag(a['t'])
        r = {'eq': bool(tag == t), 'ne': bool(tag != t), 'lt': bool(tag < t), 'gt': bool(tag > t), 'hash': hash(tag) == hash(t),
             'rlt': bool(t < tag), 'rgt': bool(t > tag)}
    elif o == 'triple':
        t, u = Tag(a['t']), Tag(a['u'])
        r = {'ab': bool(tag < t), 'bc': bool(t < u), 'ac': bool(tag < u)}
    elif o == 'str': r['s'] = str(tag)
    elif o == 'grammemes': r['q'] = sorted(tag.grammemes)
    elif o == 'pickle':
        ts = [pickle.loads(pickle.dumps(tag, p)) for p in range(pickle.HIGHEST_PROTOCOL + 1)] + [copy.copy(tag), copy.deepcopy(tag)]
        r = {'b': all(t == tag and hash(t) == hash(tag) and type(t) is type(tag) and t.grammemes == tag.grammemes for t in ts), 's': str(ts[-3])}
        if any(str(t) != str(ts[0]) for t in ts): r['s'] = 'different'
    elif o == 'new': Tag(a['s'])
    elif o == 'cyr_repr': r['s'] = tag.cyr_repr
    elif o == 'grammemes_cyr': r['q'] = sorted(tag.grammemes_cyr)
    elif o == 'lat2cyr': r['s'] = MORPH.lat2cyr(a['s'])
    elif o == 'cyr2lat': r['s'] = MORPH.cyr2lat(a['s'])
    elif o == 'roundtrip': r['s'] = Tag.cyr2lat(MORPH.lat2cyr(Tag(a['s']) if len(a['s']) % 2 else a['s']))
    return r


def main():
    global MORPH
    job = json.load(io.open(sys.argv[1], encoding='utf8'))[int(sys.argv[3])]
    try:
        MORPH = pymorphy2.MorphAnalyzer(job['path'], units=[U.DictionaryAnalyzer()] if job['units'] == 'dict' else None)
        Tag = MORPH.TagClass
    except Exception as e:                  # every history of this analyzer failed
        def Tag(s, msg='%s: %s' % (type(e).__name__, e)):
            raise RuntimeError(msg)
    with io.open(sys.argv[2], 'w', encoding='utf8') as out:
        for c in job['ops']:
            obs = {'exc': '', 'calls': []}
            try:
                tag = Tag(c['s'])
            except Exception as e:
                obs['exc'] = type(e).__name__
            else:
                for a in c['ops']:
                    try:
                        r = call(Tag, tag, a)
                        r['exc'] = ''
                    except Exception as e:
                        r = {'exc': type(e).__name__}
                    obs['calls'].append(r)
            out.write(json.dumps({'id': c['id'], 'obs': obs}, ensure_ascii=False) + u'\n')

if __name__ == '__main__':
    main()
