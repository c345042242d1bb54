# -*- coding: utf-8 -*-
"""Convert XML lexicons with the implementation's converter.
usage: compile_toys.py JOBS.json
job: {xml, out, options, lang, overwrite, prob}; a failed job leaves OUT.err.
prob: {word: {tag: millionths}} is added to the compiled dictionary with the
dawg library directly."""
import json, io, sys, os, warnings
warnings.simplefilter('ignore')
import pymorphy2
assert pymorphy2.__file__.startswith('/repo/'), pymorphy2.__file__
from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
import contextlib


CLOSED = set(['NUMR', 'NPRO', 'PRED', 'PREP', 'CONJ', 'PRCL', 'INTJ', 'Apro'])

def add_prob(path, rng, mode):
    """random P(t|w) for some ambiguous words (millionths), incl. zeros and missing tags"""
    import dawg
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from slices import Reader
    r = Reader(path)
    keys = []
    for w in sorted(set(r.words.iterkeys())):
        if rng.random() > 0.6: continue
        tags = []
        for p, i in r.words[w]:
            t = r.paradigm(p)[i][1]
            if t not in tags: tags.append(t)
        key = w                         # words that are not in the dictionary may have P(t|w) too
        if rng.random() < .3: key = rng.choice([u'не' + w, w + u'-то', u'бё' + w, u'анти-' + w, w + u'-' + w])
        kind = rng.randrange(6)
        left = 1000000
        for k, t in enumerate(tags):
            if mode == 'missing' and rng.random() < 0.25: continue
            v = rng.choice([0, left // 2, left // 3, left // 5, 250000 if left > 250000 else 0])
            if kind == 0 and len(tags) > 1:     # nothing for the first analyses
                v = 0 if k == 0 else rng.choice([left // 2, left // 3])
            if kind == 1 and len(tags) > 1:     # equal probabilities
                v = 1000000 // (len(tags) + 1)
            if kind == 4: v = rng.choice([1, 2, 7, 40, 95, 0])       # tiny ones only
            if kind == 5 and rng.random() < .5: v = rng.choice([1, 50, 900, 0])
            left -= v
            if v == 0 and rng.random() < .5: continue
            keys.append((u'%s:%s' % (key, t), v))
    # words for which only analyses that no prefix goes with have a probability
    rng2, keys = __import__('random').Random(rng.random()), dict(keys)
    for w in sorted(set(r.words.iterkeys())):
        tags = set(r.paradigm(p)[i][1] for p, i in r.words[w])
        closed = set(t for t in tags if set(t.replace(u' ', u',').split(u',')) & CLOSED)
        if closed and closed != tags and rng2.random() < .6:
            for t in sorted(tags):
                keys.pop(u'%s:%s' % (w, t), None)
                if t in closed: keys[u'%s:%s' % (w, t)] = rng2.choice([1, 40, 500000])
    keys = sorted(keys.items())
    # words that are not in the dictionary may have P(t|w) too
    if keys: keys.append((u'бе-то:' + keys[0][0].split(u':')[1], 400000))
    d = dawg.IntCompletionDAWG(keys)
    d.save(os.path.join(path, 'p_t_given_w.intdawg'))
    fn = os.path.join(path, 'meta.json')
    meta = json.load(io.open(fn, encoding='utf8'))
    meta.append(['P(t|w)', True])
    with io.open(fn, 'w', encoding='utf8') as f:
        f.write(json.dumps(meta, ensure_ascii=False))


def main():
    import random
    jobs = json.load(io.open(sys.argv[1], encoding='utf8'))
    for j in jobs:
        try:
            with open(os.devnull, 'w') as dn:
                with contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
                    convert_to_pymorphy2(j['xml'], j['out'], source_name='toy', language_code=j.get('lang', 'ru'),
                                         overwrite=j.get('overwrite', False), compile_options=j['options'])
            if j.get('prob'):
                add_prob(j['out'], random.Random(j.get('seed', 1)), j['prob'])
        except Exception as e:
            io.open(j['out'] + '.err', 'w', encoding='utf8').write(u'%s: %s' % (type(e).__name__, e))

if __name__ == '__main__':
    main()
