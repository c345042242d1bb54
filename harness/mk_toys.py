# -*- coding: utf-8 -*-
"""Write toy lexicons.  usage: mk_toys.py SPECS.json OUTDIR
spec: {name, seed, n, alphabet, options, prob, templates:[names]}; writes NAME.xml, NAME.lex.json and jobs.json"""
import io, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import toys

DEFAULT = dict(paradigm_prefixes=["", u"по", u"наи"], min_paradigm_popularity=1, min_ending_freq=1)

def main():
    specs, out = json.load(io.open(sys.argv[1], encoding='utf8')), sys.argv[2]
    jobs = []
    for s in specs:
        rng = random.Random(s['seed'])
        lex = s.get('lexemes') or toys.random_lexicon(rng, s.get('n', 14), s.get('alphabet', u'абенё'), stems=s.get('stems'),
                                                   templates=s.get('templates') if s.get('templates') in (None, 'rich') else [toys.TEMPLATES[k] for k in s['templates']])
        xml = os.path.join(out, s['name'] + '.xml')
        toys.write_xml(xml, lex, s.get('links', ()), gram=s.get('grammemes'))
        o = dict(DEFAULT); o.update(s.get('options', {}))
        jobs.append(dict(xml=xml, out=os.path.join(out, s['name']), options=o, prob=s.get('prob'), seed=s['seed'], lang=s.get('lang', 'ru')))
    with io.open(os.path.join(out, 'jobs.json'), 'w', encoding='utf8') as f:
        f.write(json.dumps(jobs, ensure_ascii=False))

if __name__ == '__main__':
    main()
