# -*- coding: utf-8 -*-
"""Case generation (runs under the pure-python interpreter; never imports pymorphy2).
usage: mk.py GENERATOR PARAMS.json OUTDIR  ->  job.ndjson ctx.json cases.ndjson"""
from __future__ import print_function
import importlib, io, json, os, random, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from slices import Reader, Tables, full_view, token_view
from configs import spec_config, lang_data
from charcls import classes

RU_FAST = '/opt/venv/lib/pypy3.9/site-packages/pymorphy2_dicts_ru/data'
RU_OLD = '/opt/venv-slow/lib/pypy3.9/site-packages/pymorphy2_dicts/data'


class Build(object):
    def __init__(self, params, out):
        self.p, self.out = params, out
        self.rng = random.Random(params.get('seed', 1))
        self.tables = Tables()
        self.readers = {}
        self.configs, self.analyzers, self.meta = [], [], []
        self.dicts, self.dict_ix = [], {}
        self.cases, self.ops = [], []
        self.seen = set()
        self.extra_ctx = {}

    def reader(self, path):
        if path not in self.readers:
            self.readers[path] = Reader(path)
        return self.readers[path]

    def config(self, path, full, lang='ru', units=None, subst='auto', useprob='auto', explicit=True, **an):
        """register an analyzer; returns its index"""
        r = self.reader(path)
        c = spec_config(r, lang, units, subst, useprob)
        self.configs.append(c)
        a = dict(an)
        if explicit: a['path'] = path
        if units is not None: a['units'] = units; a['unitlang'] = lang
        if subst != 'auto': a['subst'] = subst
        if useprob is False and r.prob is not None: a['noprob'] = True
        self.analyzers.append(a)
        if full and path not in self.dict_ix:
            self.dicts.append(full_view(r, self.tables))
            self.dict_ix[path] = len(self.dicts)
        self.meta.append({'reader': r, 'di': self.dict_ix[path] if full else 0, 'path': path,
                          'std': units is None})
        return len(self.configs) - 1

    def case(self, an, w, op='parse', dedup=True, spec_extra=None, **job):
        if dedup:
            key = (an, w, op)
            if key in self.seen: return None
            self.seen.add(key)
        m = self.meta[an]
        low = w.lower()
        cid = len(self.cases) + 1
        c = {'id': cid, 'cfg': an + 1, 'di': m['di'], 'w': w, 'low': low, 'std': m['std'],
             'cls': classes(w + low)}
        if not m['di']:
            c['d'] = token_view(m['reader'], self.tables, low, self.configs[an]['subst'])
        c.update(spec_extra or {})
        self.cases.append(c)
        o = {'id': cid, 'an': an, 'w': w, 'op': op}
        o.update(job)
        self.ops.append(o)
        return c

    def save(self):
        def put(fn, rows):
            with io.open(os.path.join(self.out, fn), 'w', encoding='utf8', errors='surrogatepass') as f:
                for r in rows:
                    f.write(json.dumps(r, ensure_ascii=False) + u'\n')
        put('job.ndjson', [{'analyzers': self.analyzers}] + self.ops)
        put('cases.ndjson', self.cases)
        ctx = {'tags': self.tables.tags, 'paras': self.tables.paras, 'configs': self.configs, 'dicts': self.dicts}
        ctx.update(self.extra_ctx)
        put('ctx.json', [ctx])


def main():
    gen, params, out = sys.argv[1:4]
    with io.open(params, encoding='utf8') as f:
        p = json.load(f)
    b = Build(p, out)
    mod, fn = gen.split('.')
    getattr(importlib.import_module(mod), fn)(b)
    b.save()

if __name__ == '__main__':
    main()
