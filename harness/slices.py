# -*- coding: utf-8 -*-
"""Independent reader of compiled dictionaries (no pymorphy2 import).

Reads the files of a dictionary folder with its own code and the pure-python
``dawg_python`` library and cuts out the parts of it that matter for one token,
in the vocabulary of the specification (spec/Core.tla)."""
import array, io, json, os, struct
import dawg_python


class WordsDawg(dawg_python.RecordDAWG):
    def __init__(self, fmt):
        super(WordsDawg, self).__init__(str(fmt))


def read_json(fn):
    with io.open(fn, encoding='utf8') as f:
        return json.load(f)


class Reader(object):
    def __init__(self, path):
        self.path = path
        f = lambda p: os.path.join(path, p)
        meta = read_json(f('meta.json'))
        self.meta = dict(meta)
        self.grammemes = read_json(f('grammemes.json'))
        self.gramtab = read_json(f(self.meta['gramtab_formats']['opencorpora-int']))
        self.suffixes = read_json(f('suffixes.json'))
        opts = self.meta.get('compile_options')
        if opts:
            self.pp = opts['paradigm_prefixes']
            self.maxsuf = opts['max_suffix_length']
        else:
            self.pp = read_json(f('paradigm-prefixes.json'))
            self.maxsuf = self.meta['prediction_options']['max_suffix_length']
        self.paradigms = []
        with open(f('paradigms.array'), 'rb') as fp:
            data = fp.read()
        pos = 2
        for _ in range(struct.unpack('<H', data[:2])[0]):
            n, = struct.unpack('<H', data[pos:pos + 2])
            pos += 2
            self.paradigms.append(struct.unpack('<%dH' % n, data[pos:pos + 2 * n]))
            pos += 2 * n
        self.trailing = len(data) - pos
        self.words = WordsDawg('>HH').load(f('words.dawg'))
        self.pred = [WordsDawg('>HHH').load(f('prediction-suffixes-%d.dawg' % i))
                     for i in range(len(self.pp))]
        self.prob = None
        if self.meta.get('P(t|w)'):
            self.prob = dawg_python.IntCompletionDAWG().load(f('p_t_given_w.intdawg'))
        self.lang = self.meta.get('language_code')

    def paradigm(self, para_id):
        """list of (prefix, tag, suffix)"""
        p = self.paradigms[para_id]
        n = len(p) // 3
        return [(self.pp[p[2 * n + i]], self.gramtab[p[n + i]], self.suffixes[p[i]]) for i in range(n)]

    def probs(self, word):
        if self.prob is None:
            return {}
        res = {}
        pre = word + ':'
        for key in self.prob.keys(pre):
            res[key[len(pre):]] = self.prob.get(key)
        return res

    def iter_words(self, prefix=''):
        return self.words.iteritems(prefix)


class Tables(object):
    """Tag and paradigm tables shared by all cases of one run (1-based)."""
    def __init__(self):
        self.tags, self._tag_ix = [], {}
        self.paras, self._para_ix = [], {}
        for t in BUILTIN_TAGS:
            self.tag(t)

    def tag(self, s):
        if s not in self._tag_ix:
            self.tags.append({'s': s, 'g': s.replace(' ', ',', 1).split(',')})
            self._tag_ix[s] = len(self.tags)
        return self._tag_ix[s]

    def para(self, reader, para_id):
        key = (reader.path, para_id)
        if key not in self._para_ix:
            self.paras.append([[p, self.tag(t), s] for p, t, s in reader.paradigm(para_id)])
            self._para_ix[key] = len(self.paras)
        return self._para_ix[key]


def _init_tags():
    res = []
    for kind in ('Name', 'Patr'):
        for g in ('masc', 'femn'):
            for c in ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct'):
                res.append('NOUN,anim,%s,Sgtm,%s,Fixd,Abbr,Init sing,%s' % (g, kind, c))
    return res

BUILTIN_TAGS = ['UNKN', 'PNCT', 'LATN', 'ROMN', 'NUMB,intg', 'NUMB,real', 'ADVB'] + _init_tags()


def full_view(reader, tables):
    """The whole (small) dictionary as a D record of the specification."""
    words = {}
    for w, (para, idx) in reader.words.iteritems():
        words.setdefault(w, []).append([tables.para(reader, para), idx + 1])
    pred = []
    for d in reader.pred:
        t = {}
        for e, (cnt, para, idx) in d.iteritems():
            t.setdefault(e, []).append([cnt, tables.para(reader, para), idx + 1])
        pred.append(t)
    prob = {}
    if reader.prob is not None:
        for key in reader.prob.keys():
            w, t = key.split(':', 1)
            prob.setdefault(w, {})[t] = reader.prob.get(key)
    return {'words': words, 'pred': pred, 'prob': prob}


def token_view(reader, tables, low, subst, maxlen=40):
    """The part of a dictionary that can matter for the token ``low``."""
    words, prob = {}, {}
    pred = [{} for _ in reader.pp]
    rep = reader.words.compile_replaces(subst or {})
    subs = set()
    for part in ({low} if len(low) <= maxlen else {low[:maxlen], low[-maxlen:]}):
        n = len(part)
        subs |= {part[i:j] for i in range(n) for j in range(i + 1, n + 1)}
    ends = {s for s in subs if len(s) <= reader.maxsuf}
    for s in subs:
        for w, entries in reader.words.similar_items(s, rep):
            words[w] = [[tables.para(reader, p), i + 1] for p, i in entries]
        pr = reader.probs(s)
        if pr:
            prob[s] = pr
    for k, d in enumerate(reader.pred):
        for s in ends:
            for e, entries in d.similar_items(s, rep):
                pred[k][e] = [[c, tables.para(reader, p), i + 1] for c, p, i in entries]
    return {'words': words, 'pred': pred, 'prob': prob}
