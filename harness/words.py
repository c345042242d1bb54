# -*- coding: utf-8 -*-
"""Sampling of words from a dictionary."""
import itertools


class WordGen(object):
    def __init__(self, reader, rng):
        self.r, self.rng = reader, rng
        self._cache = {}
        first = {}
        # letters words start with
        self.letters = [ch for ch in u'абвгдеёжзийклмнопрстуфхцчшщыэюя' if reader.words.keys and self._has(ch)]

    def _has(self, prefix):
        for _ in self.r.words.iterkeys(prefix):
            return True
        return False

    def word(self, minlen=1, maxlen=16):
        """a random known word"""
        for _ in range(200):
            pre = self.rng.choice(self.letters)
            for _ in range(self.rng.choice([1, 2, 2, 3])):
                nxt = pre + self.rng.choice(u'аеиоуятнрсвлкмдпыбгзчжшцю')
                if self._has(nxt): pre = nxt
            lst = self._cache.get(pre)
            if lst is None:
                lst = self._cache[pre] = list(itertools.islice(self.r.words.iterkeys(pre), 0, 400))
            w = self.rng.choice(lst)
            if minlen <= len(w) <= maxlen: return w
        return w

    def has_tag(self, w, *subs):
        for p, i in self.r.words.get(w) or []:
            t = self.r.paradigm(p)[i][1]
            if all(s in t for s in subs): return True
        return False

    def word_with(self, *subs):
        for _ in range(3000):
            w = self.word()
            if self.has_tag(w, *subs): return w
        raise LookupError(subs)

    def pseudo(self, n=None):
        """an out-of-vocabulary word with a real ending"""
        for _ in range(100):
            w = self.word(4, 14)
            k = self.rng.choice([2, 3, 4, 5, 6])
            head = u''.join(self.rng.choice(u'бвгджзклмнпрстфхцчш') + self.rng.choice(u'аеиоуыэюяё')
                            for _ in range(self.rng.choice([1, 1, 2, 2, 3])))
            x = head + w[-k:]
            if x not in self.r.words: return x
        return x

    def capit(self, w):
        f = self.rng.choice([lambda x: x, lambda x: x.upper(), lambda x: x.title(),
                             lambda x: u''.join(self.rng.choice([c, c.upper()]) for c in x)])
        return f(w)

    def plain(self, w, table):
        """replace some substitute letters by their plain counterpart (table: plain -> substitute)"""
        inv = dict((b, a) for a, b in table.items())
        return u''.join(inv[c] if c in inv and self.rng.random() < 0.7 else c for c in w)
