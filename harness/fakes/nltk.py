"""The part of NLTK 3's probability module that pymorphy2 uses (NLTK is not installed here)."""
from collections import Counter


class FreqDist(Counter):
    def N(self): return sum(self.values())
    def B(self): return len(self)
    def freq(self, sample): return self[sample] / self.N() if self.N() else 0


class ConditionalFreqDist(dict):
    def __init__(self, cond_samples=None):
        dict.__init__(self)
        for cond, sample in cond_samples or ():
            self[cond][sample] += 1
    def __missing__(self, k):
        self[k] = FreqDist()
        return self[k]
    def conditions(self): return list(self.keys())
    def N(self): return sum(f.N() for f in self.values())


class LidstoneProbDist(object):
    def __init__(self, freqdist, gamma, bins=None):
        if bins == 0 or (bins is None and freqdist.N() == 0): raise ValueError('must have at least one bin')
        if bins is not None and bins < freqdist.B(): raise ValueError('bins must not be less than freqdist.B()')
        if bins is None: bins = freqdist.B()
        self._freqdist, self._gamma, self._N, self._bins = freqdist, float(gamma), freqdist.N(), bins
        self._divisor = self._N + bins * gamma
        if self._divisor == 0.0: self._N, self._divisor = 0, 1
    def freqdist(self): return self._freqdist
    def prob(self, sample): return (self._freqdist[sample] + self._gamma) / self._divisor
    def samples(self): return self._freqdist.keys()


class LaplaceProbDist(LidstoneProbDist):
    def __init__(self, freqdist, bins=None): LidstoneProbDist.__init__(self, freqdist, 1, bins)


class MLEProbDist(object):
    def __init__(self, freqdist, bins=None): self._freqdist = freqdist
    def freqdist(self): return self._freqdist
    def prob(self, sample): return self._freqdist.freq(sample)


class ConditionalProbDist(dict):
    def __init__(self, cfdist, probdist_factory, *a, **kw):
        dict.__init__(self)
        self._probdist_factory = probdist_factory
        for c in cfdist: self[c] = probdist_factory(cfdist[c], *a, **kw)
    def conditions(self): return list(self.keys())
