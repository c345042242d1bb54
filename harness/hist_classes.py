# -*- coding: utf-8 -*-
"""A user's own classes (picklable by name)."""
import collections
import pymorphy2
from pymorphy2.analyzer import Parse, ProbabilityEstimator
from pymorphy2.units import KnownSuffixAnalyzer, LatinAnalyzer
from pymorphy2.units.base import BaseAnalyzerUnit


class MyAnalyzer(pymorphy2.MorphAnalyzer):
    DEFAULT_SUBSTITUTES = None


class MyParse(Parse):
    @property
    def shout(self):
        return self.word.upper()


Row = collections.namedtuple('Row', 'a b c d e')


class HalfEstimator(ProbabilityEstimator):
    """does not need any data"""
    def __init__(self, dict_path):
        pass
    def apply_to_parses(self, word, word_lower, parses):
        return [(w, t, n, s * 0.5, m) for w, t, n, s, m in parses]
    def apply_to_tags(self, word, word_lower, tags):
        return tags


class EchoUnit(BaseAnalyzerUnit):
    """a unit with required and optional parameters of its own"""
    def __init__(self, ending, score=0.25, times=1):
        self.ending, self.score, self.times = ending, score, times
    def parse(self, word, word_lower, seen_parses):
        if not word_lower.endswith(self.ending): return []
        return [(word_lower, self.morph.TagClass('NOUN'), word_lower * self.times, self.score, ((self, word),))]
    def get_lexeme(self, form):
        return [form]
    def normalized(self, form):
        return form


class ShortSuffix(KnownSuffixAnalyzer):
    def __init__(self, min_word_length=2, score_multiplier=0.25):
        super(ShortSuffix, self).__init__(score_multiplier, min_word_length)
