"""opencorpora-tools' CorpusReader over a JSON file: [[word, [[lemma, tag], ...]], ...]"""
import io, json


class CorpusReader(object):
    def __init__(self, filename): self.filename = filename
    def iter_parsed_words(self, *a, **kw):
        for w, ps in json.load(io.open(self.filename, encoding='utf8')):
            if w is None: raise __import__('builtins').__dict__[ps]('broken corpus')    # damaged here
            yield w, [tuple(p) for p in ps]
    def words(self):
        for w, ps in self.iter_parsed_words(): yield w
