From c01ab4726c3e63440b1a44faf66ae753c916fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 01/15] fix: is_latin_char raised ValueError for letters
 without a Unicode name

MorphAnalyzer.parse() and tag() crashed with 'no such name' for words
containing such characters (e.g. U+4DB6).
---
 pymorphy2/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index e203981..1e8eb5c 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -14,7 +14,7 @@ def is_latin_char(uchr):
     except KeyError:
         if isinstance(uchr, bytes):
             uchr = uchr.decode('ascii')
-        is_latin = 'LATIN' in unicodedata.name(uchr)
+        is_latin = 'LATIN' in unicodedata.name(uchr, '')
         return _latin_letters_cache.setdefault(uchr, is_latin)
 
 
-- 
2.43.0


From 00d82d287d3af3805a91b90003bdc36bdddb68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 02/15] fix: a trailing newline made a token a Roman number

'$' in the regexp matched before a trailing newline, so '\n' and 'X\n'
were tagged as ROMN.
---
 pymorphy2/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index 1e8eb5c..934c013 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -69,7 +69,7 @@ def is_punctuation(token):
 
 
 # The regex is from "Dive into Python" book.
-ROMAN_NUMBERS_RE = re.compile("""
+ROMAN_NUMBERS_RE = re.compile(r"""
     M{0,4}              # thousands - 0 to 4 M's
     (CM|CD|D?C{0,3})    # hundreds - 900 (CM), 400 (CD), 0-300 (0 to 3 C's),
                         #            or 500-800 (D, followed by 0 to 3 C's)
@@ -77,7 +77,7 @@ ROMAN_NUMBERS_RE = re.compile("""
                         #        or 50-80 (L, followed by 0 to 3 X's)
     (IX|IV|V?I{0,3})    # ones - 9 (IX), 4 (IV), 0-3 (0 to 3 I's),
                         #        or 5-8 (V, followed by 0 to 3 I's)
-    $                   # end of string
+    \Z                  # end of string
 """, re.VERBOSE | re.IGNORECASE)
 
 def is_roman_number(token, _match=ROMAN_NUMBERS_RE.match):
-- 
2.43.0


From 404e2523328a544ae4877645ca8e517210553b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 03/15] fix: 'nan', 'inf' and 'infinity' were tagged as real
 numbers

---
 pymorphy2/units/by_shape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymorphy2/units/by_shape.py b/pymorphy2/units/by_shape.py
index 2f1d505..97008a1 100644
--- a/pymorphy2/units/by_shape.py
+++ b/pymorphy2/units/by_shape.py
@@ -112,6 +112,9 @@ class NumberAnalyzer(_ShapeAnalyzer):
         }
 
     def check_shape(self, word, word_lower):
+        if not any(ch.isdigit() for ch in word):
+            # float() also accepts "nan", "inf" and "infinity"
+            return False
         try:
             int(word)
             return 'intg'
-- 
2.43.0


From 4429b98ac3125a79850613171b243c16710abc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 04/15] fix: integers of more than 4300 digits were tagged as
 real numbers

---
 pymorphy2/units/by_shape.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymorphy2/units/by_shape.py b/pymorphy2/units/by_shape.py
index 97008a1..ff34389 100644
--- a/pymorphy2/units/by_shape.py
+++ b/pymorphy2/units/by_shape.py
@@ -6,6 +6,8 @@ Analyzer units that analyzes non-word tokes
 
 from __future__ import absolute_import, unicode_literals, division
 
+import re
+
 from pymorphy2.units.base import BaseAnalyzerUnit
 from pymorphy2.shapes import is_latin, is_punctuation, is_roman_number
 
@@ -91,6 +93,9 @@ class LatinAnalyzer(_SingleShapeAnalyzer):
         return is_latin(word)
 
 
+_INTEGER_RE = re.compile(r'\s*[+-]?\d+\s*\Z', re.UNICODE)
+
+
 class NumberAnalyzer(_ShapeAnalyzer):
     """
     This analyzer marks integer numbers with "NUMB,int" or "NUMB,real" tags.
@@ -119,6 +124,9 @@ class NumberAnalyzer(_ShapeAnalyzer):
             int(word)
             return 'intg'
         except ValueError:
+            if _INTEGER_RE.match(word):
+                # int() refuses very long strings in recent Pythons
+                return 'intg'
             try:
                 float(word.replace(',', '.'))
                 return 'real'
-- 
2.43.0


From a7ed1bf4f0da3be5f3c08eb6463374390da62686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 05/15] fix: redundant lexeme links lost forms or hung the
 compiler

A self-link or a cycle of links removed all forms of the lexemes from the
dictionary and made the next link hang in an infinite loop; a second link
to an already joined lexeme detached the lexemes linked from it.
---
 pymorphy2/opencorpora_dict/compile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index e6a95e5..074606a 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -225,6 +225,11 @@ def _join_lexemes(lexemes, links):
         while to_id in moves:
             to_id = moves[to_id]
 
+        if from_id == to_id or from_id in moves:
+            # the link is redundant: a self-link, a cycle
+            # or a lexeme which is already a part of another lexeme
+            return
+
         lexemes[str(to_id)].extend(lm)
         del lm[:]
         moves[from_id] = to_id
-- 
2.43.0


From 1df135b197ea1142cdf131573a1d17f3b11cd788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 06/15] fix: redundant cases could be reintroduced by tag
 spelling unification

Spellings were counted before loc1/gen1/acc1 were replaced, but looked up
after that, so a tag could be replaced with a spelling with loc1, or not
be replaced with the most frequent spelling at all.
---
 pymorphy2/opencorpora_dict/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/preprocess.py b/pymorphy2/opencorpora_dict/preprocess.py
index 7247cc5..f9c280a 100644
--- a/pymorphy2/opencorpora_dict/preprocess.py
+++ b/pymorphy2/opencorpora_dict/preprocess.py
@@ -76,7 +76,7 @@ def _get_tag_spellings(parsed_dict):
     """
     spellings = collections.defaultdict(lambda: collections.defaultdict(int))
     for tag in _itertags(parsed_dict):
-        spellings[tag2grammemes(tag)][tag] += 1
+        spellings[tag2grammemes(tag)][replace_redundant_grammemes(tag)] += 1
     return spellings
 
 
-- 
2.43.0


From 7c05b34cdc4cc9e3b43a17735e99891a55de3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 07/15] fix: numeral_agreement_grammemes() returned a shared
 mutable set

Changing the returned set changed the results of make_agree_with_number()
for all other words.
---
 pymorphy2/tagset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index e294a6f..8dee3d5 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -509,7 +509,7 @@ class OpencorporaTag(object):
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[3]
         else:
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[4]
-        return grammemes
+        return set(grammemes)
 
     #@classmethod
     #def _clone_class(cls):
-- 
2.43.0


From c24724e84c1ccd054f330748ed542bcdcf69107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 08/15] fix: creating an analyzer broke other analyzers
 temporarily or for good

OpencorporaTag is shared by all analyzers. Loading a dictionary emptied the
set of known grammemes and the translation tables and refilled them in place,
so calls in other threads raised ValueError or KeyError, and grammemes added
by units of existing analyzers (UNKN, NUMB, ...) were forgotten if the new
analyzer had no such units or when a dictionary was compiled.
---
 pymorphy2/tagset.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index 8dee3d5..955d82c 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -240,6 +240,7 @@ class OpencorporaTag(object):
     _LAT2CYR = None
     _CYR2LAT = None
     KNOWN_GRAMMEMES = set()
+    _EXTRA_GRAMMEMES = {}  # grammemes added by analyzer units
 
     _NUMERAL_AGREEMENT_GRAMMEMES = (
         set(['sing', 'nomn']),
@@ -425,6 +426,7 @@ class OpencorporaTag(object):
     def add_grammemes_to_known(cls, lat, cyr, overwrite=True):
         if not overwrite and lat in cls.KNOWN_GRAMMEMES:
             return
+        cls._EXTRA_GRAMMEMES[lat] = cyr
         cls.KNOWN_GRAMMEMES.add(lat)
         cls._LAT2CYR[lat] = cyr
         cls._CYR2LAT[cyr] = lat
@@ -443,11 +445,18 @@ class OpencorporaTag(object):
             ]
 
         """
-        cls.KNOWN_GRAMMEMES = set()
-        cls._CYR2LAT = {}
-        cls._LAT2CYR = {}
-        for name, parent, alias, description in dict_grammemes:
-            cls.add_grammemes_to_known(name, alias)
+        # The class is shared by all analyzers, and it could be in use
+        # already (maybe in another thread), so grammemes added by analyzer
+        # units must stay, and new values are ready before they're assigned.
+        aliases = [(name, alias) for (name, parent, alias, description) in dict_grammemes]
+        aliases.extend(list(cls._EXTRA_GRAMMEMES.items()))
+        known_grammemes = set(lat for lat, cyr in aliases)
+        lat2cyr = dict(aliases)
+        cyr2lat = dict((cyr, lat) for lat, cyr in aliases)
+
+        cls.KNOWN_GRAMMEMES = known_grammemes
+        cls._LAT2CYR = lat2cyr
+        cls._CYR2LAT = cyr2lat
 
         gr = dict((name, parent) for (name, parent, alias, description) in dict_grammemes)
 
-- 
2.43.0


From b8c609c1290f9d0fc56dd658af0898ffc6c4e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 09/15] fix: pickling lost probability_estimator_cls and
 char_substitutes

An unpickled analyzer used the default ones and could give different results.
---
 pymorphy2/analyzer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index 7c27e70..d4d90ce 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -17,7 +17,18 @@ logger = logging.getLogger(__name__)
 _Parse = collections.namedtuple('Parse', 'word, tag, normal_form, score, methods_stack')
 
 _score_getter = operator.itemgetter(3)
-auto = object()
+
+
+class _Auto(object):
+    """ Default value of analyzer parameters """
+    def __repr__(self):
+        return 'auto'
+
+    def __reduce__(self):
+        return 'auto'  # it is compared by identity, so unpickle to the same object
+
+
+auto = _Auto()
 
 
 class Parse(_Parse):
@@ -193,6 +204,8 @@ class MorphAnalyzer(object):
         # save arguments for pickling/unpickling
         self._path = path
         self._lang = lang
+        self._probability_estimator_cls = probability_estimator_cls
+        self._char_substitutes = char_substitutes
 
         if path is None and lang is None:
             lang = 'ru'
@@ -440,5 +453,6 @@ class MorphAnalyzer(object):
         return self.TagClass.lat2cyr(tag_or_grammeme)
 
     def __reduce__(self):
-        args = (self._path, self._lang, self._result_type_orig, self._units_unbound)
+        args = (self._path, self._lang, self._result_type_orig, self._units_unbound,
+                self._probability_estimator_cls, self._char_substitutes)
         return self.__class__, args, None
-- 
2.43.0


From 09b71a067ea26a2ed549a860589b3674d3db88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 10/15] fix: a short word was counted several times as its own
 ending

word[-i:] is the whole word for every i greater than its length, so words
shorter than max_suffix_length were counted once for each of these i:
they passed min_ending_freq alone and distorted the productivity, which is
documented to be the number of words with the ending.
---
 pymorphy2/opencorpora_dict/compile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index 074606a..4fb4eb0 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -322,7 +322,9 @@ def _suffixes_prediction_data(words, paradigm_popularity, gramtab, paradigms, su
 
         POS = tuple(tag.replace(' ', ',', 1).split(','))[0]
 
-        for i in range(max(len(form_suffix), 1), max_suffix_length+1): #was: 1,2,3,4,5
+        # a word has no endings longer than itself
+        max_length = min(max_suffix_length, len(word))
+        for i in range(max(len(form_suffix), 1), max_length+1): #was: 1,2,3,4,5
             word_end = word[-i:]
             ending_counts[word_end] += 1
             prefix_endings[form_prefix_id][word_end][POS][(para_id, idx)] += 1
-- 
2.43.0


From 912c788dead9b554e5e417c78e269e272edda7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 11/15] fix: interrupted overwriting of a dictionary left a
 loadable mixture

---
 pymorphy2/opencorpora_dict/storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/storage.py b/pymorphy2/opencorpora_dict/storage.py
index 9eaf728..501d67a 100644
--- a/pymorphy2/opencorpora_dict/storage.py
+++ b/pymorphy2/opencorpora_dict/storage.py
@@ -90,6 +90,12 @@ def save_compiled_dict(compiled_dict, out_path, source_name, language_code):
     logger.info("Saving...")
     _f = lambda path: os.path.join(out_path, path)
 
+    # meta.json is written last: without it the folder can't be loaded.
+    # When a dictionary is being overwritten, remove the old meta.json first,
+    # or a mixture of old and new files would be loadable if we are interrupted.
+    if os.path.exists(_f('meta.json')):
+        os.remove(_f('meta.json'))
+
     json_write(_f('grammemes.json'), compiled_dict.parsed_dict.grammemes)
 
     gramtab_formats = {}
-- 
2.43.0


From 6eeb452fff61867117d6c2c31c87a002684dff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 12/15] fix: pymorphy parse rejected its --lang and --dict
 options

---
 pymorphy2/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/cli.py b/pymorphy2/cli.py
index cd062f3..8a76267 100644
--- a/pymorphy2/cli.py
+++ b/pymorphy2/cli.py
@@ -24,7 +24,7 @@ Pymorphy2 is a morphological analyzer / inflection engine for Russian language.
 __doc__ = """
 Usage::
 
-    pymorphy parse [options] [<input>]
+    pymorphy parse [options] [--lang <lang>] [--dict <path>] [<input>]
     pymorphy dict meta [--lang <lang> | --dict <path>]
     pymorphy dict mem_usage [--lang <lang> | --dict <path>] [--verbose]
     pymorphy -h | --help
-- 
2.43.0


From 3c9deb7324c4f8d91316408308fb8ab8a3beff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 13/15] fix: rules for incompatible grammemes of one dictionary
 stayed in force for the next ones

_init_grammemes() extended _EXTRA_INCOMPATIBLE in place and never removed rules
of the previous dictionary, so results of inflect() depended on which
dictionaries (or how many copies of a dictionary) had been loaded.
---
 pymorphy2/tagset.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index 955d82c..db843f4 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -468,18 +468,24 @@ class OpencorporaTag(object):
             if gr.get(parent, None):  # parent's parent
                 children[gr[parent]].add(name)
 
-        # expand EXTRA_INCOMPATIBLE
+        # expand EXTRA_INCOMPATIBLE (a copy, because children of grammemes
+        # could be different in the next dictionary)
+        extra_incompatible = {}
         for grammeme, g_set in cls._EXTRA_INCOMPATIBLE.items():
-            for g in g_set.copy():
-                g_set.update(children[g])
+            extra_incompatible[grammeme] = g_set.union(*[children[g] for g in g_set])
 
         # fill GRAMMEME_INDICES and GRAMMEME_INCOMPATIBLE
+        grammeme_indices = collections.defaultdict(int)
+        grammeme_incompatible = collections.defaultdict(set)
         for index, (name, parent, alias, description) in enumerate(dict_grammemes):
-            cls._GRAMMEME_INDICES[name] = index
-            incompatible = cls._EXTRA_INCOMPATIBLE.get(name, set())
+            grammeme_indices[name] = index
+            incompatible = extra_incompatible.get(name, set())
             incompatible = (incompatible | children[parent]) - set([name])
 
-            cls._GRAMMEME_INCOMPATIBLE[name] = frozenset(incompatible)
+            grammeme_incompatible[name] = frozenset(incompatible)
+
+        cls._GRAMMEME_INDICES = grammeme_indices
+        cls._GRAMMEME_INCOMPATIBLE = grammeme_incompatible
 
     # XXX: do we still need these methods?
     @classmethod
-- 
2.43.0


From 0be26530875d605ed91f4995358dacf63dc49aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:45 +0000
Subject: [PATCH 14/15] fix: parse() divided by zero when all estimates of a
 word were zero

A known prefix or a particle may leave only analyses for which
P(t|w) of the rest of the word is 0.
---
 pymorphy2/analyzer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index d4d90ce..9f93709 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -90,7 +90,14 @@ class ProbabilityEstimator(object):
 
         if sum(probs) == 0:
             # no P(t|w) information is available; return normalized estimate
-            k = 1.0 / sum(map(_score_getter, parses))
+            total = sum(map(_score_getter, parses))
+            if total == 0:
+                # all estimates are zero: parses are equally probable
+                return [
+                    (word, tag, normal_form, 1.0 / len(parses), methods_stack)
+                    for (word, tag, normal_form, score, methods_stack) in parses
+                ]
+            k = 1.0 / total
             return [
                 (word, tag, normal_form, score*k, methods_stack)
                 for (word, tag, normal_form, score, methods_stack) in parses
-- 
2.43.0


From 14106daf2331b209bf7e3e551031ef8349344619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:23 +0000
Subject: [PATCH 15/15] fix: parse() and tag() disagreed about UNKN after a
 particle or a compound word

In a group of units with UnknAnalyzer, tag() of HyphenSeparatedParticleAnalyzer
and parse() of HyphenatedWordsAnalyzer did not record what they had found, so
UnknAnalyzer added UNKN to one of the answers.
---
 pymorphy2/units/by_hyphen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymorphy2/units/by_hyphen.py b/pymorphy2/units/by_hyphen.py
index e70c3a6..504cbdb 100644
--- a/pymorphy2/units/by_hyphen.py
+++ b/pymorphy2/units/by_hyphen.py
@@ -61,6 +61,7 @@ class HyphenSeparatedParticleAnalyzer(AnalogyAnalizerUnit):
         result = []
         for unsuffixed_word, particle in self.possible_splits(word_lower):
             result.extend(self.morph.tag(unsuffixed_word))
+            seen_tags.update(result)
             # If a word ends with with one of the particles,
             # it can't ends with an another.
             break
@@ -183,6 +184,7 @@ class HyphenatedWordsAnalyzer(BaseAnalyzerUnit):
         _seen = seen_parses.copy()
         result.extend(self._parse_as_fixed_left(right_parses, _seen, left))
         seen_parses.update(_seen)
+        seen_parses.update(result)
 
         return result
 
-- 
2.43.0

