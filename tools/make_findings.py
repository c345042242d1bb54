#!/usr/bin/env python3
"""Writes known_findings.jsonl: genuine defects, repaired ("fixed", suppresses nothing) or recorded ("known")."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def commit(subject):
    out = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
    c = [l.split(' ', 1)[0] for l in out.split('\n') if subject in l]
    assert len(c) == 1, (subject, c)
    return c[0]
rows = []
def fixed(props, subject, what):
    h = commit(subject)
    for p in props:
        rows.append({'status': 'fixed', 'property': p, 'commit': h, 'line': 'fixed: property=%s %s %s' % (p, h, what)})
def known(p, key, what):
    rows.append({'status': 'known', 'property': p, 'key': key, 'what': what})
fixed(['C01', 'C13'], 'is_latin_char raised ValueError', "parse() of a token with an alphabetic character that has no Unicode name raised ValueError")
fixed(['C13'], 'a trailing newline made', "'XII\\n' was tagged ROMN")
fixed(['C13'], "'nan', 'inf' and", "'nan', 'inf' and 'infinity' were tagged NUMB,real")
fixed(['C13'], 'integers of more than 4300 digits', "integers longer than 4300 digits were tagged NUMB,real")
fixed(['C21'], 'redundant lexeme links', "redundant, repeated, self and cyclic lexeme links lost forms or hung the compiler")
fixed(['C22'], 'redundant cases could be reintroduced', "loc1/gen1/acc1 could be reintroduced when tag spellings were unified")
fixed(['C07', 'C17'], 'returned a shared mutable set', "modifying the set returned by numeral_agreement_grammemes() broke make_agree_with_number() of every analyzer")
fixed(['C17', 'C18'], 'creating an analyzer broke other analyzers', "loading a dictionary forgot grammemes registered by the units of other analyzers (for good when the new analyzer has other units)")
fixed(['C17'], 'rules for incompatible grammemes', "inflect() and updated_grammemes() depended on which dictionaries had been loaded before (incompatibility rules accumulated in the tag class)")
fixed(['C19'], 'pickling lost', "probability_estimator_cls and char_substitutes were lost by pickling")
fixed(['C23'], 'a short word was counted several times', "words shorter than max_suffix_length were counted several times as their own ending")
fixed(['C25'], 'interrupted overwriting', "overwriting a dictionary left a loadable mixture of old and new files when interrupted")
fixed(['C27'], 'pymorphy parse rejected its', "'pymorphy parse' rejected the documented options --lang and --dict")
fixed(['C01', 'C08'], 'parse() divided by zero', "parse('ненёа') raised ZeroDivisionError when P(t|w) of 'нёа' was 0 for every analysis that the prefix rule keeps")
fixed(['C02', 'C09'], 'parse() and tag() disagreed about UNKN', "with units [[DictionaryAnalyzer()], [HyphenSeparatedParticleAnalyzer(['-то']), UnknAnalyzer()]] tag('кот-то') had UNKN and parse('кот-то') had not; the other way round for HyphenatedWordsAnalyzer")
for call in ('parse', 'tag'):
    known('C01', "real %s('не' * 3000 + 'кот') [raised RecursionError]" % call, "%s('не' * 3000 + 'кот') raises RecursionError: each known prefix is one more nested call of the analyzer" % call)
    known('C01', "real %s('кот' + '-ка' * 3000) [raised RecursionError]" % call, "%s('кот' + '-ка' * 3000) raises RecursionError: each particle is one more nested call of the analyzer" % call)
    known('C01', "real %s('небез' * 60 + 'кот') [no answer]" % call, "%s('небез' * 60 + 'кот') does not end in reasonable time: 'небез' is a known prefix and so are 'не' and 'без', so there are 2**60 ways to split the word" % call)
nul = "a token with U+0000 is analysed by the C++ DAWG library as if the token had no U+0000 at the end (the Python DAWG library does not): "
known('C03', "real 'кот\\x00' [missing,extra]", nul + "'кот\\x00' is a dictionary word")
known('C03', "real 'кот\\x00' [extra]", nul + "'кот\\x00' is a dictionary word (dictionary unit alone)")
for op, w in (('all', 'кот\x00'), ('all', 'ко\x00т'), ('all', 'котто\x00')):
    known('C30', 'Python DAWG differs from C++ DAWG, Parse on: ' + json.dumps([op, w]), nul + repr(w))
known('C30', 'Python DAWG differs from C++ DAWG, Parse on: ' + json.dumps(['walk', 'котик\x00', 5]), "iter_known_word_parses('котик\\x00') yields words with the C++ DAWG library only")
known('C32', "toy 'кот\\x01' [iterextra]", "iter_known_word_parses('кот\\x01') yields 'кот': U+0001 is the internal separator of both DAWG libraries")
known('C32', "toy 'котик\\x00' [iterextra]", "iter_known_word_parses('котик\\x00') yields 'котик' with the C++ DAWG library")
shared = "the tag class is shared by all dictionaries of a process: after an analyzer of a dictionary with another grammeme table is created, "
for q in (['l2c', 'NOUN,masc sing'], ['c2l', 'СУЩ,мр']):
    known('C17', 'analyzer of a dictionary with other Cyrillic names created later: ' + json.dumps(q), shared + 'the earlier analyzer translates with the names of the new one: ' + json.dumps(q, ensure_ascii=False))
known('C17', 'analyzer of the older dictionary created later: ' + json.dumps(['in', 'Саша', 'ms-f']), shared + "membership of 'ms-f' raises ValueError on the analyzer of the installed dictionary (ru, then ru-old)")
with open(os.path.join(here, 'known_findings.jsonl'), 'w', encoding='utf8') as f:
    for r in rows: f.write(json.dumps(r, ensure_ascii=False) + '\n')
print(len(rows))
