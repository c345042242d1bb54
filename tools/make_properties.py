#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of semantic properties)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

A='pymorphy2/analyzer.py'; U='pymorphy2/units/'; O='pymorphy2/opencorpora_dict/'
T='pymorphy2/tagset.py'

p('C01','Every string gets an analysis; UNKN only as the last resort',
  'For every string without lone surrogates, parse() and tag() of an analyzer with a default (Russian or Ukrainian) configuration return a non-empty list and raise nothing, and normal_forms() returns the distinct normal forms of parse() in order of first appearance. '
  'The catch-all rule answers exactly when no other rule of the pipeline produces anything: then the only result is UNKN, with the lower-cased token as its word and normal form and score 1; other UNKN results only arise from rules that analyse a part of the token (a prefix, particle or hyphenated part put back), and also have the lower-cased token as word and normal form.',
  ['inputs','configurations'],'all strings (any script, any length, empty, control characters, unassigned code points), both default configurations, both DAWG backends, with and without P(t|w)',
  'The tests feed a few dozen hand-picked tokens; whether any of 1.1M code points or any combination of hyphens, digits and letters raises or returns nothing is a question about all inputs.',
  [A,U+'unkn.py','pymorphy2/shapes.py',U+'by_shape.py'],
  [('unit pipeline with a catch-all last unit',A+':MorphAnalyzer.parse'),('UnknAnalyzer',U+'unkn.py')],
  [('seen_parses','what earlier units produced for this token; UNKN is added only if empty',U+'unkn.py')],
  ['MorphAnalyzer.parse','MorphAnalyzer.tag','MorphAnalyzer.normal_forms'])

p('C02','tag(word) and parse(word) describe the same analyses',
  'For every string, the set of tags returned by tag(word) equals the set of tags of the parses returned by parse(word), under the same analyzer configuration. '
  'When the dictionary has P(t|w) for that word, both lists are in order of non-increasing P(t|w).',
  ['inputs','configurations'],'all strings, default and custom unit pipelines ending in the catch-all unit, dictionaries with and without P(t|w)',
  'Every unit implements tag() separately from parse() "as an optimization"; tests compare the two on a fixed list of words only.',
  [A,U+'by_lookup.py',U+'by_analogy.py',U+'by_hyphen.py',U+'by_shape.py',U+'abbreviations.py',U+'base.py'],
  [('duplicated tag()/parse() implementations',U),('apply_to_parses/apply_to_tags',A)],
  observe=['MorphAnalyzer.parse','MorphAnalyzer.tag'])

p('C03','A dictionary word is analysed exactly as the lexicon says',
  'For every string whose lower-cased form is a word form of the lexicon (allowing the configured character substitutes), the dictionary analyses returned are exactly the lexicon entries (lexeme, form) with that spelling: nothing missing, nothing invented, each with the spelling, the tag and the normal form (first form of its lexeme) recorded there and unnormalised score 1. '
  'Letter case of the input never changes these dictionary analyses.',
  ['inputs','configurations'],'every word form of every compiled dictionary, in every capitalization; every string that is not a word form',
  'Tests look up a few hundred words of one dictionary; exactness must hold for each of 5M forms and any other compiled dictionary (homonyms, empty stems, prefixed forms).',
  [U+'by_lookup.py',O+'wrapper.py','pymorphy2/dawg.py'],
  [('DictionaryAnalyzer.parse',U+'by_lookup.py'),('Dictionary.build_normal_form/build_stem',O+'wrapper.py')],
  observe=['MorphAnalyzer.parse'])

p('C04','Substitute letters match in one direction only and restore the spelling',
  'With a substitute mapping such as {е: ё} (Russian) or {г: ґ} (Ukrainian), an input matches every lexicon spelling obtainable by replacing any subset of its occurrences of the plain letter with the substitute letter, including none, and never the other way round; results carry the lexicon spelling, the unreplaced spelling first. '
  'With substitutes disabled only the exact spelling matches; word_is_known() (non-strict) and Parse.is_known accept exactly the spellings reachable this way, and strict word_is_known accepts only the exact one.',
  ['inputs','configurations'],'all strings with any number of plain/substitute letters, any substitute mapping of single characters, all dictionaries',
  'Tests have about ten е/ё words; the number of substitution subsets is exponential and direction/ordering must hold for all of them.',
  [U+'by_lookup.py',O+'wrapper.py',A,'pymorphy2/lang/ru/config.py','pymorphy2/lang/uk/config.py'],
  [('similar_items with compiled replaces',U+'by_lookup.py'),('word_is_known',O+'wrapper.py')],
  observe=['MorphAnalyzer.parse','MorphAnalyzer.word_is_known','Parse.is_known'])

p('C05','Lexeme and normal form of a parse are coherent',
  'For every parse p of every string, p.lexeme is non-empty, contains a form with p\'s word and tag (except where two inflected hyphenated parts were merged), all its forms share p\'s normal form, and the lexeme computed from any of its forms lists the same words and tags in the same order. '
  'p.normalized is the form of that lexeme whose word is p.normal_form and, for dictionary-derived parses, the first form (idempotently so); decorations such as prefixes, particles and hyphenated parts appear in every form. '
  'Where two inflected hyphenated parts are merged, each form of the right part is paired with a closest form of the left part.',
  ['inputs','configurations'],'all strings, all parses of each (dictionary, prefix, suffix-predicted, particle, hyphenated, non-lexical), then all forms of its lexeme',
  'Tests check lexemes of about 30 words; the round trip must hold through any nesting of decorations (e.g. particle after a predicted word with a prefix).',
  [U+'base.py',U+'by_lookup.py',U+'by_analogy.py',U+'by_hyphen.py',U+'abbreviations.py',O+'wrapper.py'],
  [('methods_stack decoration/undecoration coroutines',U+'base.py'),('_merge_lexemes',U+'by_hyphen.py')],
  observe=['Parse.lexeme','Parse.normalized','MorphAnalyzer.get_lexeme'])

p('C06','inflect() returns the closest form having the requested grammemes',
  'p.inflect(G) returns a form of p\'s lexeme that has all grammemes of G or, if there is none, all of G after replacing rare cases by the common ones they map to, and returns None exactly when there is no such form. '
  'Among candidates it returns the first one maximising |T∩F| - 0.1·|T△F|, where F are the form\'s grammemes and T are p\'s grammemes plus G minus everything incompatible with G in the dictionary\'s grammeme hierarchy (and gender when plural is requested); an unknown grammeme raises ValueError.',
  ['inputs'],'all parses of all words, all sets of grammemes (known and unknown)',
  'Tests try a few dozen (word, grammemes) pairs; grammeme subsets are exponential and depend on the dictionary\'s hierarchy.',
  [A,T],[('_inflect',A),('updated_grammemes, fix_rare_cases, _GRAMMEME_INCOMPATIBLE',T)],
  observe=['Parse.inflect'])

p('C07','make_agree_with_number() follows Russian numeral agreement for every number',
  'For any integer n≥0 and any parse, the grammemes requested for agreement depend only on n mod 10, n mod 100 and the parse\'s part of speech, case and gender, following the Russian rule (1 → singular; 2-4 except 12-14 → genitive singular for nouns, nominative plural for feminine adjectives and participles; otherwise genitive plural; nouns in oblique cases keep their case; other parts of speech are not constrained), and make_agree_with_number(n) is inflect() with them.',
  ['inputs'],'all non-negative integers, all tags',
  'Tests use a fixed table of words and about ten numbers.',
  [T,A],[('numeral_agreement_grammemes',T),('make_agree_with_number',A)],
  observe=['Tag.numeral_agreement_grammemes','Parse.make_agree_with_number'])

p('C08','Scores are probabilities and rank the parses',
  'With P(t|w) data, for every string all scores are within [0,1]; if the dictionary has P(t|w) for any tag of this (lower-cased) word, every parse\'s score is exactly that P(t|w) (0 if absent) and the list is ordered by it, ties keeping the rule order; otherwise scores sum to 1 and keep the proportions of the rule estimates. '
  'Without P(t|w) data (or with the estimator disabled) scores are the raw rule estimates: 1 for dictionary words, a factor in (0,1) applied per decoration, and for suffix prediction a share of the matching evidence.',
  ['inputs','configurations'],'all strings; dictionaries with/without P(t|w); estimator on/off',
  'Tests check scores of a handful of words; the invariant must hold for any nesting of rules.',
  [A,'pymorphy2/dawg.py',U],[('ProbabilityEstimator.apply_to_parses/apply_to_tags',A)],
  observe=['Parse.score'])

p('C09','Rules are tried in order and the first productive terminal rule wins',
  'For any unit list (default or custom, nested groups allowed), units are applied in order, results accumulate over the units of a group, and the analysis stops after the last unit of the first group (or single unit) at which the accumulated result is non-empty; later units contribute nothing. '
  'Within one analysis no two results of the prediction rules share word, tag and paradigm, and each unit list is instantiated independently for each analyzer.',
  ['inputs','configurations'],'all strings and all orders/groupings of the analyzer units',
  'Only two default pipelines and one custom unit list are tested.',
  [A,U+'utils.py','pymorphy2/lang/ru/config.py','pymorphy2/lang/uk/config.py'],
  [('MorphAnalyzer._init_units / parse loop',A),('add_parse_if_not_seen',U+'utils.py')],
  [('seen_parses','(word, tag, paradigm) triples already produced',U+'utils.py')],
  ['MorphAnalyzer.parse'])

p('C10','Known and unknown prefixes: analysed as the rest of the word',
  'A word not handled by earlier rules that starts with known prefixes is analysed, longest prefix first, as each remainder of at least 3 letters is analysed, with the prefix put back on word and normal form, keeping only productive (open-class) tags and scaling scores by 0.75. '
  'Otherwise every split with a prefix of 1-5 letters and a remainder of at least 3 that is a dictionary word is analysed as that word (open-class tags only, scores scaled by 0.5).',
  ['inputs','configurations'],'all strings; default prefix lists and custom prefix lists (including overlapping and nested prefixes)',
  'Tests contain a dozen prefixed words; combinations of nested known prefixes with every kind of remainder are unbounded.',
  [U+'by_analogy.py','pymorphy2/dawg.py','pymorphy2/utils.py'],
  [('KnownPrefixAnalyzer',U+'by_analogy.py'),('UnknownPrefixAnalyzer',U+'by_analogy.py'),('word_splits','pymorphy2/utils.py')],
  observe=['MorphAnalyzer.parse'])

p('C11','Suffix prediction uses the longest informative ending',
  'For an out-of-vocabulary word of at least 4 letters, for each paradigm prefix the word starts with, the predictions are exactly the stored (count, paradigm, form) triples with a productive tag of the longest ending (at most the dictionary\'s maximum suffix length, substitute letters allowed) that has any; the predicted word, tag, normal form follow from applying that paradigm to the word. '
  'Each estimate is 0.5·count/(1+sum of counts used for that paradigm prefix), predictions are ordered by it, and repeated (word, tag, paradigm) predictions are dropped.',
  ['inputs','configurations'],'all strings, all compiled prediction tables (varying maximum suffix length, paradigm prefixes, thresholds)',
  'Tests check about 30 unknown words of one dictionary; the ending/prefix/substitute interplay is never enumerated.',
  [U+'by_analogy.py',O+'wrapper.py'],[('KnownSuffixAnalyzer',U+'by_analogy.py')],
  observe=['MorphAnalyzer.parse'])

p('C12','Hyphenated words: particles, "по-" adverbs, and compounds',
  'A token ending in a known hyphenated particle is analysed as the token without it, the particle kept on word and normal form; a token "по-X" where X can be a singular dative full adjective is an adverb. '
  'A token with exactly one inner hyphen and no known hyphen prefix is analysed first by pairing every left and right analysis that agree in part of speech, number, case, person and tense (both parts inflect), then as a fixed left part plus every analysis of the right part; it takes the left tag in the first case, the right tag in the second, requires a known part of speech of both parts in the first case and of the right part in the second, and tokens with leading, trailing or several hyphens are not treated as compounds.',
  ['inputs','configurations'],'all tokens with hyphens, all pairs of left/right parts (known, unknown, numeric, latin), both languages',
  'Tests have a short list of hyphenated words; the rule is quadratic in analyses and recursive in structure.',
  [U+'by_hyphen.py'],[('HyphenSeparatedParticleAnalyzer, HyphenAdverbAnalyzer, HyphenatedWordsAnalyzer',U+'by_hyphen.py')],
  observe=['MorphAnalyzer.parse'])

p('C13','Non-lexical tokens get the right shape tag',
  'Integers get NUMB,intg and decimal numbers (dot or comma) NUMB,real, tokens of punctuation (and spaces) only get PNCT, tokens whose letters are all Latin get LATN, Roman numerals get ROMN (before LATN); anything else gets none of these. '
  'Such parses have the lower-cased token as word and normal form and are their own one-form lexeme, and the tests for these shapes accept exactly the documented token classes whatever the length or script of the token.',
  ['inputs'],'all strings over all of Unicode',
  'The tests use about 40 tokens; the character classes cover all of Unicode and the number grammar is infinite.',
  [U+'by_shape.py','pymorphy2/shapes.py'],[('_ShapeAnalyzer subclasses',U+'by_shape.py'),('is_latin/is_punctuation/is_roman_number','pymorphy2/shapes.py')],
  observe=['MorphAnalyzer.parse','pymorphy2.shapes'])

p('C14','Initials are analysed as abbreviated names and patronymics',
  'A token that is exactly one upper-case letter of the language\'s alphabet of initials gets, besides any dictionary analyses, for each of first name and patronymic the 12 tags masc/femn × six cases with score proportional to 0.1, and no other token gets them. '
  'First names never change gender under lexeme/normalization (6 forms per gender) while patronymics have one 12-form lexeme normalised to masculine nominative.',
  ['inputs','configurations'],'all strings, all letters, both languages and custom letter sets',
  'Tests check a single initial in one language.',
  [U+'abbreviations.py'],[('_InitialsAnalyzer',U+'abbreviations.py')],observe=['MorphAnalyzer.parse','Parse.lexeme','Parse.normalized'])

p('C15','Tags behave as sets of known grammemes',
  'For every tag, "g in tag" and "set in tag" are true exactly when the grammemes are among the tag\'s grammemes, raise ValueError for grammemes unknown to the dictionary, and category attributes (POS, case, number, ...) give the tag\'s grammeme of that category or None and refuse comparison with values outside the category. '
  'Tags with the same grammeme sequence are equal and hash equal regardless of comma/space separators, ordering is consistent with equality, constructing a tag from unknown grammemes raises ValueError, str() gives back the source string and pickling round-trips.',
  ['inputs'],'all tag strings over all grammemes of the dictionary, all queries',
  'Tests use about ten tags.',
  [T],[('OpencorporaTag',T),('_select_grammeme_from',T)],observe=['OpencorporaTag'])

p('C16','Tag translation Latin↔Cyrillic is faithful and invertible',
  'For every tag of the dictionary and every built-in tag (UNKN, NUMB, LATN, ROMN, PNCT, initials), lat2cyr replaces each grammeme by its Cyrillic alias and cyr2lat(lat2cyr(tag)) gives back the tag, with separators preserved and unknown tokens left unchanged; cyr_repr and grammemes_cyr agree with lat2cyr.',
  ['inputs','configurations'],'all grammemes and all tags (and arbitrary strings) of all dictionaries',
  'Tests translate a handful of tags.',
  [T],[('_translate_tag, _LAT2CYR, _CYR2LAT, add_grammemes_to_known',T)],observe=['MorphAnalyzer.lat2cyr','MorphAnalyzer.cyr2lat','Tag.cyr_repr','Tag.grammemes_cyr'])

p('C17','Results do not depend on history or on other analyzers',
  'The answer to any call (parse, tag, inflect, lexeme, membership, translation, ...) depends only on the analyzer\'s dictionary and configuration and the call\'s arguments: not on earlier calls, on returned lists or sets having been modified by the caller, or on how many analyzers (of any dictionary, with any units) have been created before or since, except that a query for a grammeme which only those other analyzers\' units define may stop raising ValueError.',
  ['histories'],'all interleavings of analyzer creation (any configuration) and calls on any of the live analyzers',
  'Each test uses one shared analyzer in a fixed order; the tag class and several caches are process-global and mutable.',
  [T,A,U+'abbreviations.py','pymorphy2/shapes.py'],
  [('process-global tag class initialised by each dictionary load',T+':_init_grammemes'),('per-object caches',T)],
  [('KNOWN_GRAMMEMES/_LAT2CYR/_CYR2LAT','grammemes known to the shared tag class',T)],
  ['MorphAnalyzer','OpencorporaTag'])

p('C18','An analyzer can be used and created from several threads',
  'Concurrent calls on one analyzer from any number of threads, including while other threads construct further analyzers, return what the same calls return sequentially and raise nothing.',
  ['schedules'],'all interleavings of calls with construction/dictionary loading',
  'The test suite starts a few threads and hopes; it never controls where threads are preempted.',
  [A,T,O+'storage.py'],[('class-level construction lock',A),('publication of tag class tables',T)],
  [('KNOWN_GRAMMEMES','shared by all threads',T)],['MorphAnalyzer','OpencorporaTag'])

p('C19','A pickled analyzer behaves like the original',
  'Unpickling a pickled analyzer gives an analyzer with the same configuration - dictionary, language, result type, units and their parameters, substitute letters, probability estimator - and hence the same results for every input (in the same environment); the same holds for cloning analyzer units with any parameters.',
  ['configurations','inputs'],'all constructor configurations, all inputs',
  'One test pickles one default analyzer and parses one word.',
  [A,U+'base.py'],[('MorphAnalyzer.__reduce__',A),('BaseAnalyzerUnit.clone/_get_params',U+'base.py')],
  observe=['pickle.loads(pickle.dumps(morph))'])

p('C20','Compiling a dictionary preserves the source lexicon',
  'For every valid OpenCorpora XML lexicon without lexeme links, the compiled and loaded dictionary contains exactly the source\'s word forms: one (word, tag, lexeme) entry per source form, lower-cased, with the (normalised) source tag, the first form of the source lexeme as normal form, and the source lexeme\'s forms in order as its lexeme. '
  'Deleted lexemes and forms tagged Init (and lexemes with no grammatical information) are left out, and nothing else is added or lost, whatever paradigm prefixes or compile options are used.',
  ['inputs','configurations'],'all small lexicons (any stems, prefixes, suffixes, empty stems, shared paradigms, homonyms), all compile options',
  'One fixed 3-lexeme XML file is compiled by the tests.',
  [O+'compile.py',O+'parse.py',O+'storage.py'],[('_to_paradigm',O+'compile.py'),('parse_opencorpora_xml',O+'parse.py')],
  observe=['convert_to_pymorphy2 + MorphAnalyzer(path)','iter_known_word_parses','Parse.lexeme'])

p('C21','Linked lexemes are merged into one, losing and duplicating nothing',
  'Lexemes connected by links of inflectional types become one lexeme whose forms start with those of the link source the others derive from (links apply in the order of the source; a lexeme linked from several joins the first of them; redundant links change nothing); links of types 7, 21, 23 and 27 are ignored. '
  'Whatever the link graph (chains, several parents, duplicates, self-links, cycles), compilation terminates and every source form ends up in exactly one lexeme.',
  ['inputs'],'all link graphs over any lexicon',
  'The tests have one two-link example; graphs with cycles, several parents or late links are never tried.',
  [O+'compile.py'],[('_join_lexemes',O+'compile.py')],observe=['Parse.lexeme on compiled dictionaries'])

p('C22','Tag spellings are unified towards the most frequent one',
  'During compilation every tag has the redundant cases loc1/gen1/acc1 replaced by loct/gent/accs, and tags made of the same grammemes but spelled in a different order are all replaced by the most frequent spelling (unless no two of these spellings have the space at the same place), so a compiled dictionary never contains the redundant cases nor two reorderings of one tag with the space at the same place. '
  'The grammeme set of every form is otherwise unchanged.',
  ['inputs'],'all multisets of tags in a source lexicon',
  'Unit tests cover three hand-written cases.',
  [O+'preprocess.py'],[('simplify_tags',O+'preprocess.py')],observe=['tags in compiled dictionaries'])

p('C23','Prediction tables count endings of productive paradigms only',
  'The prediction tables of a compiled dictionary hold, for each form prefix and ending up to the maximum suffix length that covers the form\'s suffix, exactly the most frequent (paradigm, form) pairs per part of speech with their numbers of occurrences, counting only paradigms with at least min_paradigm_popularity lexemes, words with a non-empty stem, and endings seen at least min_ending_freq times.',
  ['inputs','configurations'],'all lexicons, all compile options',
  'No test inspects prediction tables of a compiled dictionary.',
  [O+'compile.py','pymorphy2/utils.py'],[('_suffixes_prediction_data',O+'compile.py'),('largest_elements','pymorphy2/utils.py')],
  observe=['prediction of unknown words with a compiled dictionary','prediction-suffixes-*.dawg'])

p('C24','Saved dictionaries load back identical; other formats are refused',
  'A dictionary written to disk and loaded again (by either DAWG backend) has the same words, paradigms, tags, suffixes, prediction tables, grammemes and metadata as the compiled one; the recorded metadata counts match the contents. '
  'Loading refuses any dictionary whose major format version differs, and accepts any minor version of the same major one; converting into an existing folder without overwrite leaves it untouched.',
  ['inputs','configurations'],'all compiled dictionaries, all format_version strings, both backends, existing/absent output folders',
  'Tests load two dictionaries and one toy conversion.',
  [O+'storage.py',O+'compile.py',O+'wrapper.py'],[('save_compiled_dict/load_dict',O+'storage.py'),('_assert_format_is_compatible',O+'storage.py'),('_create_out_path',O+'compile.py')],
  observe=['dictionary files','MorphAnalyzer(path)'])

p('C25','An interrupted conversion never yields a loadable wrong dictionary',
  'If conversion into a fresh folder is killed at any point, the folder afterwards either fails to load or loads as the complete dictionary; a partially written dictionary is never silently usable. '
  'The same holds when a write fails, when the folder has leftovers of an earlier interrupted conversion, and when a dictionary is overwritten: then the folder loads as the complete old dictionary, or not at all, or as the complete new one, in this order.',
  ['crash_points','fault_sequences'],'process death at any step of the conversion and failing writes of any file',
  'No test kills or fails a conversion.',
  [O+'storage.py',O+'compile.py'],[('meta.json is written last',O+'storage.py:save_compiled_dict')],
  [('files of the output folder','which dictionary files exist and are complete',O+'storage.py')],
  ['MorphAnalyzer(path) after a crash'])

p('C26','P(t|w) tables hold the Laplace-smoothed corpus estimates',
  'The P(t|w) table built from a disambiguated corpus contains, for every ambiguous word (more than one analysis) with at least the minimum frequency and non-uniform estimates, for each of its tags the Laplace-smoothed share (count+1)/(total+bins) in millionths, ignoring unknown, unambiguous and not fully disambiguated occurrences and letter case, and nothing else; the analyzer then returns these values as scores.',
  ['inputs'],'all corpora and minimum frequencies',
  'The builder needs corpora and NLTK and is not tested at all.',
  [O+'probability.py','pymorphy2/dawg.py'],[('estimate_conditional_tag_probability, build_cpd_dawg',O+'probability.py'),('ConditionalProbDistDAWG','pymorphy2/dawg.py')],
  observe=['p_t_given_w.intdawg','meta.json','Parse.score'])

p('C27','The command line prints each token with exactly the analyses requested',
  '"pymorphy parse" prints one line per token in input order, "token{...}", containing exactly the results the analyzer returns for the token whose score reaches the threshold, with lemmas, scores and tags as selected by the options (aggregated per lemma, best first, when tags are not requested), by the dictionary and language named by --dict and --lang; selecting scores alone is refused. '
  'The output does not depend on the cache size (0, n, unlimited). "pymorphy dict meta" prints every metadata entry of the chosen dictionary once, in order.',
  ['inputs','configurations','histories'],'all texts, all option combinations, all cache sizes and repeat patterns of tokens',
  'Tests run a few option combinations over two tiny texts, mostly checking that nothing fails.',
  ['pymorphy2/cli.py','pymorphy2/cache.py'],[('_TokenParserFormatter','pymorphy2/cli.py'),('lru_cache/memoized_with_single_argument','pymorphy2/cache.py')],
  [('token cache','formatted output per token','pymorphy2/cli.py')],['pymorphy2.cli.main','stdout'])

p('C28','Tokenization loses nothing but whitespace',
  'For every text the tokens concatenated equal the text with whitespace removed; each token is either a maximal run of letters, digits, underscores and hyphens or a single other non-space character.',
  ['inputs'],'all Unicode texts','Tests tokenize five sentences.',
  ['pymorphy2/tokenizers.py'],[('GROUPING_SPACE_REGEX','pymorphy2/tokenizers.py')],observe=['simple_word_tokenize'])

p('C29','Capitalization is restored part by part',
  'restore_capitalization(word, example) changes letter case only and makes each hyphen-separated part of the word lower, upper or title case as the corresponding part of the example is (lower case if the example part is of mixed case or missing; a non-hyphenated example applies to the whole word); restoring a word\'s own such capitalization is the identity.',
  ['inputs'],'all pairs of strings','A dozen doctest pairs.',
  ['pymorphy2/shapes.py'],[('restore_capitalization','pymorphy2/shapes.py')],observe=['restore_capitalization'])

p('C30','Backends and result types give the same answers',
  'For every string and the same dictionary, the C++ and the pure-Python DAWG backends give the same parses in the same order, and result_type=None gives plain tuples, and a custom result type its own instances, with the same contents as Parse objects, through parse, lexeme and iteration; units, prefix matching and dictionary iteration behave the same.',
  ['inputs','configurations'],'all strings × both backends × both result types',
  'The suite runs on both backends separately but never compares their outputs.',
  ['pymorphy2/dawg.py',A],[('PrefixMatcher selection','pymorphy2/dawg.py'),('result_type handling',A)],
  observe=['MorphAnalyzer(result_type=...)'])

p('C31','Dictionary and language selection follows the documented precedence',
  'The dictionary used is the path argument, else the PYMORPHY2_DICT_PATH environment variable, else the installed dictionary for the requested language (Russian by default), else ValueError; the analyzer\'s language is the lang argument or else the dictionary\'s own (Russian if neither path nor lang is given, and with a warning if the dictionary declares none), with a warning on mismatch. '
  'That language determines default units and substitute letters ("ru-old" behaving as "ru", unknown languages falling back to Russian defaults with a warning).',
  ['configurations'],'all combinations of path, environment, lang, dictionary language, installed dictionaries',
  'Tests cover four of the combinations.',
  [A],[('choose_dictionary_path, choose_language, lang_dict_path, _config_value',A)],observe=['MorphAnalyzer(...)','warnings'])

p('C32','Dictionary iteration enumerates exactly the known words with a prefix',
  'iter_known_word_parses(prefix) yields, without duplicates or omissions, exactly one parse per lexicon entry whose word starts with the prefix (all of them for the empty prefix), each equal (word, tag, normal form, lexeme) to the dictionary analysis of that word, with score 1; a word is known (strict) exactly when it is among them.',
  ['inputs','configurations'],'all prefixes, all dictionaries',
  'Tests iterate over two prefixes.',
  [A,O+'wrapper.py'],[('iter_known_word_parses',A),('iter_known_words',O+'wrapper.py')],observe=['MorphAnalyzer.iter_known_word_parses','MorphAnalyzer.word_is_known'])

p('C33','An interrupted P(t|w) estimation never gives mixed answers',
  'Adding P(t|w) estimates to a dictionary folder and being killed at any point, or failing (unreadable corpus, a write that fails), leaves a folder that answers exactly as before, or cannot be loaded, or answers exactly as after a complete estimation; once it no longer answers as before, it never does again. '
  'A dictionary that had no P(t|w) goes on working unchanged until the complete new table is in its folder, whatever table an earlier interruption left there. Only a complete estimation ends without an error.',
  ['crash_points','fault_sequences'],'process death at any step of an estimation, failing writes, torn tables, unreadable corpora; the first estimation and repeated ones',
  'No test kills or fails an estimation.',
  [O+'probability.py',O+'storage.py',A],[('the table is saved before the metadata is updated',O+'probability.py:add_conditional_tag_probability')],
  [('p_t_given_w.intdawg and meta.json','whether there is a table and whether it is complete',O+'probability.py')],
  ['MorphAnalyzer(path) after a crash'])

ids=[x['id'] for x in P]; assert len(ids)==len(set(ids))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w',encoding='utf8') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
