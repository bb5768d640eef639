#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.  A property is claimed when props/cXX.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = 'symbolic execution of the real Python source with an SMT solver (z3), bounded, counterexamples replayed'


def P(id, title, statement, over, text, tests, files, mechanism, observe, state=(), na=None, note=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mechanism=mechanism,
                observe=observe, state=state, na=na, note=note)


TABLE = [
    P('C01', 'Every integer becomes a numeral with its own text and grammatical class',
      'A numeral built from any integer shows exactly that integer in decimal and is an integer-type word. '
      'Its class depends on the absolute value as documented: a million or a billion; otherwise 10-19 in the last two digits means "other", a final 1 means "one", '
      'exactly 2-4 means "dual", any other final 2-4 means "composite dual", and everything else means "other"; '
      'the number is singular exactly for plus or minus one. Building other numerals before, after or in between changes nothing.',
      ['inputs'], 'all integers, negative, zero and arbitrarily large, with the process-wide numeral table built or not',
      'tests sample a few dozen integers; class boundaries repeat at every hundred and both signs, and the table border is one off-by-one away',
      ['utg/constructors.py'], [('classification of an integer', 'utg/constructors.py _construct_integer'), ('precomputed table', 'utg/constructors.py construct_integer')],
      ['form, number and integer class of the result of constructors.construct_integer']),
    P('C02', 'A noun or pronoun agrees with a numeral in form, number and case',
      'A noun or pronoun made dependent on a numeral takes the noun form, number and case that the documented rules give for the numeral class, the requested case and animacy. '
      'Under semantic dependency only the number follows the numeral: singular for class "one", plural otherwise, in the normal noun form. '
      'This holds for every combination of those features, directly and when a template is rendered.',
      ['inputs'], 'all values of numeral class, dependency mode, case, animacy, and of the other features, each given or left at its default',
      'the product of the feature groups has thousands of combinations; the tests check the listed rows only',
      ['utg/transformators.py'], [('rule for nouns', 'utg/transformators.py _noun_integer'), ('choice of a rule', 'utg/transformators.py transform')],
      ['features returned by transformators.transform', 'text of Template.substitute']),
    P('C03', 'An adjective, verb or participle agrees with a numeral in number and case',
      'An adjective, verb or participle made dependent on a numeral takes the number and case that the documented rules give for the numeral class, the requested case and the gender. '
      'Under semantic dependency only the number follows the numeral. This holds for every combination of those features, directly and when a template is rendered.',
      ['inputs'], 'all values of numeral class, dependency mode, case, gender, and of the other features, each given or left at its default',
      'the product of the feature groups has thousands of combinations; the tests check the listed rows only',
      ['utg/transformators.py'], [('rule for adjectives', 'utg/transformators.py _adjective_integer'), ('choice of a rule', 'utg/transformators.py transform')],
      ['features returned by transformators.transform', 'text of Template.substitute']),
    P('C04', 'Agreement touches only what its rule is about',
      'Pairs of parts of speech that have no agreement rule leave all requested features of the dependent word exactly as they were. '
      'Where a rule applies, only number, case and noun form (next to a numeral) or the preposition form may change. '
      'Agreement never modifies the features passed in, nor either of the two words.',
      ['inputs'], 'all pairs of parts of speech, all feature values',
      'tests check the positive cases; that nothing else changes is a statement about every other feature and every other pair',
      ['utg/transformators.py'], [('choice of a rule', 'utg/transformators.py transform'), ('rule table', 'utg/transformators.py _TRANSFORMATORS')],
      ['features before and after transformators.transform']),
    P('C05', 'A preposition takes the form its following word calls for',
      'A preposition ending in a consonant takes its alternative form before a one-syllable word with a fluent vowel displayed with an initial consonant cluster, and, for "в" and "с", before a displayed word that starts with that same consonant in a cluster. '
      'Other prepositions take the alternative form before a displayed word starting with a non-iotated vowel, except that "о" takes its special form before "всех", "мне", "всём", "что", "всей". '
      'In every other case, including an empty following word, the requested form stays.',
      ['inputs'], 'all short preposition texts, all short following words, with any form displayed, capitalised or not',
      'the rule depends on letters, on all forms of the word and on the displayed one; tests check a list of well-known phrases',
      ['utg/transformators.py', 'utg/words.py'], [('preposition rules', 'utg/transformators.py _preposition_any'), ('cluster of the displayed form', 'utg/words.py WordForm.starts_with_consonant_cluster')],
      ['preposition form returned by transformators.transform', 'text of Template.substitute']),
    P('C06', 'Sound facts of a word are true of its forms',
      'The reported number of syllables is the number of vowels in the first form, at least one. '
      'A fluent vowel is reported exactly when the vowels of the first form are not the beginning of the vowels of some other filled form; '
      'a consonant cluster exactly when the displayed form starts with two consonants or is a single consonant. '
      'The answers stay true when asked repeatedly, for several words, and after missing forms have been filled in.',
      ['inputs', 'histories'], 'all short forms over the Russian alphabet and other characters, any of them missing; facts asked before and after filling in',
      'tests use a handful of dictionary words and never the letter classes, empty forms and caching together',
      ['utg/words.py', 'utg/data.py', 'utg/utils.py'], [('syllables and fluent vowel', 'utg/words.py Word'), ('caching', 'utg/utils.py lazy_property')],
      ['number_of_syllables, has_fluent_vowel, starts_with_consonant_cluster']),
    P('C07', 'A word shows the stored form its effective features select',
      'For any requested features, a word displays the stored form of the slot matching its own features, then the requested ones, then the defaults. '
      'If that combination does not exist for the part of speech, the displayed form is that of an existing slot agreeing with it in the most features, later features preferred on ties. '
      'A request for a capital raises only the first letter of the displayed text (an empty form stays empty) and never changes the stored form.',
      ['inputs'], 'all parts of speech, all own and requested feature values, each given or not; all short texts for capitalisation',
      'the feature space has hundreds of thousands of combinations, most of them never looked up by a test',
      ['utg/words.py', 'utg/logic.py', 'utg/data.py', 'utg/restrictions.py'], [('lookup of a form', 'utg/words.py Word.form'), ('table of all combinations', 'utg/logic.py get_raw_caches'), ('capital letter', 'utg/words.py WordForm.get_form')],
      ['Word.form, Word.normal_form, WordForm.form']),
    P('C08', 'Form slots of each part of speech are exactly the documented ones, in order',
      'Each part of speech has exactly the slots of its layout, in the fixed order that stored words rely on: every sensible combination of its features once, features that make no sense together left blank. '
      'The slot keys, their indices, the number of forms and the sequence of all forms of a word describe the same layout. '
      'Every full combination of features leads to a slot, and a combination that a slot describes leads to that slot.',
      ['inputs'], 'all slots of all parts of speech, all full combinations of features',
      'stored words depend on the position of hundreds of slots; tests check one list per part of speech against itself or not at all',
      ['utg/logic.py', 'utg/restrictions.py', 'utg/data.py', 'utg/words.py'], [('slot generation', 'utg/logic.py get_caches'), ('restrictions', 'utg/restrictions.py'), ('all combinations', 'utg/logic.py get_raw_caches')],
      ['Word.get_keys, Word.get_forms_number, Word.all_forms, Word.form']),
    P('C09', 'The nearest available combination is never a worse match',
      'Looking for the nearest of several available feature combinations returns one of them. '
      'No other available one agrees with the wanted combination in more features, nor in equally many but later features (a blank agrees with a blank). '
      'With nothing available, nothing is returned.',
      ['inputs'], 'all wanted combinations and all lists of available ones up to the bound, blanks included',
      'the ranking is a weighted comparison whose corner cases are ties; tests check a few lists',
      ['utg/logic.py'], [('similarity', 'utg/logic.py get_nearest_key')], ['logic.get_nearest_key']),
    P('C10', 'Filling missing forms copies only from the closest given forms',
      'Filling in missing forms leaves every given form as it was and fills every missing one with the text of an originally given form whose slot matches it in the most features (a blank matches a blank), later features preferred. '
      'A word with no given form stays empty, a complete word is unchanged, and filling in twice changes nothing more.',
      ['inputs'], 'all patterns of given and missing forms for every part of speech (grouped by slot features for the large ones), all requested slots',
      'the number of patterns is exponential in the number of forms; tests try a few',
      ['utg/words.py', 'utg/logic.py'], [('filling in', 'utg/words.py Word.autofill_missed_forms'), ('similarity', 'utg/logic.py get_nearest_key')],
      ['forms of a word before and after autofill_missed_forms']),
    P('C11', 'Combining features: the last given value of each group wins',
      'A feature set built from features and other feature sets holds, for every group, the value given last, ignoring absent ones; a group not given reads as its default and is reported as not given. '
      'Extending a copy never changes the original, and an original changed later does not change a copy. '
      'The count of non-default features counts exactly the groups whose value differs from the default.',
      ['inputs', 'histories'], 'all feature values in all groups, each given or absent, in any order up to the bound',
      'tests combine two or three named features',
      ['utg/words.py', 'utg/data.py'], [('merging', 'utg/words.py Properties._update'), ('reading', 'utg/words.py Properties.get'), ('copy', 'utg/words.py Properties.clone')],
      ['Properties.get, is_specified, clone, manhattan_distance']),
    P('C12', 'Feature sets survive storage and text form',
      'Storing a feature set as JSON and reading it back gives an equal set, and unknown groups or unknown values in stored data are ignored without touching the others. '
      'The text form of any feature set parses back to an equal set, because every short name belongs to exactly one value.',
      ['inputs'], 'all subsets of feature groups with all values; stored data with arbitrary extra groups and values',
      'tests store a couple of feature sets',
      ['utg/words.py', 'utg/relations.py', 'utg/logic.py'], [('storage', 'utg/words.py Properties.serialize'), ('reading', 'utg/words.py Properties.deserialize'), ('short names', 'utg/logic.py get_verbose_to_relations')],
      ['Properties.serialize, deserialize, str()']),
    P('C13', 'Words survive storage, and only complete words exist',
      'A word can be built exactly when it has one form per slot of its part of speech, and otherwise a wrong-number-of-forms error tells both numbers; it has exactly the given features and forms. '
      'Storing a word as JSON and reading it back gives an equal word with the same forms for every request.',
      ['inputs'], 'all parts of speech, all numbers of forms, all form texts and own features within the bound',
      'tests store one word per part of speech at most',
      ['utg/words.py'], [('construction', 'utg/words.py Word.__init__'), ('storage', 'utg/words.py Word.serialize')],
      ['Word(...), Word.serialize, Word.deserialize, Word.form']),
    P('C14', 'Plain template text is reproduced exactly',
      'Rendering a template reproduces every character outside its variables exactly, whatever it is, percent signs, brackets and line breaks included, with each variable replaced in place by its text. '
      'This also holds when a template object is used to parse a second text and when it is stored and read back.',
      ['inputs', 'histories'], 'all texts up to the bound over letters, percent signs, brackets, bars, commas, spaces and line breaks',
      'tests use ordinary sentences',
      ['utg/templates.py'], [('finding variables', 'utg/templates.py Template.parse'), ('rendering', 'utg/templates.py Template.substitute')],
      ['Template.substitute']),
    P('C15', 'Every template variable is read as the documented format says',
      'A variable consists of a word or variable name followed by any number of parts, each an external variable name or a comma-separated list of short feature names, with surrounding spaces and letter case ignored. '
      'A capital first letter of the name asks for a capital and names are looked up in lower case; parts apply in order. '
      'An unknown feature name or an empty name is reported as such.',
      ['inputs'], 'all variable texts up to the bound over name characters, bars, commas and spaces; all feature names',
      'tests parse a few well-formed variables',
      ['utg/templates.py', 'utg/data.py'], [('parsing a variable', 'utg/templates.py Substitution.parse'), ('feature list', 'utg/templates.py Substitution.parse_properties')],
      ['Template.parse followed by serialize or substitute']),
    P('C16', 'A rendered variable takes its features in the documented order',
      'A variable shows the external of its name if there is one and the dictionary word otherwise. '
      'Its features are those of the found form, overridden by each named external and each feature list in the order written, then by the word\'s own features; the agreement rules then apply for each named external in that order. '
      'A leading capital in the name capitalises the result.',
      ['inputs'], 'all feature values of the found form, the externals and the feature lists, all orders of parts up to the bound',
      'tests render fixed phrases; the order of overriding shows only in combinations',
      ['utg/templates.py', 'utg/words.py', 'utg/transformators.py'], [('collecting features', 'utg/templates.py Substitution._list_propeties'), ('rendering', 'utg/templates.py Substitution.get_text')],
      ['Template.substitute']),
    P('C17', 'Stored templates mean the same after reading back',
      'Storing a template as JSON and reading it back gives an equal template that stores to the same data and renders the same text for the same words. '
      'Templates that differ in text, names or parts are not equal.',
      ['inputs'], 'all templates made of arbitrary text, names and parts within the bound',
      'tests store one template',
      ['utg/templates.py', 'utg/words.py'], [('storage', 'utg/templates.py Template.serialize'), ('reading', 'utg/templates.py Template.deserialize')],
      ['Template.serialize, deserialize, substitute']),
    P('C18', 'The report of missing words is exact',
      'The list of missing words contains, in order and with repetitions, exactly the names that are neither externals nor in the dictionary. '
      'When every part names a given external, the template renders if that list is empty, and rendering reports one of the listed words as not found if it is not.',
      ['inputs'], 'all templates of up to the bound of variables, all sets of externals and dictionary words',
      'tests check one template',
      ['utg/templates.py', 'utg/dictionary.py'], [('missing words', 'utg/templates.py Template.get_undictionaried_words'), ('lookup', 'utg/dictionary.py Dictionary.get_word')],
      ['Template.get_undictionaried_words, Template.substitute']),
    P('C19', 'The dictionary keeps the preferred word for an ambiguous text',
      'When several forms have the same text, a lookup gives the one whose part of speech comes first, then whose word has the smaller list of forms, then with fewer non-default features, and among full ties the one added first. '
      'Apart from full ties the answer does not depend on the order in which words were added.',
      ['inputs', 'histories'], 'all pairs and triples of words up to the bound in all orders of addition, all forms and own features',
      'tests add a few words in one or two orders; the ranking compares three criteria per form',
      ['utg/dictionary.py'], [('choice between forms', 'utg/dictionary.py Dictionary.add_word')],
      ['Dictionary.get_word']),
    P('C20', 'The dictionary finds every form it was given and nothing else',
      'After adding words, a text is known exactly when it is a displayed form of some added word, and looking it up gives a form with exactly that text of one of the added words. '
      'Any other text is unknown and its lookup is reported as an error; the set of words contains only added words.',
      ['inputs', 'histories'], 'all words with short forms, any of them coinciding or empty; all lookups',
      'tests look up the words they added',
      ['utg/dictionary.py', 'utg/words.py'], [('adding', 'utg/dictionary.py Dictionary.add_word'), ('lookup', 'utg/dictionary.py Dictionary.get_word')],
      ['Dictionary.has_word, get_word, get_words']),
    P('C21', 'Lexicon selection returns exactly the templates whose restrictions are met',
      'For a key and given restrictions the lexicon offers exactly the templates added under that key whose own restrictions are all among the given ones, in the order added. '
      'A random template is always one of these and each of them can be drawn; an unknown key and an empty choice are two different reported errors.',
      ['inputs', 'histories', 'schedules'], 'all sets of restrictions of templates and requests over the bound, all outcomes of the random choice',
      'tests draw at random a few times from small lexicons',
      ['utg/lexicon.py'], [('filter', 'utg/lexicon.py Lexicon.get_templates'), ('random choice', 'utg/lexicon.py Lexicon.get_random_template')],
      ['Lexicon.get_templates, get_random_template, has_key']),
    P('C22', 'The nearest lexicon choice takes the most specific allowed templates',
      'A random nearest template is always one of the allowed templates meeting the largest number of the given restrictions, and each such template can be drawn. '
      'An unknown key and an empty choice are two different reported errors.',
      ['inputs', 'histories', 'schedules'], 'all sets of restrictions of templates and requests over the bound, all outcomes of the random choice',
      'tests draw at random a few times from small lexicons',
      ['utg/lexicon.py'], [('nearest', 'utg/lexicon.py Lexicon.get_random_nearest_template')],
      ['Lexicon.get_random_nearest_template']),
    P('C23', 'Equality and hashing of feature sets, words, word forms and templates are lawful',
      'Two feature sets are equal exactly when they hold the same given features, two words when part of speech, features and forms are equal, two word forms when words and features are equal, two templates when text and variables are equal; anything of another kind is unequal. '
      'Equality is reflexive and symmetric, inequality is its negation, and equal feature sets, words and word forms have equal hashes, however they were built.',
      ['inputs'], 'all pairs of objects with arbitrary features and short texts',
      'tests compare a few objects; hash agreement must hold for every pair of equal ones',
      ['utg/words.py', 'utg/templates.py'], [('feature sets', 'utg/words.py Properties'), ('words', 'utg/words.py Word'), ('word forms', 'utg/words.py WordForm')],
      ['==, !=, hash()']),
    P('C24', 'Migrations carry every stored form to its slot of the new layout',
      'Migrating stored word data to the next layout puts the text of each slot that both layouts have into that slot of the new one, '
      'and gives every new slot the text of an old slot agreeing with it in every feature both layouts know; it produces exactly as many forms as the new layout has and changes nothing else. '
      'Applying the migrations in order leads to the current layout, where each word shows the same text for the same features; '
      'data of parts of speech a migration is not about is left as it was.',
      ['inputs'], 'all parts of speech, all slots, arbitrary texts in the stored forms',
      'the migrations have no tests; layouts have up to 291 slots',
      ['utg/migrations'], [('generic migration', 'utg/migrations')],
      ['form lists before and after migrate']),
    P('C25', 'Rendering is repeatable and objects do not disturb each other',
      'Rendering the same template with equal words gives the same text every time, whatever else was parsed, rendered, looked up or compared in between. '
      'Parsing, rendering and looking up change neither words, dictionaries, templates, features nor externals, and separately created objects share no state.',
      ['histories'], 'all short sequences of operations on two templates, two dictionaries, two words and two lexicons',
      'tests use fresh objects; shared state shows only in sequences',
      ['utg/templates.py', 'utg/words.py', 'utg/dictionary.py', 'utg/lexicon.py'], [('rendering', 'utg/templates.py Substitution.get_text'), ('caching', 'utg/utils.py lazy_property')],
      ['Template.substitute, serialize of all objects involved']),
    P('C26', 'Bad input is reported with the documented errors',
      'For any template text, parsing either succeeds or reports an unknown feature name or a wrong variable format, and rendering a parsed template either succeeds or reports a missing word or a missing external. '
      'The errors carry the offending text, and no input makes the library fail in any other way.',
      ['inputs'], 'all template texts up to the bound over brackets, bars, commas, percent signs, spaces, letters; all sets of externals',
      'tests check one example per error',
      ['utg/templates.py', 'utg/exceptions.py', 'utg/dictionary.py'], [('parsing', 'utg/templates.py Substitution.parse'), ('rendering', 'utg/templates.py Substitution.get_text')],
      ['exceptions raised by Template.parse and Template.substitute']),
    P('C27', 'Random choices give every suitable template the same chance',
      'Whenever the lexicon draws a template, plainly or among the nearest ones, every suitable template has the same chance, provided the answers of the random generator are uniform and independent; '
      'a template added several times counts that many times.',
      ['inputs', 'schedules'], 'all lexicons of up to four templates, all sets of restrictions on each and in the request, all answers of the generator',
      'a probability cannot be decided from a few draws; an index off by one still returns only suitable templates',
      ['utg/lexicon.py'], [('random choice', 'utg/lexicon.py Lexicon.get_random_template'), ('nearest choice', 'utg/lexicon.py Lexicon.get_random_nearest_template')],
      ['share of each template among all answers of Lexicon.get_random_template and get_random_nearest_template']),
    P('C28', 'Published names and stored codes keep their meaning',
      'Every short name in the documentation names the documented value of its group in a template, and every value shows that meaning and that short name. '
      'The numeric codes and field names found in data stored by this release read back as the same features, words and templates: '
      'a stored word shows each of its forms for the features documented for that position, a stored template renders the same text, and both are written back unchanged.',
      ['inputs'], 'all 68 published names, all stored codes of all groups, all parts of speech with all values of the groups of their slots',
      'round-trip tests write and read with the same code, so a renumbering or a swap of two names goes unseen until old data or old templates are read',
      ['utg/relations.py', 'utg/words.py', 'utg/templates.py', 'README.rst'],
      [('names and codes', 'utg/relations.py'), ('storage', 'utg/words.py Properties.deserialize, Word.deserialize'), ('storage of templates', 'utg/templates.py Template.deserialize')],
      ['features of parsed names and of deserialized data, text shown by words and templates read from storage']),
    P('C29', 'The sentences of the documentation come out right for whoever fills them',
      'Each example sentence of the documentation, rendered for any number, any gender, number and animacy of its variables and any form of its words used in the template, '
      'is exactly the sentence the documented rules give: variables in the case asked for, verbs and adjectives in the gender and number of their variable, '
      'counted nouns in the form the number calls for under full or semantic dependency, capitals where the name is capitalised.',
      ['inputs'], 'all numbers up to ten billion in size, all genders, numbers and animacies of the variables, all cases, all past forms of the verb as written',
      'the one end-to-end test renders one sentence for one number and two people',
      ['README.rst', 'utg/templates.py', 'utg/words.py', 'utg/dictionary.py', 'utg/transformators.py', 'utg/constructors.py'],
      [('rendering', 'utg/templates.py Template.substitute'), ('agreement', 'utg/transformators.py transform'), ('looking up', 'utg/dictionary.py Dictionary.get_word')],
      ['text returned by Template.substitute']),
]

NOTES = {}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in TABLE:
            anchors = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']], 'observe_at': p['observe'], 'hook_needed': None}
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['tests'], 'anchors': anchors}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in TABLE:
        if os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                           'technique': T, 'level': 'model_checking', 'evidence_file': 'evidence/%s.json' % p['id'],
                           'level_note': p['note'] or 'Every value within the bounds listed per scenario in the evidence file is decided by z3 over the real source, re-read on every run; '
                           'nothing is said outside the bounds. Trusted: the symbolic models of Python strings, dictionaries and regular expressions in sx/ '
                           '(cross-checked on every run by replaying path models on the unmodified code) and the oracle written in props/.'})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'no check yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo: the source is instrumented in memory when it is imported. Run ./check ID -v for details, --replay FILE for a violation.'},
                  f, ensure_ascii=False, indent=1)
        f.write('\n')


main()
