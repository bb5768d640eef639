# What a dictionary knows.
import unicodedata

from sx.scenario import Scenario

from utg import dictionary
from utg import exceptions
from utg import relations as r
from utg import words

from props import common as c
from props import vocabulary

W = r.WORD_TYPE
WIDE = c.LETTERS + 'abceopxyABCEHKMOPTX0123 \t\n\xa0\xad-–\u2011\'"\u2019«».,!?%[]|\u0301\u0306\u0308\u200b'


def same_word(ctx, word, entry):
    return ctx.And(word.type == entry.kind, *[ctx.same_text(a, b) for a, b in zip(word.forms, entry.forms)])


def verdict(ctx, known, entries, text, label=''):
    here = [ctx.same_text(e.text, text) for e in entries]
    expected = ctx.Or(*here)
    has = known.has_word(text)
    ctx.check(ctx.Iff(has, expected), 'known' + label)
    got, error = ctx.raises(known.get_word, text)
    ctx.check(ctx.Iff(error is None, expected), 'found' + label)
    if error is None:
        ctx.check(ctx.same_text(got.form, text), 'text-found' + label)
        ctx.check(ctx.Or(*[ctx.And(h, same_word(ctx, got.word, e)) for h, e in zip(here, entries) if h is not False]), 'word-with-that-form' + label)
        held = [w for w in known.get_words()]
        ctx.check(ctx.Or(*[ctx.Eq(w, got.word) for w in held]), 'found-word-listed' + label)
    else:
        ctx.check(isinstance(error, exceptions.NoWordsFoundError), 'not-found-error' + label)
        ctx.check(ctx.same_text(error.arguments['text'], text), 'text-of-error' + label)
    ctx.observe('has', has)


def listed(ctx, known, entries, label=''):
    firsts = []
    for e in entries:
        if not any(o.word is e.word for o in firsts):
            firsts.append(e)
    for w in known.get_words():
        ctx.check(ctx.Or(*[same_word(ctx, w, e) for e in firsts]), 'only-added-words' + label)


def some_word(ctx, name, kind, slots, alphabet, lengths, own_options):
    size = c.SIZES[kind.name]
    texts = ['%s%03d' % (name, i) for i in range(size)]
    for s in slots:
        texts[s] = ctx.string('%s.f%d' % (name, s), lengths[0], lengths[1], alphabet)
    own = {}
    for o in own_options:
        if isinstance(o, dict):
            own.update(o)
        else:
            value = ctx.record('%s.%s' % (name, o.__name__), o, none=True)
            if value is not None:
                own[o] = value
    return vocabulary.build(kind, texts, own), kind, texts, own


def lookup(ctx, specs, alphabet, length, incremental=False):
    entries, made = [], []
    known = dictionary.Dictionary()
    text = ctx.string('text', 0, length, alphabet)
    for i, spec in enumerate(specs):
        word, kind, texts, own = some_word(ctx, 'w%d' % i, *spec)
        entries.extend(vocabulary.entries(word, kind, texts, own, len(entries)))
        made.append(word)
        if incremental:
            known.add_word(word)
            verdict(ctx, known, entries, text)
    if not incremental:
        known = dictionary.Dictionary(words=made)
        verdict(ctx, known, entries, text)
    listed(ctx, known, entries)


def every_slot(ctx, kind, own):
    """Every displayed form of a word is found."""
    word = vocabulary.build(kind, ['x%03d' % i for i in range(c.SIZES[kind.name])], own)
    entries = vocabulary.entries(word, kind, list(word.forms), own)
    known = dictionary.Dictionary(words=[word])
    texts = sorted(set(e.text for e in entries))
    i = ctx.int('i', 0, len(texts) - 1)
    text = texts[i]
    ctx.check(known.has_word(text), 'known')
    got = known.get_word(text)
    ctx.check(ctx.same_text(got.form, text), 'text-found')
    ctx.check(ctx.Eq(got.word, word), 'word-found')
    # stored forms that are not displayed are unknown, and so is any other text
    other = ctx.string('other', 4, 4, 'xX01234')
    expected = ctx.Or(*[ctx.same_text(other, t) for t in texts])
    ctx.check(ctx.Iff(known.has_word(other), expected), 'nothing-else')
    ctx.observe('text', got.form)


def features(ctx, kind, own_groups):
    """Asking a found form for its text again gives the text, with the features it is reported with."""
    own = {}
    for g in own_groups:
        value = ctx.record('own.%s' % g.__name__, g, none=True)
        if value is not None:
            own[g] = value
    word = vocabulary.build(kind, ['x%03d' % i for i in range(c.SIZES[kind.name])], own)
    known = dictionary.Dictionary(words=[word])
    i = ctx.int('i', 0, c.SIZES[kind.name] - 1)
    text = word.forms[i]
    if known.has_word(text):
        got = known.get_word(text)
        ctx.check(ctx.same_text(word.form(got.properties), text), 'features-select-the-form')
        for g in own:
            ctx.check(ctx.Eq(got.properties.get(g), own[g]), 'own-features')
        ctx.cover('found')


def two_dictionaries(ctx):
    """Dictionaries made separately know their own words only."""
    a, b = ctx.string('a', 1, 1, 'абв'), ctx.string('b', 1, 1, 'абв')
    first = dictionary.Dictionary()
    second = dictionary.Dictionary()
    first.add_word(words.Word(type=W.TEXT, forms=[a]))
    third = dictionary.Dictionary()
    second.add_word(words.Word(type=W.TEXT, forms=[b]))
    text = ctx.string('text', 1, 1, 'абв')
    ctx.check(ctx.Iff(first.has_word(text), ctx.same_text(text, a)), 'first')
    ctx.check(ctx.Iff(second.has_word(text), ctx.same_text(text, b)), 'second')
    ctx.check(not third.has_word(text), 'third')
    ctx.check(len(third.get_words()) == 0, 'nothing-listed')
    ctx.check(len(first.get_words()) == 1, 'one-listed')


def odd(ctx):
    """Texts that look alike are different."""
    kept = ctx.choose('word', c.ODD)
    way = ctx.choose('asked', ['same', 'lower', 'upper', 'title', 'casefold', 'swapcase', 'strip', 'NFC', 'NFD', 'NFKC', 'NFKD'])
    asked = kept
    if way.startswith('NF'):
        asked = unicodedata.normalize(way, kept)
    elif way != 'same':
        asked = getattr(kept, way)()
    tail = ctx.string('tail', 0, 1, 'аА')
    word = vocabulary.build(W.TEXT, [kept + tail], {})
    known = dictionary.Dictionary(words=[word])
    verdict(ctx, known, vocabulary.entries(word, W.TEXT, [kept + tail], {}, 0), asked + ctx.string('end', 0, 1, 'аА'))


def large(ctx, number, width):
    """Many words, long forms."""
    made = ['слово%d' % i * width for i in range(number)]
    last = ctx.string('last', 1, 1, 'аб-')
    made.append('слово' * width + last)
    known = dictionary.Dictionary()
    for i, text in enumerate(made):
        known.add_word(words.Word(type=W.TEXT, forms=[text]))
    text = ctx.choose('text', [made[0], made[0] + 'а', made[number // 2][:-1], made[number - 1], 'слово' * width]) + ctx.string('tail', 0, 1, 'аб0')
    expected = ctx.Or(*[ctx.same_text(text, m) for m in made])
    ctx.check(ctx.Iff(known.has_word(text), expected), 'known')
    got, error = ctx.raises(known.get_word, text)
    ctx.check(ctx.Iff(error is None, expected), 'found')
    if error is None:
        ctx.check(ctx.same_text(got.form, text), 'text-found')
    ctx.check(len(known.get_words()) == len(made), 'all-listed')


def gone(ctx, kind, number):
    """Words that nobody but the dictionary may hold after they were added."""
    known = dictionary.Dictionary()
    size = c.SIZES[kind.name]
    texts = [ctx.string('w%d' % i, 0, 1, 'аб') for i in range(number)]
    for i in range(number):
        word = words.Word(type=kind, forms=[texts[i]] * size)
        known.add_word(word)
        del word
        for j in range(number):
            expected = ctx.Or(*[ctx.same_text(texts[k], texts[j]) for k in range(i + 1)])
            ctx.check(ctx.Iff(known.has_word(texts[j]), expected), 'known-gone')
    for text in texts:
        found = known.get_word(text)
        ctx.check(ctx.same_text(found.form, text), 'found-gone')
        ctx.check(ctx.same_text(found.word.forms[0], text), 'word-gone')
    ctx.observe('last', found.form)


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []
    A = 'аБ'
    T, P, N = W.TEXT, W.PREPOSITION, W.NOUN
    U = {r.WORD_CASE: r.WORD_CASE.UPPER}

    def add(name, specs, bounds, alphabet=A, length=1, incremental=False):
        out.append(Scenario(name, lookup, bounds, dict(specs=specs, alphabet=alphabet, length=length, incremental=incremental)))
    add('text', [(T, [0], A, (0, 2), [r.NUMBER])], 'a TEXT word of up to 2 letters, every text of up to 2', length=2)
    add('texts', [(T, [0], A, (0, 1), [])] * 3, 'three TEXT words of up to one letter, every text')
    add('texts-one-by-one', [(T, [0], A, (0, 1), [])] * 3, 'three TEXT words of up to one letter, every text, after each addition', incremental=True)
    add('any-letter', [(T, [0], WIDE, (1, 1), [])] * 2, 'two TEXT words of one character, every text of up to one, over both alphabets, digits and signs', alphabet=WIDE, incremental=True)
    add('any-letters', [(T, [0], WIDE, (0, 2), [])], 'a TEXT word of up to 2 characters, every text of up to 2, over both alphabets, digits and signs', alphabet=WIDE, length=2)
    add('any-letter-capital', [(P, [0, 1], WIDE, (0, 1), [U])], 'a preposition always with a capital, forms of up to one character, every text of up to 2', alphabet=WIDE, length=2)
    add('prepositions', [(P, [0, 1, 2], A, (0, 1), [])], 'a preposition, all forms of up to one letter, every text')
    add('prepositions-two', [(P, [0, 2], A, (0, 1), [])] * 2, 'two prepositions, two forms of up to one letter, every text')
    add('prepositions-special', [(P, [0, 1, 2], A, (0, 1), [{r.PREPOSITION_FORM: r.PREPOSITION_FORM.SPECIAL}]), (P, [0, 1], A, (0, 1), [])],
        'two prepositions, one always in the special form, every text')
    add('capital', [(P, [0, 1], 'аАб', (0, 2), [U])], 'a preposition always with a capital, forms of up to 2 letters, every text', alphabet='аАбБ', length=2)
    add('capital-two', [(T, [0], 'аА', (0, 2), [U]), (T, [0], 'аА', (0, 2), [])], 'a text with a capital and one without, of up to 2 letters, every text', alphabet='аА', length=2)
    add('noun', [(N, [0, 6, 17], A, (0, 1), [r.ANIMALITY])], 'a noun, three forms of up to one letter, every text')
    add('noun-plural', [(N, [0, 6, 17], A, (0, 1), [{r.NUMBER: r.NUMBER.PLURAL}])], 'a noun that is always plural, three forms of up to one letter, every text')
    add('noun-singular', [(N, [0, 6, 12], A, (0, 1), [{r.NUMBER: r.NUMBER.SINGULAR}]), (T, [0], A, (0, 1), [])], 'a noun that is always singular and a text, every text')
    add('noun-verb', [(N, [5, 11], A, (0, 1), []), (W.VERB, [0, 19], A, (0, 1), [r.ASPECT])], 'a noun and a verb, two forms of up to one letter each, every text')
    add('adjective', [(W.ADJECTIVE, [0, 50, 100], A, (0, 1), [])], 'an adjective, three forms of up to one letter, every text')
    for kind in W.records:
        variants = [{}, U]
        for rel in c.SCHEMAS[kind.name]:
            for record in rel.records if deep or len(rel.records) < 3 else rel.records[1:2]:
                variants.append({rel: record})
        for own in variants:
            if any(len(slots) > 1 for slots in vocabulary.shown_slots(kind, own)):
                continue  # which form is displayed is not settled by the statement
            name = '-'.join(['slots', kind.name] + ['%s.%s' % (rel.__name__, x.name) for rel, x in own.items()])
            out.append(Scenario(name, every_slot, 'every displayed form, every text of 4 characters', dict(kind=kind, own=own)))
        if c.SIZES[kind.name] < 30 or deep:
            groups = c.SCHEMAS[kind.name][:2] + [r.ASPECT]
            out.append(Scenario('features-' + kind.name, features, 'every %s (given or not), every slot' % ', '.join(g.__name__ for g in groups), dict(kind=kind, own_groups=groups)))
    for kind in (W.TEXT, W.PREPOSITION):
        out.append(Scenario('gone-' + kind.name, gone, 'four words of up to one letter, kept by nobody else', dict(kind=kind, number=4)))
    out.append(Scenario('odd', odd, '27 unusual letters asked in ten other spellings', {}))
    out.append(Scenario('large-words', large, '150 words, a text that may differ in its last character', dict(number=150, width=1)))
    out.append(Scenario('large-forms', large, 'nine words of up to 400 letters, a text that may differ in its last character', dict(number=8, width=66)))
    out.append(Scenario('separate', two_dictionaries, 'three dictionaries, words of one letter', {}))
    if deep:
        add('texts-four', [(T, [0], 'абв', (0, 1), [])] * 4, 'four TEXT words of up to one letter, every text, after each addition', alphabet='абвг', incremental=True)
        add('nouns', [(N, [0, 17], A, (0, 1), [r.ANIMALITY])] * 2, 'two nouns, two forms of up to one letter, every text', incremental=True)
        add('participle', [(W.PARTICIPLE, [0, 147], A, (0, 1), [r.ASPECT])], 'a participle, two forms of up to one letter, every text')
        add('pronoun', [(W.PRONOUN, [0, 24, 47], A, (0, 1), [r.PERSON])], 'a pronoun, three forms of up to one letter, every text')
        add('longer', [(P, [0, 1, 2], 'аб', (0, 2), [])] * 2, 'two prepositions, all forms of up to 2 letters, every text', alphabet='аб', length=2)
    return out
