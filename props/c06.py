# Sound facts of a word: syllables, fluent vowel, consonant cluster.
from sx.scenario import Scenario

from utg import relations as r
from utg import words

from props import common as c
from props import phonetics

ALPHABET = c.EVERY


def syllables(ctx, length):
    text = ctx.string('base', 0, length, ALPHABET)
    word = words.Word(type=r.WORD_TYPE.TEXT, forms=[text])
    expected = phonetics.syllables(text)
    ctx.check(word.number_of_syllables == expected, 'number-of-syllables')
    ctx.check(word.number_of_syllables == expected, 'number-of-syllables-again')
    ctx.observe('syllables', word.number_of_syllables)


def fluent(ctx, lengths, twice):
    forms = [ctx.string('f%d' % i, 0 if i else 1, n, ALPHABET) for i, n in enumerate(lengths)]
    if len(forms) < 3:
        forms = forms + [''] * (3 - len(forms))
    word = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=forms)
    expected = phonetics.fluent(ctx, forms)
    value = word.has_fluent_vowel
    ctx.check(ctx.Iff(value, expected), 'fluent-vowel')
    if twice:
        ctx.check(ctx.Iff(word.has_fluent_vowel, expected), 'fluent-vowel-again')
    ctx.observe('fluent', value)


def fluent_position(ctx, kind, length):
    """The change of vowels sits in one arbitrary form of a full-size word."""
    base = ctx.string('base', 1, length, 'ваоАы')
    other = ctx.string('other', 0, length, 'ваоАы')
    position = ctx.choose('position', c.SIZES[kind.name] - 1) + 1
    forms = [base] * c.SIZES[kind.name]
    forms[position] = other
    word = words.Word(type=kind, forms=forms)
    ctx.check(ctx.Iff(word.has_fluent_vowel, phonetics.fluent(ctx, [base, other])), 'fluent-vowel-any-form')
    ctx.check(word.number_of_syllables == phonetics.syllables(base), 'syllables-of-first-form')
    ctx.observe('fluent', word.has_fluent_vowel)


def cluster(ctx, length):
    text = ctx.string('form', 0, length, ALPHABET)
    upper = ctx.record('size', r.WORD_CASE, none=True)
    word = words.Word(type=r.WORD_TYPE.TEXT, forms=[text])
    form = words.WordForm(word, words.Properties(upper))
    expected = phonetics.cluster(form.form)
    ctx.check(ctx.Iff(form.starts_with_consonant_cluster, expected), 'cluster')
    ctx.check(ctx.Iff(form.starts_with_consonant_cluster, expected), 'cluster-again')
    ctx.check(ctx.Iff(form.starts_with_consonant_cluster, phonetics.cluster(text)), 'cluster-ignores-capital')
    ctx.observe('cluster', form.starts_with_consonant_cluster)


def cluster_of_form(ctx):
    """The fact is about the displayed form, not about the first one."""
    forms = [ctx.string('f%d' % i, 0, 2, c.LETTERS) for i in range(3)]
    which = ctx.record('which', r.PREPOSITION_FORM, none=True)
    word = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=forms)
    form = words.WordForm(word, words.Properties(which))
    shown = forms[0]
    if which == r.PREPOSITION_FORM.ALTERNATIVE:
        shown = forms[1]
    elif which == r.PREPOSITION_FORM.SPECIAL:
        shown = forms[2]
    ctx.check(ctx.Iff(form.starts_with_consonant_cluster, phonetics.cluster(shown)), 'cluster-of-displayed-form')
    ctx.check(ctx.same_text(form.form, shown), 'form')
    ctx.observe('cluster', form.starts_with_consonant_cluster)


def after_autofill(ctx, first):
    """Facts asked for before missing forms are filled in describe the word afterwards too."""
    forms = [ctx.string('f%d' % i, 0, 2, 'ваоы') for i in range(3)]
    word = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=forms)
    if 'syllables' in first:
        word.number_of_syllables
    if 'fluent' in first:
        word.has_fluent_vowel
    word.autofill_missed_forms()
    ctx.check(word.number_of_syllables == phonetics.syllables(word.forms[0]), 'syllables-after-autofill')
    ctx.check(ctx.Iff(word.has_fluent_vowel, phonetics.fluent(ctx, word.forms)), 'fluent-after-autofill')
    ctx.observe('syllables', word.number_of_syllables)


def two_words(ctx):
    """Facts of one word are not those of another."""
    a = ctx.string('a', 0, 2, 'ваоы')
    b = ctx.string('b', 0, 2, 'ваоы')
    first = words.Word(type=r.WORD_TYPE.TEXT, forms=[a])
    second = words.Word(type=r.WORD_TYPE.TEXT, forms=[b])
    ctx.check(first.number_of_syllables == phonetics.syllables(a), 'first')
    ctx.check(second.number_of_syllables == phonetics.syllables(b), 'second')
    ctx.check(ctx.Iff(words.WordForm(first).starts_with_consonant_cluster, phonetics.cluster(a)), 'first-cluster')
    ctx.check(ctx.Iff(words.WordForm(second).starts_with_consonant_cluster, phonetics.cluster(b)), 'second-cluster')
    ctx.observe('n', second.number_of_syllables)


def after_gone(ctx):
    """A word that is created when another one is gone."""
    texts = [[ctx.string('f%d%d' % (i, j), 0, 1 + j, 'ва') for j in range(2)] for i in range(2)]
    for i in (0, 1, 0, 1):
        made = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=texts[i] + [''])
        shown = words.WordForm(made)
        ctx.check(ctx.Iff(made.has_fluent_vowel, phonetics.fluent(ctx, texts[i])), 'fluent-%d' % i)
        ctx.check(made.number_of_syllables == phonetics.syllables(texts[i][0]), 'syllables-%d' % i)
        ctx.check(ctx.Iff(shown.starts_with_consonant_cluster, phonetics.cluster(texts[i][0])), 'cluster-%d' % i)
        del shown
        del made
    ctx.observe('done', 1)


def alike(ctx, kind):
    """Two words of one kind that share their first form."""
    base = ctx.string('base', 1, 2, 'ваоА')
    forms = [[base, ctx.string('other%d' % i, 0, 2, 'ваоА')] + [''] * (c.SIZES[kind.name] - 2) for i in range(2)]
    made = [words.Word(type=kind, forms=f, properties=words.Properties(r.GENDER.FEMININE)) for f in forms]
    for i in (0, 1, 0):
        ctx.check(ctx.Iff(made[i].has_fluent_vowel, phonetics.fluent(ctx, forms[i])), 'fluent-%d' % i)
        ctx.check(made[i].number_of_syllables == phonetics.syllables(base), 'syllables-%d' % i)
        shown = words.WordForm(made[i])
        ctx.check(ctx.Iff(shown.starts_with_consonant_cluster, phonetics.cluster(base)), 'cluster-%d' % i)
    ctx.observe('fluent', made[1].has_fluent_vowel)


def own_features(ctx, kinds):
    """The facts of a word do not depend on the features it carries of its own."""
    kind = ctx.choose('kind', kinds)
    base = ctx.string('base', 1, 2, 'ва')
    other = ctx.string('other', 0, 3, 'аоА')
    own = c.properties(ctx, 'own', [], kind.properties)
    word = words.Word(type=kind, forms=[base] + [other] * (c.SIZES[kind.name] - 1), properties=own)
    ctx.check(word.number_of_syllables == phonetics.syllables(base), 'syllables-own')
    if len(word.forms) < 20:
        ctx.check(ctx.Iff(word.has_fluent_vowel, phonetics.fluent(ctx, [base, other])), 'fluent-own')
    ctx.observe('syllables', word.number_of_syllables)


def long_forms(ctx, filler, times):
    """Long forms with arbitrary characters at both ends."""
    head = ctx.string('head', 0, 1, ALPHABET)
    tail = ctx.string('tail', 0, 1, ALPHABET)
    other = ctx.string('other', 0, 1, ALPHABET)
    middle = filler * ctx.choose('times', times)
    forms = [head + middle + tail, '', middle + other]
    word = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=forms)
    expected = phonetics.syllables(forms[0])
    ctx.check(word.number_of_syllables == expected, 'number-of-syllables')
    ctx.check(ctx.Iff(word.has_fluent_vowel, phonetics.fluent(ctx, forms)), 'fluent-vowel')
    form = words.WordForm(word)
    ctx.check(ctx.Iff(form.starts_with_consonant_cluster, phonetics.cluster(forms[0])), 'cluster')
    ctx.observe('syllables', word.number_of_syllables)


def SCENARIOS(tier):
    deep = tier == 'thorough'
    n = 9 if deep else 6
    letters = 'ASCII, Cyrillic and common signs'
    out = [
        Scenario('syllables', syllables, 'every first form of up to %d characters (%s)' % (n, letters), dict(length=n)),
        Scenario('fluent-2', fluent, 'every two forms of up to 4 and 4 characters' if deep else 'every two forms of up to 3 characters', dict(
            lengths=(4, 4) if deep else (3, 3), twice=True)),
        Scenario('fluent-3', fluent, 'every three forms of up to 2, 3 and 3 characters' if deep else 'every three forms of up to 2 characters', dict(
            lengths=(2, 3, 3) if deep else (2, 2, 2), twice=False)),
        Scenario('cluster', cluster, 'every displayed form of up to 4 characters, capitalised or not', dict(length=4)),
        Scenario('cluster-of-form', cluster_of_form, 'three forms of up to 2 letters, every choice of form', {}),
        Scenario('long', long_forms, 'forms of up to 200 letters with any character at either end', dict(filler='стараюсьё', times=[1, 2, 4, 22])),
        Scenario('own-features', own_features, 'words of every kind with several forms, two texts of up to 2 and 3 characters, every feature of their own given or not', dict(
            kinds=[t for t in r.WORD_TYPE.records if c.SIZES[t.name] > 1])),
        Scenario('after-gone', after_gone, 'two words of up to 2 letters, the second created when the first is gone', {}),
        Scenario('two-words', two_words, 'two words of up to 2 characters', {}),
    ]
    for t in (r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN):
        out.append(Scenario('alike-' + t.name, alike, 'two words with the same first form of up to 2 characters and any second one', dict(kind=t)))
    for t in (r.WORD_TYPE.NOUN, r.WORD_TYPE.VERB):
        out.append(Scenario('fluent-position-' + t.name, fluent_position, 'base and one other form of up to %d characters, at every position' % (2 if deep else 1), dict(kind=t, length=2 if deep else 1)))
    for first in (('syllables',), ('fluent',), ('syllables', 'fluent')):
        out.append(Scenario('after-autofill-' + '-'.join(first), after_autofill, 'three forms of up to 2 characters, any of them missing', dict(first=first)))
    return out
