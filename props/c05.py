# Form of a preposition in front of a word.
from sx.scenario import Scenario

from utg import relations as r
from utg import words
from utg import transformators
from utg import templates
from utg import dictionary

from props import common as c
from props import phonetics

N, A, X = r.PREPOSITION_FORM.NORMAL, r.PREPOSITION_FORM.ALTERNATIVE, r.PREPOSITION_FORM.SPECIAL
SPECIAL = ('всех', 'мне', 'всём', 'что', 'всей')


def expected(ctx, preposition, displayed, master_forms, asked):
    """The form the notes in the documentation prescribe, or the one asked for."""
    if preposition != '' and preposition[-1] in phonetics.CONSONANTS:
        if phonetics.cluster(displayed):
            if phonetics.syllables(master_forms[0]) == 1 and phonetics.fluent(ctx, master_forms):
                return A
            if preposition == 'в' or preposition == 'с':
                if displayed[0] == preposition:
                    return A
        return asked
    if preposition == 'о':
        for text in SPECIAL:
            if displayed == text:
                return X
    if displayed != '' and displayed[0] in phonetics.PLAIN_VOWELS:
        return A
    return asked


def preposition_of(text):
    return words.Word(type=r.WORD_TYPE.PREPOSITION, forms=[text, text + 'а', text + 'б'])


def decide(ctx, word, text, master, displayed, master_forms):
    asked = ctx.record('asked', r.PREPOSITION_FORM, none=True)
    props = words.Properties(asked)
    result = transformators.transform(word, props, master)
    want = expected(ctx, text, displayed, master_forms, N if asked is None else asked)
    ctx.check(result.get(r.PREPOSITION_FORM) == want, 'form')
    shown = words.WordForm.get_form(word, result)
    if want == N:
        ctx.check(ctx.same_text(shown, word.forms[0]), 'text')
    elif want == A:
        ctx.check(ctx.same_text(shown, word.forms[1]), 'text')
    else:
        ctx.check(ctx.same_text(shown, word.forms[2]), 'text')
    ctx.observe('form', result.get(r.PREPOSITION_FORM))


def short(ctx, alphabet, length, master_length):
    """Any preposition before any word with a single form."""
    text = ctx.string('preposition', 1, length, alphabet)
    shown = ctx.string('master', 0, master_length, alphabet)
    word = preposition_of(text)
    master = words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=[shown]))
    decide(ctx, word, text, master, shown, [shown])


def fluent(ctx, kind, texts, alphabet, base_length, other_length):
    """Before a word with several forms, any of which may be the displayed one."""
    text = ctx.choose('preposition', texts)
    base = ctx.string('base', 1, base_length, alphabet)
    other = ctx.string('other', 0, other_length, alphabet)
    word = preposition_of(text)
    if kind == r.WORD_TYPE.PREPOSITION:
        forms = [base, other, '']
        asked = [r.PREPOSITION_FORM.NORMAL, r.PREPOSITION_FORM.ALTERNATIVE]
    else:
        forms = [base, other] + [''] * (c.SIZES[kind.name] - 2)
        asked = [r.CASE.NOMINATIVE, r.CASE.GENITIVE] if kind == r.WORD_TYPE.NOUN else [r.GENDER.MASCULINE, r.GENDER.NEUTER]
    which = ctx.choose('displayed', 2)
    master = words.WordForm(words.Word(type=kind, forms=forms), words.Properties(asked[which]))
    decide(ctx, word, text, master, forms[which], [base, other])


def large(ctx, filler):
    """Long prepositions before long words, with arbitrary characters where it matters."""
    text = 'длинн' * ctx.choose('times', [0, 1, 3, 40]) + ctx.string('preposition', 1, 1, 'воксаеьЖ-')
    head = ctx.string('head', 0, 1, c.EVERY)
    middle = ctx.choose('middle', filler)
    shown = head + middle
    word = preposition_of(text)
    master = words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=[shown]))
    decide(ctx, word, text, master, shown, [shown])


def large_fluent(ctx, filler):
    """Long words with many forms, one of which differs."""
    text = ctx.choose('preposition', ['в', 'над'])
    base = ctx.string('head', 0, 1, 'вса') + ctx.choose('middle', filler) + ctx.string('tail', 0, 1, 'нея')
    other = ctx.choose('other', filler) + ctx.string('end', 0, 1, 'ая')
    word = preposition_of(text)
    forms = [base] * 11 + [other]
    master = words.WordForm(words.Word(type=r.WORD_TYPE.NOUN, forms=forms + [''] * 6))
    decide(ctx, word, text, master, base, [base, other])


def special(ctx, length):
    """The listed pronoun forms after any one-letter preposition, and everything that differs from them in one letter."""
    text = ctx.choose('start', ['', 'как']) + ctx.string('preposition', 1, length, 'оОавс')
    shown = ctx.choose('word', SPECIAL + ('вс', 'мн', 'вся', 'чтоб', 'всему'))
    i = ctx.choose('position', len(shown) + 1)
    if i < len(shown):
        shown = shown[:i] + ctx.string('letter', 1, 1, c.LETTERS) + shown[i + 1:]
    word = preposition_of(text)
    size = ctx.record('size', r.WORD_CASE, none=True)
    master = words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=[shown]), words.Properties(size))
    displayed = shown
    if size == r.WORD_CASE.UPPER:
        displayed = shown[:1].upper() + shown[1:]
    decide(ctx, word, text, master, displayed, [shown])


def capital(ctx):
    """A capitalised word after any preposition: what counts is the displayed text."""
    text = ctx.string('preposition', 1, 1, 'оОвВсСкК')
    shown = ctx.string('master', 1, 3, 'вВсСаАоОкеёЁ')
    size = ctx.record('size', r.WORD_CASE, none=True)
    word = preposition_of(text)
    master = words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=[shown]), words.Properties(size))
    displayed = shown
    if size == r.WORD_CASE.UPPER:
        displayed = shown[0].upper() + shown[1:]
    decide(ctx, word, text, master, displayed, [shown])


def own_form(ctx):
    """The decision looks at the preposition's normal form, which its own features may move."""
    forms = [ctx.string('f%d' % i, 1, 1, 'овск') for i in range(3)]
    own = ctx.record('own', r.PREPOSITION_FORM, none=True)
    word = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=forms, properties=words.Properties(own))
    shown = ctx.string('master', 1, 2, 'вас')
    normal = forms[0]
    if own == A:
        normal = forms[1]
    elif own == X:
        normal = forms[2]
    result = transformators.transform(word, words.Properties(), words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=[shown])))
    want = expected(ctx, normal, shown, [shown], N)
    ctx.check(result.get(r.PREPOSITION_FORM) == want, 'form')
    ctx.observe('form', result.get(r.PREPOSITION_FORM))


def gone(ctx, texts, alphabet):
    """The word after the preposition may be gone when the next one comes."""
    text = ctx.choose('preposition', texts)
    word = preposition_of(text)
    shown = [ctx.string('m%d' % i, 1, 2, alphabet) for i in range(2)]
    for i in (0, 1, 0):
        inner = words.Word(type=r.WORD_TYPE.TEXT, forms=[shown[i]])
        master = words.WordForm(inner)
        result = transformators.transform(word, words.Properties(), master)
        ctx.check(result.get(r.PREPOSITION_FORM) == expected(ctx, text, shown[i], [shown[i]], N), 'form-%d' % i)
        del master
        del inner
    ctx.observe('form', result.get(r.PREPOSITION_FORM))


def everything(ctx, kinds):
    """Whatever else the request, the preposition and its master carry, and whatever kind of word the master is."""
    kind = ctx.choose('kind', kinds)
    letter = ctx.string('preposition', 1, 1, 'вок')
    shown = ctx.choose('master', ['сн', 'вст', 'ас', 'мне'])
    props = c.properties(ctx, 'p', c.ALL)
    word = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=[letter, letter + 'а', letter + 'б'])
    master = words.WordForm(words.Word(type=kind, forms=[shown] * c.SIZES[kind.name]), words.Properties())
    result = transformators.transform(word, props, master)
    want = expected(ctx, letter, shown, [shown], props.get(r.PREPOSITION_FORM))
    ctx.check(result.get(r.PREPOSITION_FORM) == want, 'form')
    for relation in c.ALL:
        if relation is not r.PREPOSITION_FORM:
            ctx.check(result.get(relation) == props.get(relation), 'keeps-' + relation.__name__)
    ctx.observe('form', result.get(r.PREPOSITION_FORM))


def text(ctx):
    """In a whole template."""
    shown = ctx.string('master', 1, 4, 'всомнечАё')
    prep = ctx.choose('preposition', ['в', 'с', 'о', 'к', 'из'])
    template = templates.Template()
    template.parse('[%s|name] [name]' % prep, externals=('name',))
    vocabulary = dictionary.Dictionary(words=[preposition_of(p) for p in ('в', 'с', 'о', 'к', 'из')])
    result = template.substitute(externals={'name': words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=[shown]))}, dictionary=vocabulary)
    want = expected(ctx, prep, shown, [shown], N)
    suffix = '' if want == N else ('а' if want == A else 'б')
    ctx.check(ctx.same_text(result, prep + suffix + ' ' + shown), 'text')
    ctx.observe('text', result)


def SCENARIOS(tier):
    deep = tier == 'thorough'
    small = 'вскомаеыьэЁШ-'
    return [
        Scenario('one-letter', short, 'every one-letter preposition, every word of up to %d characters of ASCII, Cyrillic and common signs' % (4 if deep else 3),
                 dict(alphabet=c.EVERY, length=1, master_length=4 if deep else 3)),
        Scenario('long', short, 'every preposition of 1-%d characters, every word of up to 2 characters' % (4 if deep else 3),
                 dict(alphabet=c.EVERY, length=4 if deep else 3, master_length=2)),
        Scenario('large', large, 'prepositions of 1, 6, 16 and 201 letters before words of up to 300 letters with any first character', dict(
            filler=['стол', 'длиннейшее', 'мгновение' * 7, 'страна ' * 43, 'ст' * 150])),
        Scenario('large-fluent', large_fluent, 'two prepositions before nouns of up to 100 letters, any ends, one form different', dict(filler=['сн', 'ст' * 50, 'ст' * 20 + 'он'])),
        Scenario('special', special, 'every preposition of 1-%d letters and the same with a longer start, the listed words and all their one-letter changes, capitalised or not' % (2 if deep else 1), dict(length=2 if deep else 1)),
        Scenario('fluent-PREPOSITION', fluent, 'two forms of up to 3 characters, either displayed', dict(
            kind=r.WORD_TYPE.PREPOSITION, texts=['в', 'с', 'к', 'над'] + (['о', 'за'] if deep else []), alphabet=small, base_length=3, other_length=3 if deep else 2)),
        Scenario('fluent-NOUN', fluent, 'two forms of up to 2 characters, either displayed', dict(
            kind=r.WORD_TYPE.NOUN, texts=['в', 'к', 'о', 'из'], alphabet=small, base_length=3 if deep else 2, other_length=2)),
        Scenario('fluent-PRONOUN', fluent, 'two forms of up to 2 characters, either displayed', dict(
            kind=r.WORD_TYPE.PRONOUN, texts=['в', 'к'], alphabet=small, base_length=2, other_length=2)),
        Scenario('capital', capital, 'every capitalisation of words of up to 3 letters', {}),
        Scenario('own-form', own_form, 'three one-letter forms, every own feature, words of up to 2 letters', {}),
        Scenario('gone', gone, 'two words of up to 2 letters by turns, each created anew', dict(texts=['в', 'о'], alphabet='вса')),
        Scenario('everything', everything, 'every value of every group in the request, three prepositions, four words of every kind', dict(kinds=[t for t in r.WORD_TYPE.records])),
        Scenario('text', text, 'whole template, five prepositions, every word of up to 4 letters of nine', {}),
    ]
