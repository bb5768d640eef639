# Construction and storage of words.
from sx.scenario import Scenario

from utg import exceptions
from utg import relations as r
from utg import words

from props import common as c


def number(ctx, kind, most):
    """A word exists exactly with the right number of forms."""
    n = ctx.choose('n', most + 1)
    text = ctx.string('text', 0, 2, 'аб%')
    forms = [text] * n
    result, error = ctx.raises(words.Word, type=kind, forms=forms)
    size = c.SIZES[kind.name]
    if n == size:
        ctx.check(error is None, 'accepted')
        ctx.check(result.type == kind, 'type')
        ctx.check(len(result.forms) == size, 'forms')
    else:
        ctx.check(isinstance(error, exceptions.WrongFormsNumberError), 'rejected')
        ctx.check(error.arguments['wrong_number'] == n, 'wrong-number')
        ctx.check(error.arguments['expected_number'] == size, 'expected-number')
        ctx.check(isinstance(error, exceptions.UtgError), 'own-error')
        data = {'type': kind.value, 'forms': forms, 'properties': {}}
        again, error = ctx.raises(words.Word.deserialize, data)
        ctx.check(isinstance(error, exceptions.WrongFormsNumberError), 'rejected-in-storage')
    ctx.observe('accepted', error is None)


def storage(ctx, kind, own_groups, filled, length):
    size = c.SIZES[kind.name]
    own = words.Properties(*[ctx.record('own.%s' % g.__name__, g, none=True) for g in own_groups])
    forms = []
    for i in range(size):
        if i in filled:
            forms.append(ctx.string('f%d' % i, 0, length, c.EVERY))
        else:
            forms.append('x%03d' % i)
    word = words.Word(type=kind, forms=list(forms), properties=own)
    stored = ctx.json_roundtrip(word.serialize())
    again = words.Word.deserialize(stored)
    ctx.check(ctx.Eq(again, word), 'equal')
    ctx.check(again.type == kind, 'type')
    ctx.check(len(again.forms) == size, 'number-of-forms')
    ctx.check(ctx.And(*[ctx.same_text(a, b) for a, b in zip(again.forms, forms)]), 'forms')
    ctx.check(ctx.And(*[ctx.same_text(a, b) for a, b in zip(word.forms, forms)]), 'original-forms')
    for g in c.ALL:
        ctx.check(ctx.And(ctx.Eq(again.properties.get(g), own.get(g)), ctx.Iff(again.properties.is_specified(g), own.is_specified(g))), 'own-' + g.__name__)
    ctx.check(ctx.Eq(ctx.json_roundtrip(again.serialize()), stored), 'same-data')
    ctx.observe('stored', stored['properties'])
    ctx.observe('first', again.forms[0])


def features(ctx, own_groups):
    """A word is exactly the given part of speech, features and forms, whatever the features are."""
    kind = ctx.choose('kind', list(r.WORD_TYPE.records))
    size = c.SIZES[kind.name]
    own = words.Properties(*[ctx.record('own.%s' % g.__name__, g, none=True) for g in own_groups])
    forms = ['x%03d' % i for i in range(size)]
    word = words.Word(type=kind, forms=list(forms), properties=own)
    again = words.Word.deserialize(ctx.json_roundtrip(word.serialize()))
    for w, name in ((word, 'built'), (again, 'read')):
        ctx.check(w.type == kind, name + '-type')
        ctx.check(w.forms == forms, name + '-forms')
        for g in c.ALL:
            ctx.check(ctx.And(ctx.Eq(w.properties.get(g), own.get(g)), ctx.Iff(w.properties.is_specified(g), own.is_specified(g))), '%s-%s' % (name, g.__name__))
    ctx.check(ctx.And(ctx.Eq(word, again), ctx.Eq(again, word)), 'equal')
    ctx.observe('features', str(again.properties))


def large(ctx, length):
    """Long forms and many of them."""
    kind = ctx.choose('kind', list(r.WORD_TYPE.records))
    size = c.SIZES[kind.name]
    at = ctx.choose('at', sorted(set([0, size // 2, size - 1])))
    forms = [' %s"\\ё ' * length + str(i) for i in range(size)]
    forms[at] = ctx.string('head', 0, 1, c.EVERY) + forms[at] + ctx.string('tail', 0, 1, c.EVERY)
    own = words.Properties(*[g.records[-1] for g in c.ALL])
    word = words.Word(type=kind, forms=list(forms), properties=own)
    again = words.Word.deserialize(ctx.json_roundtrip(word.serialize()))
    for w, name in ((word, 'built'), (again, 'read')):
        ctx.check(w.type == kind, name + '-type')
        ctx.check(len(w.forms) == size, name + '-number-of-forms')
        ctx.check(ctx.And(*[ctx.same_text(a, b) for a, b in zip(w.forms, forms)]), name + '-forms')
        for g in c.ALL:
            ctx.check(ctx.And(w.properties.get(g) == g.records[-1], w.properties.is_specified(g)), '%s-%s' % (name, g.__name__))
    ctx.check(ctx.And(ctx.Eq(word, again), ctx.Eq(again, word)), 'equal')
    ctx.observe('form', again.forms[at])


def odd(ctx):
    """Unusual letters are kept as they are."""
    one = ctx.choose('one', c.ODD) + ctx.string('tail', 0, 1, 'аЯ ')
    word = words.Word(type=r.WORD_TYPE.PREPOSITION, forms=[one, '', 'а' + one])
    again = words.Word.deserialize(ctx.json_roundtrip(word.serialize()))
    for w, name in ((word, 'built'), (again, 'read')):
        ctx.check(ctx.And(ctx.same_text(w.forms[0], one), ctx.same_text(w.forms[1], ''), ctx.same_text(w.forms[2], 'а' + one)), name + '-forms')
    ctx.check(ctx.Eq(word, again), 'equal')
    ctx.check(ctx.same_text(words.WordForm(again).form, one), 'shown')
    ctx.observe('form', again.forms[0])


def requests(ctx, kind, own_groups):
    """The same form for every request."""
    size = c.SIZES[kind.name]
    own = words.Properties(*[ctx.record('own.%s' % g.__name__, g, none=True) for g in own_groups])
    word = words.Word(type=kind, forms=['x%03d' % i for i in range(size)], properties=own)
    again = words.Word.deserialize(ctx.json_roundtrip(word.serialize()))
    asked = c.properties(ctx, 'asked', c.SCHEMAS[kind.name])
    ctx.check(ctx.same_text(again.form(asked), word.form(asked)), 'form')
    ctx.check(ctx.same_text(again.normal_form(), word.normal_form()), 'normal-form')
    ctx.check(ctx.same_text(words.WordForm(again, asked).form, words.WordForm(word, asked).form), 'word-form')
    ctx.observe('form', again.form(asked))


def kinds(ctx):
    """The part of speech survives."""
    kind = ctx.choose('kind', list(r.WORD_TYPE.records))
    size = c.SIZES[kind.name]
    word = words.Word(type=kind, forms=['x'] * size)
    data = ctx.json_roundtrip(word.serialize())
    again = words.Word.deserialize(data)
    ctx.check(again.type == kind, 'type')
    ctx.check(ctx.Eq(again, word), 'equal')
    ctx.check(len(data['forms']) == size, 'all-forms-stored')
    ctx.observe('type', data['type'])


def invented(ctx):
    """Test words made up for a part of speech have all forms and only features of that part of speech."""
    kind = ctx.choose('kind', list(r.WORD_TYPE.records))
    word = words.Word.create_test_word(kind, prefix='п-', suffix='!')
    ctx.check(len(word.forms) == c.SIZES[kind.name], 'number-of-forms')
    i = ctx.int('i', 0, c.SIZES[kind.name] - 1)
    want = ['п-' + ','.join(x.verbose_id for x in key if x is not None) + '!' for key in c.KEYS[kind.name]]
    ctx.check(ctx.same_text(word.forms[i], want[i]), 'text')
    ctx.observe('text', word.forms[i])


def SCENARIOS(tier):
    deep = tier == 'thorough'
    W = r.WORD_TYPE
    out = []
    for t in W.records:
        size = c.SIZES[t.name]
        out.append(Scenario('number-' + t.name, number, 'every number of forms 0..%d, every text of up to 2 characters' % (size + 3), dict(kind=t, most=size + 3)))
        own = {'NOUN': [r.ANIMALITY, r.GENDER, r.NUMBER], 'ADJECTIVE': [r.ADJECTIVE_CATEGORY, r.GENDER], 'PRONOUN': [r.PRONOUN_CATEGORY, r.PERSON, r.NUMBER],
               'VERB': [r.ASPECT, r.VOICE], 'PARTICIPLE': [r.ASPECT, r.VOICE, r.WORD_CASE], 'INTEGER': [r.NUMBER, r.INTEGER_FORM], 'TEXT': [r.WORD_CASE, r.NUMBER],
               'PREPOSITION': [r.PREPOSITION_FORM, r.WORD_CASE]}[t.name]
        names = ', '.join(g.__name__ for g in own)
        for filled in ([0, size - 1], [1 % size, size // 2], [size // 3, size // 5 * 4]):
            filled = sorted(set(filled))
            if size <= 3:
                filled = list(range(size))
            n = 2 if deep else 1
            if size <= 3:
                n += 1
            out.append(Scenario('storage-%s-%s' % (t.name, '-'.join(map(str, filled))), storage,
                                'every %s (given or not), every text of up to %d characters in forms %s' % (names, n, filled), dict(kind=t, own_groups=own, filled=filled, length=n)))
            if size <= 3:
                break
        out.append(Scenario('requests-' + t.name, requests, 'every %s (given or not), every request' % names, dict(kind=t, own_groups=own)))
    for i in range(0, len(c.ALL), 4):
        own = c.ALL[i:i + 4]
        out.append(Scenario('features-%d' % i, features, 'every part of speech, every %s, given or not' % ', '.join(g.__name__ for g in own), dict(own_groups=own)))
    out.append(Scenario('odd', odd, '27 unusual letters, every next one of three', {}))
    out.append(Scenario('large', large, 'every part of speech, forms of more than 300 characters with any character at either end, all features given', dict(length=40)))
    out.append(Scenario('kinds', kinds, 'every part of speech', {}))
    out.append(Scenario('invented', invented, 'every part of speech, every slot', {}))
    return out
