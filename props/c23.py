# Equality and hashing.
import unicodedata

from sx.scenario import Scenario

from utg import dictionary
from utg import relations as r
from utg import templates
from utg import words

from props import common as c

W = r.WORD_TYPE


def laws(ctx, a, b, expected, label, hashed=True):
    """a == b exactly when expected, in both directions; != is the negation; equal ones have equal hashes."""
    ab, ba = a == b, b == a
    ctx.check(ctx.Iff(ab, expected), label + '-equal')
    ctx.check(ctx.Iff(ab, ba), label + '-symmetric')
    ctx.check(ctx.Iff(a != b, ctx.Not(ab)), label + '-negation')
    ctx.check(a == a, label + '-reflexive')
    ctx.check(ctx.Not(b != b), label + '-not-unequal-to-itself')
    if hashed:
        ctx.check(ctx.Implies(ab, ctx.Eq(hash(a), hash(b))), label + '-hash')
        ctx.check(ctx.Eq(hash(a), hash(a)), label + '-same-hash')
    for other in (None, 5, 'x', (), {}):
        ctx.check(ctx.Not(a == other), label + '-other-kind')
        ctx.check(a != other, label + '-unequal-to-other-kind')
        ctx.check(ctx.Not(other == a), label + '-other-kind-reversed')


def some(ctx, prefix, given, optional):
    out = {}
    for g in given + optional:
        value = ctx.record('%s.%s' % (prefix, g.__name__), g, none=g in optional)
        if value is not None:
            out[g] = value
    return out


def same(ctx, a, b):
    """Two {group: value} maps."""
    if set(a) != set(b):
        return False
    return ctx.And(*[ctx.Eq(a[g], b[g]) for g in a])


def built(way, values):
    """The same features put together differently."""
    items = list(values.values())
    if way == 'direct':
        return words.Properties(*items)
    if way == 'reversed':
        return words.Properties(*items[::-1])
    if way == 'cloned':
        out = words.Properties()
        for x in items:
            out = out.clone(x)
        return out
    if way == 'parts':
        return words.Properties(words.Properties(*items[1:]), None, words.Properties(*items[:1]))
    if way == 'stored':
        return words.Properties.deserialize(words.Properties(*items).serialize())
    if way == 'overwritten':
        return words.Properties(*([g.records[-1] for g in values] + items[::-1]))


def features(ctx, way, given, optional):
    a, b = some(ctx, 'a', given, optional), some(ctx, 'b', given, optional)
    laws(ctx, built('direct', a), built(way, b), same(ctx, a, b), 'features')


def features_all(ctx, way, part):
    fixed = {g: g.records[-1] for g in c.ALL if g not in part}
    a, b = dict(fixed), dict(fixed)
    a.update(some(ctx, 'a', part, []))
    b.update(some(ctx, 'b', part, []))
    laws(ctx, built('direct', a), built(way, b), same(ctx, a, b), 'features')


def text_words(ctx, kind, other, slots, groups):
    kinds = [kind, ctx.choose('kind', [kind, other]) if other is not None else kind]
    made, props = [], []
    for name, k in zip('ab', kinds):
        size = c.SIZES[k.name]
        texts = ['x%03d' % i for i in range(size)]
        for s in slots:
            texts[s % size] = ctx.string('%s%d' % (name, s), 0, 1, c.EVERY)
        own = some(ctx, name, [], groups)
        props.append(own)
        made.append(words.Word(type=k, forms=texts, properties=built('direct' if name == 'a' else 'reversed', own)))
    a, b = made
    expected = kinds[0] == kinds[1] and ctx.And(same(ctx, *props), *[ctx.same_text(x, y) for x, y in zip(a.forms, b.forms)])
    laws(ctx, a, b, expected, 'word')
    laws(ctx, words.WordForm(a), words.WordForm(b), expected, 'word-form')
    both = set([a, b])
    ctx.check(ctx.Eq(len(both), ctx.If(expected, 1, 2)), 'set-of-words')
    ctx.observe('n', len(both))
    ctx.observe('ab', a == b)


def forms(ctx, asked_groups, shown_groups, own_groups):
    """Word forms of equal or different words, asked for equal or different features."""
    made, asked, own = [], [], []
    for name in 'ab':
        o = some(ctx, name + 'o', [], own_groups)
        text = ctx.string(name + 't', 1, 1, 'аА')
        word = words.Word(type=W.PREPOSITION, forms=[text, 'x', 'y'], properties=built('direct', o))
        f = some(ctx, name + 'f', [], asked_groups)
        shown = some(ctx, name + 's', [], shown_groups)
        form = words.WordForm(word, properties=built('direct', f), form_properties=built('direct', shown) if shown_groups else None)
        full = dict(f)
        full.update(o)
        made.append(form)
        asked.append(full)
        own.append((text, o))
    words_equal = ctx.And(ctx.same_text(own[0][0], own[1][0]), same(ctx, own[0][1], own[1][1]))
    expected = ctx.And(words_equal, same(ctx, asked[0], asked[1]))
    laws(ctx, made[0], made[1], expected, 'word-form')
    # asking for the text first changes nothing
    made[0].form
    laws(ctx, made[0], made[1], expected, 'word-form-after-use')
    held = {made[0]: 'a'}
    held[made[1]] = 'b'
    ctx.check(ctx.Eq(len(held), ctx.If(expected, 1, 2)), 'dictionary-of-word-forms')
    ctx.observe('n', len(held))


def odd(ctx):
    """Texts that look alike are not equal."""
    one = ctx.choose('one', c.ODD)
    way = ctx.choose('other', ['same', 'lower', 'upper', 'casefold', 'NFC', 'NFKD'])
    other = unicodedata.normalize(way, one) if way.startswith('NF') else one if way == 'same' else getattr(one, way)()
    made = [words.Word(type=W.PREPOSITION, forms=[x + ctx.string('t%d' % i, 0, 1, 'а'), 'я', '']) for i, x in enumerate((one, other))]
    expected = ctx.same_text(made[0].forms[0], made[1].forms[0])
    laws(ctx, made[0], made[1], expected, 'word')
    laws(ctx, words.WordForm(made[0]), words.WordForm(made[1]), expected, 'word-form')
    ctx.observe('equal', made[0] == made[1])


def large(ctx, kind, length):
    """Long ones that differ in one place only."""
    size = c.SIZES[kind.name]
    at = ctx.choose('at', sorted(set([0, size // 2, size - 1])))
    made, texts = [], []
    for name in 'ab':
        text = ctx.string(name, 0, 1, c.EVERY)
        forms = ['длинный ' * length + str(i) for i in range(size)]
        forms[at] = forms[at] + text + 'конец'
        made.append(words.Word(type=kind, forms=forms, properties=words.Properties(*[g.records[0] for g in c.ALL])))
        texts.append(text)
    laws(ctx, made[0], made[1], ctx.same_text(*texts), 'word')
    laws(ctx, words.WordForm(made[0]), words.WordForm(made[1]), ctx.same_text(*texts), 'word-form')
    ctx.observe('equal', made[0] == made[1])


def large_templates(ctx, number):
    """Templates of many variables that differ in one place only."""
    made, texts = [], []
    at = ctx.choose('at', [0, number // 2, number - 1])
    where = ctx.choose('where', 3)
    for name in 'ab':
        text = ctx.string(name, 1, 1, 'аб')
        whole = ''
        for i in range(number):
            pieces = ['длинный текст ', 'слово%d' % i, 'рд']
            if i == at:
                pieces[where] = text if where != 2 else 'г' + text
            whole = whole + pieces[0] + '[' + pieces[1] + '|мн|' + pieces[2] + ']'
        t = templates.Template()
        t.parse(whole, externals=('га', 'гб'))
        made.append(t)
        texts.append(text)
    laws(ctx, made[0], made[1], ctx.same_text(*texts), 'template', hashed=False)
    again = templates.Template.deserialize(ctx.json_roundtrip(made[0].serialize()))
    laws(ctx, again, made[1], ctx.same_text(*texts), 'stored-template', hashed=False)
    ctx.observe('equal', made[0] == made[1])


def use(ctx):
    """Asking a word for sound facts, its forms and storage does not change its equality or hash."""
    a = words.Word(type=W.PREPOSITION, forms=[ctx.string('a', 0, 2, 'аб'), 'в', ''], properties=words.Properties(ctx.record('an', r.ASPECT, none=True)))
    b = words.Word.deserialize(a.serialize())
    b.forms = list(b.forms)
    before = hash(b)
    a.number_of_syllables
    a.has_fluent_vowel
    a.normal_form()
    [f.form for f in a.all_forms()]
    laws(ctx, a, b, True, 'used')
    ctx.check(ctx.Eq(hash(b), before), 'hash-kept')
    a.autofill_missed_forms()
    filled = ctx.And(*[ctx.same_text(x, y) for x, y in zip(a.forms, b.forms)])
    laws(ctx, a, b, filled, 'filled')


def triple(ctx):
    """Equality is transitive, also between word forms and features."""
    made = []
    for name in 'abc':
        made.append(built('direct', some(ctx, name, [], [r.CASE, r.NUMBER])))
    a, b, d = made
    ctx.check(ctx.Implies(ctx.And(a == b, b == d), a == d), 'transitive')
    n = len(set(made))
    pairs = ctx.count([a == b, a == d, b == d])
    ctx.check(ctx.Eq(n, ctx.If(ctx.Eq(pairs, 3), 1, ctx.If(ctx.Eq(pairs, 1), 2, 3))), 'set-of-features')
    ctx.observe('n', n)


def parsed(ctx, shape):
    """Templates from text: equal exactly when text, names and parts are equal."""
    made, parts = [], []
    for name in 'ab':
        before = ctx.string(name + '0', 0, 1, 'xй')
        word = ctx.string(name + '1', 1, 1, 'абА')
        text = before + '[' + word
        pieces = [before, word]
        for i, kind in enumerate(shape):
            if kind == 'e':
                part = ctx.string('%s%d' % (name, i + 2), 1, 1, 'вг')
            else:
                part = ctx.choose('%s%d' % (name, i + 2), ['рд', 'мн', 'рд,мн', 'мн,рд', 'мн,рд,мн', ' РД '])
            text = text + '|' + part
            pieces.append(part)
        text = text + ']'
        t = templates.Template()
        t.parse(text, externals=('в', 'г'))
        made.append(t)
        parts.append(pieces)
    meaning = {'рд': 0, 'мн': 1, 'рд,мн': 2, 'мн,рд': 2, 'мн,рд,мн': 2, ' РД ': 0}
    acc = [ctx.same_text(parts[0][0], parts[1][0]), ctx.same_text(parts[0][1], parts[1][1])]
    for i, kind in enumerate(shape):
        x, y = parts[0][i + 2], parts[1][i + 2]
        acc.append(ctx.same_text(x, y) if kind == 'e' else meaning[x] == meaning[y])
    laws(ctx, made[0], made[1], ctx.And(*acc), 'template', hashed=False)
    stored = [templates.Template.deserialize(ctx.json_roundtrip(t.serialize())) for t in made]
    laws(ctx, stored[0], made[1], ctx.And(*acc), 'stored-template', hashed=False)
    ctx.observe('equal', made[0] == made[1])


def substitutions(ctx):
    """Templates with different numbers of variables."""
    made = []
    numbers = []
    for name in 'ab':
        n = ctx.choose(name + 'n', 3)
        names = [ctx.string('%s%d' % (name, i), 1, 1, 'аб') for i in range(n)]
        t = templates.Template()
        t.parse(''.join('[' + x + ']' for x in names), externals=())
        made.append(t)
        numbers.append(names)
    expected = len(numbers[0]) == len(numbers[1]) and ctx.And(*[ctx.same_text(x, y) for x, y in zip(*numbers)])
    laws(ctx, made[0], made[1], expected, 'template', hashed=False)


def changed(ctx, way):
    """Words compared before one of them changes, and words made when another one is gone."""
    texts = [ctx.string('t%d' % i, 0, 1, 'аб') for i in range(3)]
    left = words.Word(type=W.PREPOSITION, forms=[texts[0], 'x', 'y'])
    for i in (1, 2, 1):
        right = words.Word(type=W.PREPOSITION, forms=[texts[i], 'x', 'y'])
        forms = words.WordForm(left), words.WordForm(right)
        laws(ctx, left, right, ctx.same_text(texts[0], texts[i]), 'word-%d' % i, hashed=False)
        laws(ctx, forms[0], forms[1], ctx.same_text(texts[0], texts[i]), 'form-%d' % i, hashed=False)
        if way == 'element':
            right.forms[2] = 'z'
        elif way == 'filled':
            right.forms[2] = ''
            right.autofill_missed_forms()
        elif way == 'list':
            right.forms = [texts[i], 'x', 'z']
        if way != 'gone':
            laws(ctx, left, right, False, 'word-changed', hashed=False)
            laws(ctx, forms[0], forms[1], False, 'form-changed', hashed=False)
        del forms
        del right
    ctx.observe('done', 1)


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []
    n = len(c.ALL)
    ways = ['direct', 'reversed', 'cloned', 'parts', 'stored', 'overwritten']
    for i in range(n):
        optional = [c.ALL[i], c.ALL[(i + 7) % n]]
        if deep:
            optional.append(c.ALL[(i + 12) % n])
        for way in ways if deep else [ways[i % 6], ways[(i + 3) % 6]]:
            out.append(Scenario('features-%d-%s' % (i, way), features, 'every two sets with %s given or not' % ', '.join(g.__name__ for g in optional), dict(way=way, given=[], optional=optional)))
    # all groups given at once
    for i in range(0, n, 4):
        part = c.ALL[i:i + 4]
        for way in ('reversed', 'stored') if deep else ('reversed',) if i % 8 else ('stored',):
            out.append(Scenario('features-all-%d-%s' % (i, way), features_all, 'every two sets with all 20 groups given, differing in %s' % ', '.join(g.__name__ for g in part),
                                dict(way=way, part=part)))
    for kind, other, slots, groups in ((W.TEXT, W.INTEGER, [0], [r.NUMBER, r.WORD_CASE]), (W.PREPOSITION, None, [0, 1, 2], [r.PREPOSITION_FORM]),
                                       (W.NOUN, W.VERB, [0, 9, 17], [r.ANIMALITY]), (W.VERB, None, [0, 19], [r.ASPECT, r.VOICE]),
                                       (W.PRONOUN, None, [0, 47], [r.PERSON]), (W.ADJECTIVE, None, [0, 100], [r.ADJECTIVE_CATEGORY]), (W.PARTICIPLE, None, [1, 147], [r.ASPECT])):
        out.append(Scenario('words-' + kind.name, text_words, 'every two words with up to one letter in forms %s and own %s given or not' % (slots, ', '.join(g.__name__ for g in groups)),
                            dict(kind=kind, other=other, slots=slots, groups=groups)))
    out.append(Scenario('forms', forms, 'every two word forms of words of one letter, animacy and case asked for or not', dict(asked_groups=[r.CASE], shown_groups=[], own_groups=[r.ANIMALITY])))
    out.append(Scenario('forms-own', forms, 'every two word forms, the same group asked for and own', dict(asked_groups=[r.CASE, r.NUMBER], shown_groups=[], own_groups=[r.CASE])))
    out.append(Scenario('forms-shown', forms, 'every two word forms with other displayed features', dict(asked_groups=[r.CASE], shown_groups=[r.PREPOSITION_FORM], own_groups=[])))
    for kind in (W.NOUN, W.VERB, W.PARTICIPLE, W.TEXT):
        out.append(Scenario('large-' + kind.name, large, 'every two words with forms of more than 300 characters that differ inside one of three forms', dict(kind=kind, length=40)))
    for number in (3, 14, 40):
        out.append(Scenario('large-templates-%d' % number, large_templates, 'every two templates of %d variables that differ in one name, part or plain text' % number, dict(number=number)))
    out.append(Scenario('odd', odd, '27 unusual letters against six spellings of them', {}))
    for way in ('element', 'filled', 'list', 'gone'):
        out.append(Scenario('changed-' + way, changed, 'three words of up to one letter, compared before and after', dict(way=way)))
    out.append(Scenario('use', use, 'every word of up to 2 letters', {}))
    out.append(Scenario('triple', triple, 'every three sets of case and number, given or not', {}))
    for shape in ('', 'e', 'f', 'ef') + (('fe', 'ee', 'efe') if deep else ()):
        out.append(Scenario('templates-' + (shape or 'plain'), parsed, 'every two templates of one variable with %d parts' % len(shape), dict(shape=shape)))
    out.append(Scenario('variables', substitutions, 'every two templates of up to 2 variables', {}))
    return out
