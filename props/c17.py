# Storage and equality of templates.
from sx.scenario import Scenario

from utg import relations as r
from utg import templates
from utg import words

from props import common as c
from props import c15
from props import markup

EXTERNALS = ('герой', 'число')


def noun(tag, *properties):
    return words.WordForm(words.Word(type=r.WORD_TYPE.NOUN, forms=['%s%d' % (tag, i) for i in range(18)]), words.Properties(*properties))


def vocabulary():
    return {'externals': {'герой': noun('г', r.GENDER.FEMININE), 'число': noun('ч', r.NUMBER.PLURAL, r.CASE.DATIVE), 'слово': noun('с')},
            'dictionary': markup.Echo()}


def roundtrip(ctx, template):
    data = template.serialize()
    stored = ctx.json_roundtrip(data)
    again = templates.Template.deserialize(stored)
    ctx.check(ctx.Eq(again, template), 'equal')
    ctx.check(ctx.Eq(template, again), 'equal-other-way')
    ctx.check(ctx.Not(again != template), 'not-different')
    ctx.check(ctx.Eq(ctx.json_roundtrip(again.serialize()), stored), 'same-data')
    a, b = template.substitute(**vocabulary()), again.substitute(**vocabulary())
    ctx.check(ctx.same_text(a, b), 'same-text')
    ctx.check(ctx.Eq(again.get_undictionaried_words({}, NoWords()), template.get_undictionaried_words({}, NoWords())), 'same-names')
    third = templates.Template.deserialize(ctx.json_roundtrip(again.serialize()))
    ctx.check(ctx.same_text(third.substitute(**vocabulary()), a), 'same-text-twice')
    ctx.observe('text', a)


class NoWords(object):
    def has_word(self, text):
        return False


PARTS = ['', '|мн', '|вн,мн', '|герой', '|Герой|тв', '|мн|число|рд', '|число|герой|ед,пр', '| загл ,дт', '||']


def structure(ctx, number, names):
    text = ctx.string('p', 0, 2, 'а%s]')
    for i in range(number):
        text = text + '[' + ctx.choose('name%d' % i, names) + ctx.choose('parts%d' % i, PARTS) + ']'
    text = text + ctx.string('q', 0, 1, 'а%s]')
    template = templates.Template()
    template.parse(text, externals=EXTERNALS)
    roundtrip(ctx, template)


def names(ctx, alphabet, length):
    name = ctx.string('name', 1, length, alphabet)
    ctx.assume(name.strip() != '')
    template = templates.Template()
    template.parse('а[' + name + ']%[' + name + '|мн]', externals=EXTERNALS)
    roundtrip(ctx, template)


def features(ctx, relations):
    """Every feature of every group in a part."""
    text = '[слово'
    for i, relation in enumerate(relations):
        text = text + '|' + ctx.record('v%d' % i, relation).verbose_id
    template = templates.Template()
    template.parse(text + ']', externals=EXTERNALS)
    roundtrip(ctx, template)


def again(ctx, texts):
    """A template object that was stored, compared and rendered takes another text."""
    template = templates.Template()
    for i in range(2):
        text = ctx.choose('text%d' % i, texts)
        template.parse(text, externals=EXTERNALS)
        roundtrip(ctx, template)
        fresh = templates.Template()
        fresh.parse(text, externals=EXTERNALS)
        ctx.check(ctx.Eq(fresh, template), 'equal-to-a-fresh-one')
        ctx.check(ctx.Eq(fresh.serialize(), template.serialize()), 'stored-as-a-fresh-one')


def same(ctx, a, b):
    """Same literal text, names and parts."""
    if len(a[0]) != len(b[0]):
        return False
    acc = [ctx.same_text(x, y) for x, y in zip(a[0], b[0])]
    for x, y in zip(a[1], b[1]):
        acc.append(ctx.same_text(x.name, y.name))
        acc.append(c15.same_parts(ctx, markup.expected_parts(x), markup.expected_parts(y)))
    return ctx.And(*acc)


def pair(ctx, alphabet, length, before, after):
    """Two templates: equal when the text is, different when anything that matters differs."""
    one = before + ctx.string('one', 0, length, alphabet) + after
    two = before + ctx.string('two', 0, length, alphabet) + after
    a, b = markup.parse(one, EXTERNALS), markup.parse(two, EXTERNALS)
    if isinstance(a, markup.Problem) or isinstance(b, markup.Problem):
        ctx.cover('not a template')
        return
    first, second = templates.Template(), templates.Template()
    first.parse(one, externals=EXTERNALS)
    second.parse(two, externals=EXTERNALS)
    equal = first == second
    ctx.check(ctx.Implies(ctx.same_text(one, two), equal), 'same-text-equal')
    ctx.check(ctx.Implies(ctx.Not(same(ctx, a, b)), ctx.Not(equal)), 'different-not-equal')
    ctx.check(ctx.Iff(first != second, ctx.Not(equal)), 'not-equal')
    ctx.check(ctx.Iff(second == first, equal), 'symmetric')
    ctx.observe('equal', equal)


def chosen(ctx):
    """Two structured templates."""
    texts = []
    for side in ('one', 'two'):
        texts.append('п[' + ctx.choose(side + '.name', ['слово', 'Слово', 'другое']) + ctx.choose(side + '.parts', PARTS) + ']' +
                     ctx.choose(side + '.tail', ['', '[слово]', '[герой|мн]', '%s']))
    a, b = [markup.parse(t, EXTERNALS) for t in texts]
    first, second = templates.Template(), templates.Template()
    first.parse(texts[0], externals=EXTERNALS)
    second.parse(texts[1], externals=EXTERNALS)
    equal = first == second
    ctx.check(ctx.Implies(texts[0] == texts[1], equal), 'same-text-equal')
    ctx.check(ctx.Implies(ctx.Not(same(ctx, a, b)), ctx.Not(equal)), 'different-not-equal')
    ctx.check(ctx.Iff(first != second, ctx.Not(equal)), 'not-equal')
    ctx.observe('equal', equal)


def ordered(ctx, number):
    """Two templates of the same or other parts in the same or another order."""
    texts = []
    for side in ('one', 'two'):
        texts.append('[слово' + ''.join('|' + ctx.choose('%s.%d' % (side, i), ['герой', 'число', 'мн', 'ед', 'вн'][:5 if number < 3 else 3]) for i in range(number)) + ']')
    a, b = [markup.parse(t, EXTERNALS) for t in texts]
    first, second = templates.Template(), templates.Template()
    first.parse(texts[0], externals=EXTERNALS)
    second.parse(texts[1], externals=EXTERNALS)
    equal = first == second
    ctx.check(ctx.Implies(texts[0] == texts[1], equal), 'same-text-equal')
    ctx.check(ctx.Implies(ctx.Not(same(ctx, a, b)), ctx.Not(equal)), 'different-not-equal')
    ctx.check(ctx.Iff(second == first, equal), 'symmetric')
    roundtrip(ctx, first)


ODD = ('рд', '(рд)', '(', 'мн,рд', '(мн,рд)', 'none', '', '%s', 'герой')


def odd_names(ctx, apart):
    """Externals whose names read like features or lists of them."""
    known = [ODD if ctx.bool(side + '.known') else ('герой',) for side in ('one', 'two')]
    if apart:
        texts = ['[слово|' + ctx.choose(side + '.part', ODD + ('рд,мн',)) + ']' for side in ('one', 'two')]
    else:
        texts = ['[слово|' + '|'.join(ctx.choose('%s.part%d' % (side, i), ('рд', '(рд)', 'мн,рд', 'мн')) for i in range(2)) + ']' for side in ('one', 'two')]
    made, read = [], []
    for text, externals in zip(texts, known):
        want = markup.parse(text, externals)
        if isinstance(want, markup.Problem):
            ctx.cover('not a template')
            return
        template = templates.Template()
        template.parse(text, externals=externals)
        made.append(template)
        read.append(want)
    first, second = made
    equal = first == second
    ctx.check(ctx.Implies(texts[0] == texts[1] and known[0] == known[1], equal), 'same-text-equal')
    ctx.check(ctx.Implies(ctx.Not(same(ctx, *read)), ctx.Not(equal)), 'different-not-equal')
    ctx.check(ctx.Iff(second == first, equal), 'symmetric')
    data = ctx.json_roundtrip(first.serialize())
    again = templates.Template.deserialize(data)
    ctx.check(ctx.Eq(again, first), 'equal')
    ctx.check(ctx.Eq(ctx.json_roundtrip(again.serialize()), data), 'same-data')
    given = {name: noun('о%d' % i, r.CASE.records[i % 6], r.NUMBER.records[i // 6 % 2]) for i, name in enumerate(ODD)}
    given['слово'] = noun('с')
    texts = [t.substitute(externals=given, dictionary=markup.Echo()) for t in (first, again)]
    ctx.check(ctx.same_text(*texts), 'same-text')
    ctx.observe('text', texts[0])


def large(ctx, number, parts):
    """Templates of many variables with many parts, one of them arbitrary, and a pair that differs there."""
    place = ctx.choose('place', [0, number // 2, number - 1])
    texts = []
    for side in ('one', 'two'):
        text = ''
        for i in range(number):
            text = text + 'п%' * (i % 3) + '[слово%d' % i
            for j in range(parts):
                text = text + '|' + (ctx.choose('%s.part' % side, ['мн', 'герой', 'ед,вн', 'Число']) if i == place and j == parts - 1 else ('герой', 'вн', 'число', 'ед,дт')[(i + j) % 4])
            text = text + ']'
        texts.append(text + ctx.string(side + '.tail', 0, 1, 'а%'))
    a, b = [markup.parse(t, EXTERNALS) for t in texts]
    first, second = templates.Template(), templates.Template()
    first.parse(texts[0], externals=EXTERNALS)
    second.parse(texts[1], externals=EXTERNALS)
    equal = first == second
    ctx.check(ctx.Iff(same(ctx, a, b), equal), 'equal-iff-same')
    roundtrip(ctx, first)


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = [
        Scenario('again', again, 'two of eight texts parsed by one object, stored after each', dict(texts=['[слово]', '[герой]', '[Герой]', '[слово|мн]', '[слово|герой]', 'а [слово]', '[слово] [герой]', '[слово] [слово]'])),
        Scenario('structure-1', structure, 'one variable: three names, nine shapes of parts, every text of up to 2 and 1 characters around', dict(number=1, names=['слово', 'Герой', 'иное'])),
        Scenario('structure-2', structure, 'two variables: nine shapes of parts each, texts of up to 2 and 1 characters around', dict(number=2, names=['слово', 'Герой'] if deep else ['слово'])),
        Scenario('names', names, 'every name of up to %d characters' % (4 if deep else 3), dict(alphabet=c.LETTERS + 'zZ 1%', length=4 if deep else 3)),
        Scenario('pair-text', pair, 'every two texts of up to 3 characters', dict(alphabet='а[%s]' if deep else 'а[]%', length=4 if deep else 3, before='', after='')),
        Scenario('pair-any', pair, 'every two texts of up to 2 characters of ASCII, Cyrillic and common signs before a variable', dict(alphabet=c.EVERY.replace('[', ''), length=2, before='', after='[герой|мн]')),
        Scenario('pair-any-name', pair, 'every two names of up to 2 characters of ASCII, Cyrillic and common signs', dict(alphabet=''.join(x for x in c.EVERY if x not in '[]|'), length=2, before='[', after='а]')),
        Scenario('any-name', names, 'every name of up to 2 characters of ASCII, Cyrillic and common signs', dict(alphabet=''.join(x for x in c.EVERY if x not in '[]|'), length=2)),
        Scenario('pair-name', pair, 'every two names of up to 2 characters', dict(alphabet='аАб |', length=2, before='п[', after=']')),
        Scenario('pair-part', pair, 'every two parts of up to 2 letters', dict(alphabet='мнвед,', length=3 if deep else 2, before='[слово|', after=']')),
        Scenario('pair-around', pair, 'every two texts of up to 2 characters before a variable', dict(alphabet='а%sс', length=3 if deep else 2, before='', after='[герой|мн]с')),
        Scenario('large-20', large, 'two templates of twenty variables with three parts each that may differ in one part and the last character', dict(number=20, parts=3)),
        Scenario('large-3', large, 'two templates of three variables with twelve parts each that may differ in one part and the last character', dict(number=3, parts=12)),
        Scenario('ordered-2', ordered, 'every two templates with two of five parts', dict(number=2)),
        Scenario('ordered-3', ordered, 'every two templates with three of three parts', dict(number=3)),
        Scenario('odd-names', odd_names, 'every two templates with one of ten parts, externals named like features or not', dict(apart=True)),
        Scenario('odd-names-2', odd_names, 'every two templates with two of four parts, externals named like features or not', dict(apart=False)),
        Scenario('chosen', chosen, 'every two of 108 templates', {}),
    ]
    for i, relation in enumerate(c.ALL):
        out.append(Scenario('features-' + relation.__name__, features, 'every value, and every value of another group', dict(relations=[relation, c.ALL[(i + 11) % len(c.ALL)]])))
    return out
