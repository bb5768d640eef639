# Reading of a single template variable.
from sx.scenario import Scenario

from utg import exceptions
from utg import relations as r
from utg import templates
from utg import words

from props import common as c
from props import markup

E = exceptions


def same_parts(ctx, a, b):
    if len(a) != len(b):
        return False
    acc = []
    for x, y in zip(a, b):
        if isinstance(x, words.Properties) != isinstance(y, words.Properties):
            return False
        if isinstance(x, words.Properties):
            for relation in c.ALL:
                acc.append(ctx.Iff(x.is_specified(relation), y.is_specified(relation)))
                acc.append(ctx.Eq(x.get(relation), y.get(relation)))
        else:
            acc.append(ctx.same_text(x, y))
    return ctx.And(*acc)


def decide(ctx, content, externals, template=None):
    want = markup.read(content, externals)
    if template is None:
        template = templates.Template()
    result, error = ctx.raises(template.parse, '[' + content + ']', externals=externals)
    if isinstance(want, markup.Problem):
        if want.kind == 'format':
            ctx.check(isinstance(error, E.WrongDependencyFormatError), 'empty-name-reported')
        else:
            ctx.check(isinstance(error, E.UnknownVerboseIdError), 'unknown-feature-reported')
            ctx.check(ctx.same_text(error.arguments['verbose_id'], want.text), 'unknown-feature-named')
        ctx.observe('error', error)
        return
    ctx.check(error is None, 'accepted')
    stored = template.serialize()
    ctx.check(len(stored['substitutions']) == 1, 'one-variable')
    one = stored['substitutions'][0]
    ctx.check(ctx.same_text(one['id'], want.name), 'name')
    ctx.check(same_parts(ctx, markup.normal_parts(one['dependencies']), markup.expected_parts(want)), 'parts')
    ctx.observe('stored', one)


def name(ctx, alphabet, length, tail):
    """Names: case and surrounding spaces."""
    decide(ctx, ctx.string('name', 1, length, alphabet) + tail, ('герой', 'а'))


def free(ctx, alphabet, length, externals):
    """Any content of a variable."""
    decide(ctx, ctx.string('content', 1, length, alphabet), externals)


def part(ctx, alphabet, length, externals):
    """Any second part."""
    decide(ctx, 'x|' + ctx.string('part', 0, length, alphabet), externals)


def features(ctx, relations, spaces):
    """Known features of every group, in any letter case, with spaces anywhere between them."""
    content = 'x|'
    for i, relation in enumerate(relations):
        value = ctx.record('v%d' % i, relation)
        written = value.verbose_id
        if ctx.bool('upper%d' % i):
            written = written.upper()
        left = ctx.string('l%d' % i, 0, spaces, ' \t\n')
        right = ctx.string('r%d' % i, 0, spaces, ' \t\n')
        content = content + (',' if i else '') + left + written + right
    decide(ctx, content, ('герой',))


def order(ctx, number):
    """External names and feature lists in any order, capitalised or not."""
    content = ctx.choose('name', ['слово', 'Слово', 'герой', 'Герой', ' Герой '])
    for i in range(number):
        content = content + '|' + ctx.choose('part%d' % i, ['герой', 'мн', 'ед,вн', 'Герой ', ' мн , мр,ед', '', 'враг', 'строч', 'загл,ед'])
    decide(ctx, content, ('герой', 'враг'))


def shadow(ctx, texts):
    """A part that is both a feature name and an external is the external."""
    names = ctx.subset('externals', ['вн', 'мн', 'герой', 'слово'])
    content = 'слово'
    for i in range(2):
        content = content + '|' + ctx.choose('part%d' % i, texts)
    decide(ctx, content, tuple([n for n in ('вн', 'мн', 'герой', 'слово') if n in names]))


def again(ctx, texts):
    """One template object reads two texts, or the same text twice, with other externals."""
    template = templates.Template()
    for i in range(2):
        names = ctx.subset('externals%d' % i, ['мн', 'герой'])
        decide(ctx, ctx.choose('text%d' % i, texts), tuple([n for n in ('мн', 'герой') if n in names]), template)


def several(ctx, number, texts, between):
    """Several variables of one template are read each on its own."""
    written = [ctx.choose('variable%d' % i, texts) for i in range(number)]
    gaps = [ctx.string('gap%d' % i, 0, 1, between) for i in range(number - 1)] + ['']
    text = ''
    for variable, gap in zip(written, gaps):
        text = text + '[' + variable + ']' + gap
    template = templates.Template()
    template.parse(text, externals=('герой', 'враг'))
    stored = template.serialize()['substitutions']
    ctx.check(len(stored) == number, 'one-per-variable')
    for variable, one in zip(written, stored):
        want = markup.read(variable, ('герой', 'враг'))
        ctx.check(ctx.same_text(one['id'], want.name), 'name')
        ctx.check(same_parts(ctx, markup.normal_parts(one['dependencies']), markup.expected_parts(want)), 'parts')
    ctx.observe('stored', stored)


VARIABLES = ['слово', 'Слово', ' слово ', 'слово|мн', 'Слово|мн', 'слово|МН', 'слово|герой', 'слово|герой|мн', 'слово|мн|герой', 'герой', 'Герой', 'слово|ед', 'слово|загл', 'слово|мн,дт', 'слово|мн|дт']


def rendered(ctx, relations):
    """The features named in a variable are those the word shows."""
    word = words.Word(type=r.WORD_TYPE.NOUN, forms=c.marked_forms(r.WORD_TYPE.NOUN, 'x'))
    values = [ctx.record('v%d' % i, relation) for i, relation in enumerate(relations)]
    content = '[слово'
    for i, value in enumerate(values):
        content = content + ctx.choose('s%d' % i, ['|', ',', ' , '] if i else ['|', ' | ']) + value.verbose_id
    template = templates.Template()
    template.parse(content + ']', externals=('слово',))
    shown = template.substitute(externals={'слово': words.WordForm(word)}, dictionary=markup.Echo())
    want = words.Properties(*values)
    for i, key in enumerate(c.KEYS['NOUN']):
        here = ctx.And(*[ctx.Eq(want.get(relation), k) for relation, k in zip(c.SCHEMAS['NOUN'], key)])
        ctx.check(ctx.Implies(here, ctx.same_text(shown, 'x%d' % i)), 'form')
    ctx.observe('shown', shown)


def large(ctx, number, place):
    """Many parts, many features in a part, long names and long runs of spaces."""
    content = ctx.choose('name', ['слово', ' ' * 40 + 'Слово' + ' ' * 40, 'Слово' * 30, 'герой'])
    for i in range(number):
        if i in place:
            content = content + '|' + ctx.choose('part%d' % i, ['герой', 'мн', ',,мн,' + ' ' * 40 + 'вн,мр,од,пф,нв,дст,буд,1л,мн,ед,вн,тв', 'г' * 70, '  ' * 30])
        else:
            content = content + '|' + ('герой', 'мн', '', 'ед,дт', 'враг', ' Герой')[i % 6]
    decide(ctx, content, ('герой', 'враг', 'г' * 70))


def odd(ctx):
    """Names and parts with letters that have unusual capitals."""
    one, two = ctx.choose('one', c.ODD), ctx.choose('two', ['ß', 'ss', 'İ', 'i', 'Σ', 'ﬁ', 'мн', '\u3000'])
    shape = ctx.choose('shape', ['%s', ' %s ', 'х%s', 'Я%s', '%sЯ', '%s|%s', 'х|%s', 'х|%sа|%s', 'х|мн, %s,ед'])
    content = ''
    for i, piece in enumerate(shape.split('%s')):
        content = content + (['', one, two][i] if i < 3 else two) + piece
    decide(ctx, content, ('герой', 'ß', 'ss', 'i̇', 'i', 'σ', 'ς', 'fi', one.lower() + 'а'))


def SCENARIOS(tier):
    deep = tier == 'thorough'
    n = 5 if deep else 4
    out = [
        Scenario('again', again, 'two of five texts read by one object, each with any externals among two', dict(texts=['слово|мн', 'слово|герой', 'слово|Мн|герой', 'герой|мн,дт', ' |мн'])),
        Scenario('name', name, 'every name of up to %d characters over letters of both cases, Latin letters, digits and spaces' % n, dict(
            alphabet=c.LETTERS + 'azAZ09 \t\n_-', length=n, tail='')),
        Scenario('name-and-part', name, 'every name of up to %d characters followed by a part' % (n - 1), dict(
            alphabet='аЯяёЁzZ1 \t', length=n - 1, tail='|мн')),
        Scenario('any-name', name, 'every name of up to 2 characters of ASCII, Cyrillic and common signs but brackets and bars', dict(
            alphabet=''.join(x for x in c.EVERY if x not in '|]['), length=2, tail='|мн')),
        Scenario('any-part', part, 'every part of up to 2 characters of ASCII, Cyrillic and common signs but brackets', dict(
            alphabet=''.join(x for x in c.EVERY if x not in ']['), length=2, externals=('б', 'вн'))),
        Scenario('free', free, 'every content of up to %d characters over letters, bars, commas and spaces' % (n + 1), dict(
            alphabet='аА|, ', length=n + 1, externals=('а',))),
        Scenario('free-features', free, 'every content of up to %d characters over the letters of several short names, bars, commas and spaces' % n, dict(
            alphabet='едмнЕМ|, ', length=n, externals=('е',))),
        Scenario('part-features', part, 'every part of up to %d characters over the letters of several short names, commas and spaces' % (n + 1), dict(
            alphabet='едмнр,', length=n + 1, externals=('ме',))),
        Scenario('part-names', part, 'every part of up to %d characters over letters of both cases and spaces' % n, dict(
            alphabet='гГеЕрн |', length=n, externals=('ге', 'ед', 'р'))),
        Scenario('part-short', part, 'every part of up to 3 characters over all lower-case letters, digits and Latin', dict(
            alphabet='абвгдежзиклмнопрстуфхцчшщъыьэюяё123zZ%(', length=3 if deep else 2, externals=('б', 'вн'))),
        Scenario('order-2', order, 'every two of nine parts after five names', dict(number=2)),
        Scenario('order-3', order, 'every three of nine parts after five names', dict(number=3)),
        Scenario('shadow', shadow, 'every set of externals among feature names, every two of six parts', dict(texts=['вн', 'мн', 'вн,мн', 'герой', 'Вн', 'слово'])),
        Scenario('several-2', several, 'every two of fifteen variables side by side or with one character between', dict(number=2, texts=VARIABLES, between=']| %сС')),
        Scenario('several-3', several, 'every three of %d variables' % (15 if deep else 7), dict(number=3, texts=VARIABLES if deep else VARIABLES[:5] + VARIABLES[9:11], between=' ')),
        Scenario('odd', odd, 'names and parts with 27 unusual letters in nine shapes', {}),
        Scenario('large-9', large, 'nine parts, the first and last of five kinds, long names, runs of spaces and lists', dict(number=9, place=(0, 8))),
        Scenario('large-40', large, 'forty parts, the 20th and the last of five kinds, long names, runs of spaces and lists', dict(number=40, place=(19, 39))),
        Scenario('rendered', rendered, 'every noun form, number and case in a variable', dict(relations=[r.NOUN_FORM, r.NUMBER, r.CASE])),
        Scenario('rendered-twice', rendered, 'every two cases and a number in a variable', dict(relations=[r.CASE, r.NUMBER, r.CASE])),
    ]
    if deep:
        out.append(Scenario('order-4', order, 'every four of nine parts after five names', dict(number=4)))
    for i, relation in enumerate(c.ALL):
        out.append(Scenario('features-' + relation.__name__, features, 'every value, upper or lower case, up to 2 spaces around', dict(relations=[relation], spaces=2)))
        other = c.ALL[(i + 3) % len(c.ALL)]
        out.append(Scenario('features-%s-%s' % (relation.__name__, other.__name__), features, 'every two values, upper or lower case' + (', up to 1 space around' if deep else ''),
                            dict(relations=[relation, other], spaces=1 if deep else 0)))
    return out
