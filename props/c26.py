# What is reported for bad input, and that nothing else ever escapes.
from sx.scenario import Scenario

from utg import constructors
from utg import dictionary
from utg import exceptions as E
from utg import relations as r
from utg import templates
from utg import words

from props import common as c
from props import markup

W = r.WORD_TYPE


def carried(ctx, said, text):
    """The offending text, with or without its brackets."""
    return ctx.Or(ctx.same_text(said, text), ctx.same_text(said, '[' + text + ']'))


def readable(ctx, error, when):
    """An error can be shown, and shows what it carries."""
    message, problem = ctx.raises(str, error)
    ctx.check(problem is None, 'message' + when)


def parsed(ctx, text, given):
    """The template, or None if the text is bad."""
    want = markup.parse(text, given)
    template = templates.Template()
    result, error = ctx.raises(template.parse, text, externals=given)
    if not isinstance(want, markup.Problem):
        ctx.check(error is None, 'good-text-accepted')
        ctx.cover('good')
        return template, want[1]
    if want.kind == 'format':
        ctx.check(isinstance(error, E.WrongDependencyFormatError), 'format-error')
        ctx.check(carried(ctx, error.arguments['dependency'], want.text), 'format-error-carries-text')
        ctx.cover('format')
    else:
        ctx.check(isinstance(error, E.UnknownVerboseIdError), 'unknown-feature-error')
        ctx.check(ctx.same_text(error.arguments['verbose_id'], want.text), 'unknown-feature-carries-text')
        ctx.cover('unknown')
    readable(ctx, error, '-parse')
    ctx.observe('parse', error)
    return None, None


def among(ctx, text, texts):
    return ctx.Or(*[ctx.same_text(text, t) for t in texts])


def rendered(ctx, template, variables, known, given, vocabulary, externals, when=''):
    shown, error = ctx.raises(template.substitute, externals=externals, dictionary=vocabulary)
    bad = []  # for each variable: its own condition of failing, with the kind
    for v in variables:
        nameless = ctx.Not(among(ctx, v.name, known + given))
        missing = [(ctx.Not(among(ctx, p, given)), p) for kind, p in v.parts if kind == 'external']
        bad.append((nameless, v.name, missing))
    fails = [ctx.Or(nameless, *[m for m, p in missing]) for nameless, name, missing in bad]
    if error is None:
        ctx.check(ctx.Not(ctx.Or(*fails)), 'shown-only-if-complete' + when)
        ctx.cover('shown')
        ctx.observe('shown' + when, shown)
        return
    # the error is about a variable that does fail, and says how
    if isinstance(error, E.NoWordsFoundError):
        said = error.arguments['text']
        ctx.check(ctx.Or(*[ctx.And(nameless, ctx.same_text(said, name)) for nameless, name, missing in bad]), 'missing-word-carries-text' + when)
        ctx.cover('no-word')
    elif isinstance(error, E.ExternalDependecyNotFoundError):
        said = error.arguments['dependency']
        ctx.check(ctx.Or(*[ctx.And(m, ctx.same_text(said, p)) for nameless, name, missing in bad for m, p in missing]), 'missing-external-carries-text' + when)
        ctx.cover('no-external')
    else:
        ctx.fail('only-documented-errors' + when)
    readable(ctx, error, '-render')
    ctx.observe('render' + when, error)


def world(ctx, texts, names):
    known = [t for t in texts if ctx.bool('dictionary.%s' % t)]
    given = [t for t in names if ctx.bool('external.%s' % t)]
    vocabulary = dictionary.Dictionary(words=[words.Word(type=W.TEXT, forms=[t]) for t in known])
    return known, given, vocabulary, {t: markup.echo(t) for t in given}


def whole(ctx, text, allowed, texts, names):
    template, variables = parsed(ctx, text, allowed)
    if template is None:
        return
    known, given, vocabulary, externals = world(ctx, texts, names)
    rendered(ctx, template, variables, known, given, vocabulary, externals)


def free(ctx, alphabet, length, allowed, texts, names):
    """Any text."""
    whole(ctx, ctx.string('text', 0, length, alphabet), allowed, texts, names)


def inside(ctx, alphabet, length, allowed, texts, names):
    """Any variable within a text."""
    whole(ctx, '%]х[' + ctx.string('content', 1, length, alphabet) + ']%', allowed, texts, names)


def pieces(ctx, number, variables, options):
    """Texts put together of meaningful pieces."""
    text = ''
    for i in range(variables):
        text = text + ctx.choose('name%d' % i, ['[а', '[Б', '[ ', '[%s', 'а'])
        for j in range(number):
            text = text + ctx.choose('part%d.%d' % (i, j), options)
        text = text + ctx.choose('end%d' % i, [']', '] '])
    whole(ctx, text, ('а', 'б'), ['а', 'б'], ['а', 'б'])


def large(ctx, sizes):
    """Long texts, names and lists, good and bad."""
    times = ctx.choose('times', sizes)
    name = ctx.string('n', 0, 1, 'а |%') + 'б' * times
    middle = ctx.choose('middle', ['', '|мн', '|xx', '|аа', '|мн,ед', '|мн,'])
    part = middle * ctx.choose('parts', [1, 12])
    end = ctx.choose('end', ['', '|' + 'я' * times, '|мн,' + 'я' * times, '|аа', '[', '%'])
    whole(ctx, '%s ' * times + '[' + name + part + end + ']' + '%' * times, ('аа',), ['аа'], ['аа'])


def stored(ctx):
    """Also for a template read back from storage, and for one that failed to parse before."""
    template = templates.Template()
    text = '[' + ctx.string('n', 1, 1, 'аА б') + '|' + ctx.string('p', 1, 1, 'аБв') + ']'
    allowed = ('а', 'б')
    want = markup.parse(text, allowed)
    result, error = ctx.raises(template.parse, text, externals=allowed)
    ctx.check((error is not None) == isinstance(want, markup.Problem), 'parse')
    if error is not None:
        text = '[б|а]'
        want = markup.parse(text, allowed)
        template.parse(text, externals=allowed)
    again = templates.Template.deserialize(ctx.json_roundtrip(template.serialize()))
    known, given, vocabulary, externals = world(ctx, ['а', 'б'], ['а', 'б'])
    rendered(ctx, template, want[1], known, given, vocabulary, externals)
    rendered(ctx, again, want[1], known, given, vocabulary, externals, '-stored')


def kinds(ctx, kind, fill, relations):
    """Words of every kind with any features next to words of every kind: always rendered."""
    def build(kind, tag):
        forms = c.marked_forms(kind, tag)
        if fill == 'empty':
            forms = [''] * len(forms)
        elif fill == 'first':
            forms = [ctx.string(tag, 0, 1, 'аб')] + [''] * (len(forms) - 1)
        return words.Word(type=kind, forms=forms)
    master = ctx.choose('master', W.records)
    relation = ctx.choose('relation', relations)
    value = ctx.record('value', relation)
    hero = words.WordForm(build(master, 'h'), words.Properties(ctx.record('own', r.NUMBER, none=True)))
    slave = words.WordForm(build(kind, 's'))
    template = templates.Template()
    template.parse('[слово|герой|' + value.verbose_id + '] [Слово|герой]', externals=('герой', 'слово'))
    shown, error = ctx.raises(template.substitute, externals={'герой': hero, 'слово': slave}, dictionary=dictionary.Dictionary())
    ctx.check(error is None, 'always-rendered')
    ctx.observe('shown', shown)


def numbers(ctx, kind, text, lo, hi):
    """Next to any integer too."""
    n = ctx.int('n', lo, hi)
    word = words.Word(type=kind, forms=c.marked_forms(kind, 's'))
    template = templates.Template()
    mode = ctx.choose('mode', ['', '|сзв', '|пзв', '|вн', '|мн,тв'])
    template.parse(text + '[слово|n' + mode + ']', externals=('n', 'слово'))
    shown, error = ctx.raises(template.substitute, externals={'n': constructors.construct_integer(n), 'слово': words.WordForm(word)}, dictionary=dictionary.Dictionary())
    ctx.check(error is None, 'always-rendered')


def numerals(ctx):
    """A numeral whose class was not given is as good as any other."""
    form = ctx.record('form', r.INTEGER_FORM, none=True)
    number = ctx.record('number', r.NUMBER, none=True)
    numeral = words.WordForm(words.Word(type=W.INTEGER, forms=['N'], properties=words.Properties(form, number)))
    kind = ctx.choose('kind', W.records)
    slave = words.WordForm(words.Word(type=kind, forms=c.marked_forms(kind, 's'), properties=words.Properties(ctx.record('case', r.CASE, none=True))))
    template = templates.Template()
    template.parse('[слово|n]', externals=('n', 'слово'))
    shown, error = ctx.raises(template.substitute, externals={'n': numeral, 'слово': slave}, dictionary=dictionary.Dictionary())
    ctx.check(error is None, 'always-rendered')
    ctx.observe('shown', shown)


def SCENARIOS(tier):
    deep = tier == 'thorough'
    n = 6 if deep else 5
    out = [
        Scenario('free-markup', free, 'every text of up to %d of the characters "[ ] | а", every dictionary and externals' % n, dict(
            alphabet='[]|а', length=n, allowed=('а',), texts=['а'], names=['а']), covers=('good', 'format', 'shown', 'no-word')),
        Scenario('free-percent', free, 'every text of up to %d of the characters "[ ] %% s space"' % (n - 1), dict(
            alphabet='[]%s ', length=n - 1, allowed=(), texts=['%', 's'], names=['%s'])),
        Scenario('free-lines', free, 'every text of up to %d characters over brackets, line breaks and braces' % (n - 1), dict(
            alphabet='[]\n\t{}', length=n - 1, allowed=(), texts=['{'], names=['{}'])),
        Scenario('inside', inside, 'every variable of up to %d of the characters "а Б | , space"' % n, dict(
            alphabet='аБ|, ', length=n, allowed=('а',), texts=['а'], names=['б']), covers=('good', 'format', 'unknown', 'shown', 'no-word', 'no-external')),
        Scenario('inside-features', inside, 'every variable of up to %d letters of short names, bars and commas' % n, dict(
            alphabet='емнд|,', length=n, allowed=('е',), texts=['е', 'м'], names=['е'])),
        Scenario('inside-percent', inside, 'every variable of up to %d percent signs, letters, bars and brackets' % (n - 1), dict(
            alphabet='%s(|d)[', length=n - 1, allowed=('%s',), texts=['%', '%s'], names=['s', '%s'])),
        Scenario('inside-cases', inside, 'every variable of up to 3 letters of both cases and alphabets', dict(
            alphabet='aAzяЯёЁ|', length=3, allowed=('a', 'я'), texts=['я', 'a'], names=['ё', 'я'])),
        Scenario('free-any', free, 'every text of up to %d characters of ASCII, Cyrillic and common signs' % (4 if deep else 3), dict(
            alphabet=c.EVERY, length=4 if deep else 3, allowed=(), texts=['а'], names=['б'])),
        Scenario('inside-any', inside, 'every variable of up to %d characters of ASCII, Cyrillic and common signs' % (3 if deep else 2), dict(
            alphabet=c.EVERY, length=3 if deep else 2, allowed=('б',), texts=['а'], names=['б'])),
        Scenario('pieces', pieces, 'one variable with two of 12 parts', dict(number=2, variables=1, options=[
            '', '|', '|а', '|Б ', '|мн', '|мн, ед', '|,', '|xx', '|мн,%s', '|а,б', '[', '|герой'])),
        Scenario('pieces-two', pieces, 'two variables with one of %d parts' % (8 if deep else 4), dict(number=1, variables=2, options=[
            '|а', '|мн', '|%(a)s', '|в'] + ['', '|б', '|мн,xx', '||'] * deep)),
        Scenario('large', large, 'texts and names of up to 300 characters, up to 13 parts, good and bad', dict(sizes=[2, 17, 150])),
        Scenario('stored', stored, 'short names and parts, every dictionary and externals', {}),
        Scenario('numerals', numerals, 'every class and number of a numeral, given or not, next to every part of speech', {}),
    ]
    for kind in W.records:
        for fill in ('empty', 'first', 'full'):
            few = [r.WORD_CASE, r.NOUN_FORM, r.TIME, r.WORD_TYPE]
            if fill == 'empty' or kind in (W.NOUN, W.PREPOSITION) or deep:
                out.append(Scenario('kinds-%s-%s' % (kind.name, fill), kinds, 'every kind of other word, every single feature asked' + ('' if deep or fill == 'empty' else ' of four groups'),
                                    dict(kind=kind, fill=fill, relations=c.ALL if deep or fill == 'empty' else few)))
        if kind in (W.NOUN, W.ADJECTIVE) or deep and kind != W.PREPOSITION:
            out.append(Scenario('numbers-%s' % kind.name, numbers, 'every integer, five requests', dict(kind=kind, text='', lo=None, hi=None)))
        out.append(Scenario('shown-numbers-%s' % kind.name, numbers, 'every integer from -1200 to -1, shown, five requests', dict(kind=kind, text='[n] ', lo=-1200, hi=-1)))
    return out
