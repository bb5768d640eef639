# Plain text of a template is reproduced exactly.
from sx.scenario import Scenario

from utg import exceptions
from utg import relations as r
from utg import templates
from utg import words

from props import common as c
from props import markup


def free(ctx, alphabet, lo, hi):
    """Any text at all."""
    text = ctx.string('text', lo, hi, alphabet)
    externals = ('а',)
    parsed = markup.parse(text, externals)
    template = templates.Template()
    result, error = ctx.raises(template.parse, text, externals=externals)
    if isinstance(parsed, markup.Problem):
        ctx.check(isinstance(error, exceptions.UtgError), 'reported')
        ctx.observe('error', error)
        return
    ctx.check(error is None, 'parsed')
    literals, variables = parsed
    want = literals[0]
    for variable, literal in zip(variables, literals[1:]):
        shown = '{а}' if variable.name == 'а' else '<' + variable.name + '>'
        want = want + shown + literal
    shown = template.substitute(externals={'а': markup.echo('а')}, dictionary=markup.Echo())
    ctx.check(ctx.same_text(shown, want), 'text')
    ctx.observe('shown', shown)


def around(ctx, alphabet, lengths, variables):
    """Arbitrary plain text around variables."""
    parts = [ctx.string('p%d' % i, 0, n, alphabet) for i, n in enumerate(lengths)]
    text = parts[0]
    want = parts[0]
    for (source, shown), part in zip(variables, parts[1:]):
        text = text + source + part
        want = want + shown + part
    template = templates.Template()
    template.parse(text, externals=('герой',))
    externals = {'герой': markup.echo('г%с%%')}
    result = template.substitute(externals=externals, dictionary=markup.Echo())
    ctx.check(ctx.same_text(result, want), 'text')
    again = templates.Template.deserialize(ctx.json_roundtrip(template.serialize()))
    ctx.check(ctx.same_text(again.substitute(externals=externals, dictionary=markup.Echo()), want), 'text-after-storage')
    ctx.check(ctx.same_text(template.substitute(externals=externals, dictionary=markup.Echo()), want), 'text-again')
    ctx.observe('result', result)


def words_text(ctx, alphabet, length):
    """Whatever the word shows is put in as it is."""
    shown = ctx.string('shown', 0, length, alphabet)
    other = ctx.string('other', 0, 2, alphabet)
    template = templates.Template()
    template.parse('-[а]%[б]+', externals=('а', 'б'))
    externals = {'а': words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=[shown])),
                 'б': words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=[other]))}
    result = template.substitute(externals=externals, dictionary=markup.Echo())
    ctx.check(ctx.same_text(result, '-' + shown + '%' + other + '+'), 'text')
    ctx.observe('result', result)


def reuse(ctx, alphabet, length):
    """A second text parsed by the same object stands alone."""
    first = ctx.choose('first', ['', '[б]', 'х[б][а]%', '[а]'])
    shape = ctx.choose('shape', 3)
    p = ctx.string('p', 0, length, alphabet)
    q = ctx.string('q', 0, length, alphabet)
    text, want = [(p + '[а]' + q, p + '{а}' + q), (p + q, p + q), (p + '[а]' + q + '[б]', p + '{а}' + q + '<б>')][shape]
    template = templates.Template()
    template.parse(first, externals=('а',))
    if ctx.bool('rendered'):
        template.substitute(externals={'а': markup.echo('а')}, dictionary=markup.Echo())
    template.parse(text, externals=('а',))
    result = template.substitute(externals={'а': markup.echo('а')}, dictionary=markup.Echo())
    ctx.check(ctx.same_text(result, want), 'text')
    again = templates.Template.deserialize(ctx.json_roundtrip(template.serialize()))
    ctx.check(ctx.same_text(again.substitute(externals={'а': markup.echo('а')}, dictionary=markup.Echo()), want), 'text-after-storage')
    ctx.observe('result', result)


def odd(ctx):
    """Unusual letters in plain text and in names."""
    one = ctx.choose('one', c.ODD)
    before, after = ctx.string('before', 0, 1, 'а%'), ctx.string('after', 0, 1, 'а%')
    name = ctx.choose('name', ['слово', 'а' + one, one + 'а'])
    template = templates.Template()
    template.parse(before + one + after + '[' + name + ']' + one + '[б]', externals=())
    lower = name.strip().lower()
    want = before + one + after + '<' + lower + '>' + one + '<б>'
    result = template.substitute(externals={}, dictionary=markup.Echo())
    ctx.check(ctx.same_text(result, want), 'text')
    ctx.observe('result', result)


def large(ctx, sizes, alphabet):
    """Long texts, long names and many variables, with a few arbitrary characters."""
    length, width, number = ctx.choose('size', sizes)
    p = ctx.string('p', 0, 1, alphabet)
    q = ctx.string('q', 0, 1, alphabet)
    filler = 'аб %]'
    plain = (filler * length)[:length] + p
    text = want = q
    for i in range(number):
        name = ('слово%d' % i) * width
        text = text + plain + '[' + name + ']'
        want = want + plain + '<' + name + '>'
    template = templates.Template()
    template.parse(text + plain + q, externals=())
    want = want + plain + q
    result = template.substitute(externals={}, dictionary=markup.Echo())
    ctx.check(ctx.same_text(result, want), 'text')
    again = templates.Template.deserialize(ctx.json_roundtrip(template.serialize()))
    ctx.check(ctx.same_text(again.substitute(externals={}, dictionary=markup.Echo()), want), 'text-after-storage')


def SCENARIOS(tier):
    deep = tier == 'thorough'
    n = 7 if deep else 6
    plain = 'аЯs%]|,\n\\{}(0 ёd-.'
    return [
        Scenario('free-%d' % i, free, 'every text of %d characters over letters, brackets, percent signs, bars, spaces and line breaks' % i,
                 dict(alphabet='а[]%|s \n', lo=i, hi=i)) for i in range(n + 1)
    ] + [
        Scenario('free-long', free, 'every text of %d characters over a letter, brackets and the percent sign' % (n + 1 + deep), dict(alphabet='а[]%', lo=n + 1 + deep, hi=n + 1 + deep)),
        Scenario('plain', around, 'every text of up to %d characters without an opening bracket' % (n + 2), dict(alphabet=plain, lengths=(n + 2,), variables=())),
        Scenario('plain-open', around, 'every text of up to %d characters without a closing bracket' % (n + 1), dict(alphabet='[а%s([ ', lengths=(n + 1,), variables=())),
        Scenario('around-one', around, 'every plain text of up to 3 characters before and after a variable', dict(
            alphabet=plain, lengths=(3, 3), variables=(('[герой]', '{г%с%%}'),))),
        Scenario('any-character', around, 'every text of up to 2 characters of ASCII, Cyrillic and common signs but no opening bracket, around a variable', dict(
            alphabet=c.EVERY.replace('[', ''), lengths=(2, 1), variables=(('[герой]', '{г%с%%}'),))),
        Scenario('any-text', around, 'every text of up to 4 characters of ASCII, Cyrillic and common signs but no opening bracket', dict(
            alphabet=c.EVERY.replace('[', ''), lengths=(4,), variables=())),
        Scenario('around-two', around, 'every plain text of up to 2 characters around two variables', dict(
            alphabet=plain, lengths=(2, 2, 2), variables=(('[Герой|вн]', '{г%с%%}'), ('[слово|герой|рд,мн]', '<слово>')))),
        Scenario('around-percent', around, 'every plain text of up to 2 characters around names with percent signs', dict(
            alphabet='%s(d)аa ', lengths=(2, 2, 2), variables=(('[а%s]', '<а%s>'), ('[%%]', '<%%>')))),
        Scenario('around-bracket', around, 'every plain text of up to 2 characters around names with opening brackets', dict(
            alphabet='% ]а', lengths=(2, 2), variables=(('[[а]', '<[а>'),))),
        Scenario('words', words_text, 'every displayed word of up to 6 characters', dict(alphabet='а%s([]0\n\\', length=6)),
        Scenario('any-words', words_text, 'every displayed word of up to 3 characters of ASCII, Cyrillic and common signs', dict(alphabet=c.EVERY, length=3)),
        Scenario('odd', odd, '27 unusual letters in plain text and names', {}),
        Scenario('large', large, 'texts of up to 1200 characters, names of up to 600, up to 45 variables, two arbitrary characters in and around the plain parts', dict(
            sizes=[(0, 1, 45), (40, 1, 12), (7, 12, 3), (0, 100, 1), (1200, 1, 1)], alphabet='а%] ')),
        Scenario('reuse', reuse, 'four earlier texts, three shapes, every plain text of up to 2 characters', dict(alphabet='а%] ', length=2)),
    ]
