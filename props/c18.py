# The report of missing words.
import unicodedata

from sx.scenario import Scenario

from utg import dictionary
from utg import exceptions
from utg import relations as r
from utg import templates
from utg import words

from props import common as c
from props import markup

W = r.WORD_TYPE


def world(ctx, texts):
    known = [ctx.bool('dictionary.%s' % t) for t in texts]
    given = [ctx.bool('external.%s' % t) for t in texts]
    known = [t for t, k in zip(texts, known) if k]
    given = [t for t, k in zip(texts, given) if k]
    vocabulary = dictionary.Dictionary(words=[words.Word(type=W.TEXT, forms=[t]) for t in known])
    externals = {t: markup.echo(t) for t in given}
    return known, given, vocabulary, externals


def available(ctx, name, known, given):
    return ctx.Or(*[ctx.same_text(name, t) for t in known + given])


def verdict(ctx, template, names, parts, known, given, vocabulary, externals, when=''):
    """names: lower-case names of the variables in order; parts: external names used as parts."""
    missing = template.get_undictionaried_words(externals=externals, dictionary=vocabulary)
    # the n-th missing name is the n-th variable whose name is not available
    here = [ctx.Not(available(ctx, name, known, given)) for name in names]
    ctx.check(ctx.Eq(ctx.count(here), len(missing)), 'number-of-missing' + when)
    for i, name in enumerate(names):
        before = ctx.count(here[:i])
        for k in range(min(i + 1, len(missing))):
            ctx.check(ctx.Implies(ctx.And(here[i], ctx.Eq(before, k)), ctx.same_text(missing[k], name)), 'missing-in-order' + when)
    again = template.get_undictionaried_words(externals=externals, dictionary=vocabulary)
    ctx.check(len(again) == len(missing) and ctx.And(*[ctx.same_text(a, b) for a, b in zip(again, missing)]), 'same-answer' + when)
    shown, error = ctx.raises(template.substitute, externals=externals, dictionary=vocabulary)
    complete = ctx.And(*[ctx.Or(*[ctx.same_text(p, t) for t in given]) for p in parts])
    if error is None:
        ctx.check(len(missing) == 0, 'rendered-only-if-complete' + when)
    elif isinstance(error, exceptions.NoWordsFoundError):
        ctx.check(ctx.Implies(complete, len(missing) > 0), 'reported-only-if-missing' + when)
        if len(missing):
            ctx.check(ctx.Or(*[ctx.same_text(error.arguments['text'], m) for m in missing]), 'missing-word-named' + when)
        ctx.cover('missing')
    else:
        ctx.check(ctx.Not(complete), 'other-error-only-without-external' + when)
    ctx.observe('missing', missing)
    ctx.observe('shown', shown)
    return missing


def names_only(ctx, n, alphabet, texts):
    names = [ctx.string('n%d' % i, 1, 1, alphabet) for i in range(n)]
    known, given, vocabulary, externals = world(ctx, texts)
    template = templates.Template()
    template.parse(' '.join('[' + name + ']' for name in names), externals=())
    verdict(ctx, template, [name.lower() for name in names], [], known, given, vocabulary, externals)


def chosen_names(ctx):
    """Names that are also short names of features, numbers, or hold spaces and marks."""
    options = ['мн', 'МН', 'а б', '1', '%s', 'ё', 'рд,мн', ' мн ']
    names = [ctx.choose('n%d' % i, options) for i in range(2)]
    known, given, vocabulary, externals = world(ctx, ['мн', 'а б', '%s'])
    template = templates.Template()
    template.parse(' '.join('[' + name + ']' for name in names), externals=())
    verdict(ctx, template, [name.strip().lower() for name in names], [], known, given, vocabulary, externals)


def with_parts(ctx, shapes):
    """Variables with parts naming externals that may not be given later."""
    n = len(shapes)
    names = [ctx.string('n%d' % i, 1, 1, 'аб') for i in range(n)]
    parts = []
    text = ''
    for i, shape in enumerate(shapes):
        text = text + '-[' + names[i]
        for j in range(shape):
            p = ctx.string('p%d%d' % (i, j), 1, 1, 'аб')
            parts.append(p)
            text = text + '|' + p
        text = text + '|рд]'
    known, given, vocabulary, externals = world(ctx, ['а', 'б'])
    template = templates.Template()
    template.parse(text, externals=('а', 'б'))
    verdict(ctx, template, names, parts, known, given, vocabulary, externals)


def reused(ctx):
    """A template object that parses a second text, and one read back from storage."""
    names = [ctx.string('n%d' % i, 1, 1, 'абв') for i in range(3)]
    known, given, vocabulary, externals = world(ctx, ['а', 'б'])
    template = templates.Template()
    template.parse('[' + names[0] + '][' + names[1] + ']', externals=())
    verdict(ctx, template, names[:2], [], known, given, vocabulary, externals, '-first')
    template.parse('[' + names[2] + ']', externals=())
    verdict(ctx, template, names[2:], [], known, given, vocabulary, externals, '-second')
    again = templates.Template.deserialize(ctx.json_roundtrip(template.serialize()))
    verdict(ctx, again, names[2:], [], known, given, vocabulary, externals, '-stored')




def growing(ctx):
    """The answer follows the dictionary and the externals of the moment."""
    name = ctx.string('n', 1, 1, 'абв')
    other = ctx.string('m', 1, 1, 'абв')
    template = templates.Template()
    template.parse('[' + name + '][' + other + ']', externals=())
    vocabulary = dictionary.Dictionary()
    known = []
    for step in range(3):
        verdict(ctx, template, [name, other], [], known, [], vocabulary, {}, '-%d' % step)
        added = ctx.string('a%d' % step, 1, 1, 'абв')
        vocabulary.add_word(words.Word(type=W.TEXT, forms=[added]))
        known.append(added)
    external = ctx.choose('e', ['а', 'г'])
    verdict(ctx, template, [name, other], [], known, [external], vocabulary, {external: markup.echo(external)}, '-last')


def forms(ctx, kind):
    """A variable may name any displayed form of a dictionary word, not only the first one."""
    size = c.SIZES[kind.name]
    texts = ['x%d' % i for i in range(size)]
    slots = sorted(set([0, size - 1, size // 2]))
    for s in slots:
        texts[s] = ctx.string('f%d' % s, 0, 1, 'абА ')
    name = ctx.string('n', 1, 1, 'абв')
    vocabulary = dictionary.Dictionary(words=[words.Word(type=kind, forms=list(texts))])
    template = templates.Template()
    template.parse('[' + name + ']', externals=())
    verdict(ctx, template, [name], [], [texts[s] for s in slots], [], vocabulary, {})


def any_name(ctx, length):
    """Names and dictionary words of any characters."""
    rest = ctx.string('n', 0, length, ''.join(x for x in c.EVERY if x not in '[]|'))
    name = ctx.choose('side', ['а%s', '%sа'])
    name = name.replace('%s', rest)
    known = ctx.string('w', 1, length + 1, c.EVERY)
    vocabulary = dictionary.Dictionary(words=[words.Word(type=W.TEXT, forms=[known])])
    template = templates.Template()
    template.parse('[' + name + ']', externals=())
    verdict(ctx, template, [name.strip().lower()], [], [known], [], vocabulary, {})


def odd(ctx):
    """Names and words that look alike are different."""
    name = 'а' + ctx.choose('name', c.ODD)
    way = ctx.choose('known', ['same', 'lower', 'upper', 'casefold', 'NFC', 'NFKD'])
    known = unicodedata.normalize(way, name) if way.startswith('NF') else name if way == 'same' else getattr(name, way)()
    given = [name.lower()] if ctx.bool('external') else ['б']
    vocabulary = dictionary.Dictionary(words=[words.Word(type=W.TEXT, forms=[known])])
    template = templates.Template()
    template.parse('[' + name + '][б]', externals=())
    verdict(ctx, template, [name.strip().lower(), 'б'], [], [known], given, vocabulary, {g: markup.echo(g) for g in given})


def large(ctx, n, texts):
    """Many variables; which names are externals and dictionary words is arbitrary."""
    names = [texts[(i * i + i // 3) % len(texts)] for i in range(n)]
    known, given, vocabulary, externals = world(ctx, texts)
    template = templates.Template()
    template.parse(' '.join('[' + name + ']' for name in names), externals=())
    missing = template.get_undictionaried_words(externals=externals, dictionary=vocabulary)
    want = [name for name in names if name not in known and name not in given]
    ctx.check(missing == want, 'missing')
    shown, error = ctx.raises(template.substitute, externals=externals, dictionary=vocabulary)
    ctx.check((error is None) == (not want), 'renders')
    if error is not None:
        ctx.check(isinstance(error, exceptions.NoWordsFoundError) and error.arguments['text'] in want, 'missing-word-named')
    ctx.observe('missing', missing)


def gone(ctx):
    """Dictionaries and externals of an earlier question may be gone."""
    template = templates.Template()
    template.parse('[а] [б|а]', externals=('а',))
    sets = [[t for t in 'аб' if ctx.bool('%d.%s' % (i, t))] for i in range(2)]
    given = [[t for t in 'аб' if ctx.bool('e%d.%s' % (i, t))] for i in range(2)]
    for i in (0, 1, 0):
        vocabulary = dictionary.Dictionary(words=[words.Word(type=W.TEXT, forms=[t]) for t in sets[i] + ['в', 'г', 'д'][:3 - len(sets[i])]])
        externals = {t: markup.echo(t) for t in given[i]}
        missing = template.get_undictionaried_words(externals=externals, dictionary=vocabulary)
        ctx.check(missing == [t for t in 'аб' if t not in sets[i] and t not in given[i]], 'missing-gone-%d' % i)
        del externals
        del vocabulary
    ctx.observe('missing', missing)


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = [Scenario('names-%d' % n, names_only, '%d variables named by any letter of "абв", all sets of externals and dictionary words among three' % n,
                    dict(n=n, alphabet='абв', texts=['а', 'б', 'в'])) for n in (0, 1, 2, 3)]
    out.append(Scenario('names-features', chosen_names, 'two variables, names of features, numbers, several words and marks among them, all sets of externals and dictionary words among three', {}))
    out.append(Scenario('capitals', names_only, 'two variables named by any of "абАБ", all sets of externals and dictionary words among two',
                        dict(n=2, alphabet='абАБ', texts=['а', 'б'])))
    if deep:
        out.append(Scenario('names-4', names_only, 'four variables named by any letter of "абв", all sets of externals and dictionary words among three',
                            dict(n=4, alphabet='абв', texts=['а', 'б', 'в'])))
        out.append(Scenario('names-5', names_only, 'five variables named by "а" or "б", all sets of externals and dictionary words among two',
                            dict(n=5, alphabet='аб', texts=['а', 'б'])))
    for shapes in ([1], [2], [1, 1], [0, 1]) + (([2, 1], [1, 0, 1], [3]) if deep else ()):
        out.append(Scenario('parts-' + '-'.join(map(str, shapes)), with_parts, 'variables with %s external parts named "а" or "б", all sets of externals and words' % shapes, dict(shapes=shapes)))
    out.append(Scenario('any-name', any_name, 'a name and a dictionary word of up to 3 characters of ASCII, Cyrillic and common signs', dict(length=2)))
    out.append(Scenario('odd', odd, '27 unusual letters in a name and a word, in six spellings', {}))
    out.append(Scenario('large', large, '40 variables, all sets of externals and dictionary words among three names of up to 90 letters', dict(n=40, texts=['а', 'слово' * 18, 'б'])))
    out.append(Scenario('gone', gone, 'two names, two sets of externals and words by turns, each created anew', {}))
    out.append(Scenario('reused', reused, 'three names of "абв" in two texts, all sets of externals and words', {}))
    out.append(Scenario('growing', growing, 'two names and three words of "абв", added one by one', {}))
    for kind in (W.NOUN, W.VERB, W.PREPOSITION):
        out.append(Scenario('forms-' + kind.name, forms, 'short texts in three forms, every name of "абв"', dict(kind=kind)))
    return out
