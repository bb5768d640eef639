# Rendering of a variable: whose features win.
import itertools

from sx.scenario import Scenario

from utg import constructors
from utg import dictionary
from utg import relations as r
from utg import templates
from utg import words

from props import common as c
from props import c02
from props import c03
from props import c05
from props import c07
from props import markup

W = r.WORD_TYPE


def prepare():
    c07.prepare()


def features(ctx, prefix, given, optional=()):
    """{group: value} with the optional ones possibly left out."""
    out = {}
    for relation in given:
        out[relation] = ctx.record('%s.%s' % (prefix, relation.__name__), relation)
    for relation in optional:
        value = ctx.record('%s.%s' % (prefix, relation.__name__), relation, none=True)
        if value is not None:
            out[relation] = value
    return out


def merged(*sets):
    out = {}
    for s in sets:
        out.update(s)
    return out


def props(values):
    return words.Properties(*values.values())


def value(values, relation):
    return values[relation] if relation in values else c.default(relation)


def agreed(kind, master, values):
    """The features after the rule for a dependent word of this kind next to this master."""
    if master != W.INTEGER:
        return values
    form, mode, case = value(values, r.INTEGER_FORM), value(values, r.DEPENDENCY_MODE), value(values, r.CASE)
    if kind in (W.NOUN, W.PRONOUN):
        noun_form, number, case = c02.expected(form, mode, case, value(values, r.ANIMALITY))
        return merged(values, {r.NOUN_FORM: noun_form, r.NUMBER: number, r.CASE: case})
    if kind in (W.ADJECTIVE, W.VERB, W.PARTICIPLE):
        number, case = c03.expected(form, mode, case, value(values, r.GENDER))
        return merged(values, {r.NUMBER: number, r.CASE: case})
    return values


def shown_slot(ctx, kind, values, shown, label):
    full = {relation: value(values, relation) for relation in c.SCHEMAS[kind.name]}
    c07.verdict(ctx, kind, full, shown, label)


def build(name, parts):
    """A template with one variable; parts are external names or {group: value}."""
    return templates.Template.deserialize({'template': '%s', 'substitutions': [
        {'id': name, 'dependencies': [p if isinstance(p, str) else props(p).serialize() for p in parts]}]})


def displayed(ctx, name, word, values, groups):
    """A form with these features; one shown alone by other features if there are such groups."""
    if not groups:
        return words.WordForm(word, props(values))
    return words.WordForm(word, props(values), form_properties=props(features(ctx, name + '.display', [], groups)))


def render(ctx, kind, shape, base_groups, part_groups, own_groups, masters, in_dictionary, display_groups=()):
    """[word|...] with externals a, b and feature lists in the given order of parts."""
    own = features(ctx, 'own', [], own_groups)
    base = features(ctx, 'base', [], base_groups)
    word = c07.marked(kind, props(own))
    form = displayed(ctx, 'base', word, base, display_groups)
    sources, parts, order = {}, [], []
    externals = {}
    for name, master in zip('ab', masters):
        if name in shape:
            sources[name] = features(ctx, name, [], part_groups)
            holder = words.Word(type=master, forms=['y%d' % i for i in range(c.SIZES[master.name])])
            externals[name] = displayed(ctx, name, holder, sources[name], display_groups)
    for i, symbol in enumerate(shape):
        if symbol in 'ab':
            parts.append(symbol)
            order.append(sources[symbol])
        elif symbol == 's':
            parts.append('слово')
            order.append(merged(base, own))
        else:
            given = features(ctx, 'f%d' % i, [], part_groups)
            parts.append(given)
            order.append(given)
    if in_dictionary:
        vocabulary = One('слово', form)
    else:
        externals['слово'] = form
        vocabulary = markup.Echo()
    template = build('слово', parts)
    shown = template.substitute(externals=externals, dictionary=vocabulary)
    values = merged(base, own, *order)
    values = merged(values, own)
    for symbol in shape:
        if symbol in 'ab':
            values = agreed(kind, masters['ab'.index(symbol)], values)
    shown_slot(ctx, kind, values, shown, 'text')
    ctx.observe('shown', shown)


def beside(ctx, kind):
    master = ctx.choose('master', [k for k in W.records if kind != W.PREPOSITION and k != W.INTEGER])
    render(ctx, kind, 'af', [], [r.NUMBER, r.GENDER], [], (master, master), True)


class One(object):
    """A dictionary with a single known form."""

    def __init__(self, text, form):
        self.text = text
        self.form = form

    def has_word(self, text):
        return text == self.text

    def get_word(self, text):
        assert text == self.text
        return self.form


def source(ctx):
    """Externals come before the dictionary."""
    name = ctx.string('name', 1, 1, 'абв')
    texts = ['а', 'б', 'в']
    known = [ctx.bool('dictionary.%s' % t) for t in texts]
    external = [ctx.bool('external.%s' % t) for t in texts]
    vocabulary = dictionary.Dictionary(words=[words.Word(type=W.TEXT, forms=[t]) for t, k in zip(texts, known) if k])
    externals = {t: markup.echo(t) for t, k in zip(texts, external) if k}
    template = templates.Template()
    template.parse('[' + name + ']', externals=('а', 'б', 'в'))
    shown, error = ctx.raises(template.substitute, externals=externals, dictionary=vocabulary)
    for t, k, e in zip(texts, known, external):
        here = ctx.Eq(name, t)
        if e:
            ctx.check(ctx.Implies(here, error is None and ctx.same_text(shown, '{' + t + '}')), 'external')
        elif k:
            ctx.check(ctx.Implies(here, error is None and ctx.same_text(shown, t)), 'dictionary')
        else:
            ctx.check(ctx.Implies(here, error is not None), 'unknown')
    ctx.observe('shown', shown)


def capital(ctx, kind):
    """A capital is asked for by the name, by a feature, by an external or by the word itself, and the last one decides."""
    size = c.SIZES[kind.name]
    text = ctx.string('text', 1, 3, 'ажёZ1')
    own = ctx.record('own', r.WORD_CASE, none=True)
    base = ctx.record('base', r.WORD_CASE, none=True)
    master = ctx.record('master', r.WORD_CASE, none=True)
    word = words.Word(type=kind, forms=[text] * size, properties=words.Properties(own))
    spelled = ctx.choose('name', ['слово', 'Слово', ' СЛОВО'])
    part = ctx.choose('part', ['', '|герой', '|загл', '|строч', '|герой|строч', '|загл|герой'])
    template = templates.Template()
    template.parse('[' + spelled + part + ']', externals=('слово', 'герой'))
    externals = {'слово': words.WordForm(word, words.Properties(base)),
                 'герой': words.WordForm(words.Word(type=W.TEXT, forms=['г']), words.Properties(master))}
    shown = template.substitute(externals=externals, dictionary=markup.Echo())
    upper = base
    for p in part.split('|')[1:]:
        if p == 'герой':
            if master is not None:
                upper = master
        else:
            upper = r.WORD_CASE.UPPER if p == 'загл' else r.WORD_CASE.LOWER
    if spelled != 'слово':
        upper = r.WORD_CASE.UPPER
    if own is not None:
        upper = own
    first = text[0].upper() if upper == r.WORD_CASE.UPPER else text[0]
    ctx.check(ctx.same_text(shown, first + text[1:]), 'text')
    ctx.observe('shown', shown)


def numbers(ctx, kind, numerals, mode):
    """Real numerals and a noun in a whole text."""
    n = ctx.choose('n', numerals)
    case = ctx.record('case', r.CASE)
    animality = ctx.record('animality', r.ANIMALITY)
    gender = ctx.record('gender', r.GENDER)
    hero = words.Word(type=W.NOUN, forms=['x%03d' % i for i in range(18)], properties=words.Properties(animality, gender))
    other = c07.marked(kind, words.Properties())
    numeral = constructors.construct_integer(n)
    base = {r.CASE: case}
    asked = [base] + ([{r.DEPENDENCY_MODE: mode}] if mode is not None else [])
    template = build('слово', ['герой'] + asked + ['число'])
    shown = template.substitute(externals={'герой': words.WordForm(hero), 'число': numeral, 'слово': words.WordForm(other)}, dictionary=markup.Echo())
    values = {r.ANIMALITY: animality, r.GENDER: gender}
    for a in asked:
        values = merged(values, a)
    values = merged(values, {r.NUMBER: r.NUMBER.SINGULAR if n == 1 else r.NUMBER.PLURAL, r.INTEGER_FORM: numeral_class(n)})
    values = agreed(kind, W.INTEGER, values)
    shown_slot(ctx, kind, values, shown, 'text')
    ctx.observe('shown', shown)


def numeral_class(n):
    F = r.INTEGER_FORM
    if n in (1000000, 1000000000):
        return F.MIL_BIL
    if n % 100 // 10 == 1:
        return F.PLURAL
    if n % 10 == 1:
        return F.SINGULAR
    if n in (2, 3, 4):
        return F.DUAL
    return F.COMPOSITE_DUAL if n % 10 in (2, 3, 4) else F.PLURAL


def preposition(ctx, kinds=None):
    """[в|...] before externals: the last rule that applies decides, requested forms stay otherwise."""
    if kinds is None:
        texts = [ctx.string('t%d' % i, 1, 2, 'васо') for i in range(2)]
        kinds = [W.TEXT, W.TEXT]
        shapes = ['a', 'b', 'ab', 'ba', 'fa', 'af']
    else:
        texts = [ctx.choose('t%d' % i, ['что', 'ах', 'да', 'всп']) for i in range(2)]
        kinds = [kinds, ctx.choose('kind', W.records)]
        shapes = ['ab', 'ba']
    prep = ctx.choose('preposition', ['в', 'о'])
    shape = ctx.choose('shape', shapes)
    asked = ctx.record('asked', r.PREPOSITION_FORM)
    word = words.Word(type=W.PREPOSITION, forms=[prep, prep + '1', prep + '2'])
    externals = {'слово': words.WordForm(word)}
    for name, text, kind in zip('ab', texts, kinds):
        externals[name] = words.WordForm(words.Word(type=kind, forms=[text] * c.SIZES[kind.name]))
    template = build('слово', [{r.PREPOSITION_FORM: asked} if s == 'f' else s for s in shape])
    shown = template.substitute(externals=externals, dictionary=markup.Echo())
    form = asked if 'f' in shape else r.PREPOSITION_FORM.NORMAL
    for s in shape:
        if s != 'f':
            text = texts['ab'.index(s)]
            form = c05.expected(ctx, prep, text, [text], form)
    for i, record in enumerate(r.PREPOSITION_FORM.records):
        ctx.check(ctx.Implies(ctx.Eq(form, record), ctx.same_text(shown, word.forms[i])), 'text')
    ctx.observe('shown', shown)


def preposition_itself(ctx):
    """A preposition that names itself."""
    text = ctx.string('text', 1, 2, 'восн')
    forms = [text, text + 'а', text + 'б']
    asked = ctx.record('asked', r.PREPOSITION_FORM, none=True)
    form = words.WordForm(words.Word(type=W.PREPOSITION, forms=forms), words.Properties(asked))
    template = templates.Template()
    template.parse('[x|x]', externals=('x',))
    shown = template.substitute(externals={'x': form}, dictionary=dictionary.Dictionary())
    first = r.PREPOSITION_FORM.NORMAL if asked is None else asked
    want = c05.expected(ctx, text, form.form, forms, first)
    for i, value_ in enumerate(r.PREPOSITION_FORM.records):
        ctx.check(ctx.Implies(want == value_, ctx.same_text(shown, forms[i])), 'itself-%d' % i)
    ctx.observe('shown', shown)


def long_list(ctx, number, last):
    """Many externals and feature lists in one variable."""
    case = [ctx.record('case%d' % i, r.CASE) for i in range(4)]
    form = ctx.record('form', r.INTEGER_FORM)
    place = ctx.choose('place', [0, number // 2, number - 1])
    kinds = [W.NOUN, W.TEXT, W.ADJECTIVE]
    parts, order, externals, masters = [], [], {}, []
    for i in range(number):
        values = {r.CASE: case[i % 4]} if i % 3 != 2 else {r.NUMBER: r.NUMBER.records[i % 2]}
        if i == place:
            values = {r.INTEGER_FORM: form}
        if i % 2 == last or i == place:
            name = 'герой%d' % i
            kind = W.INTEGER if i == place else kinds[i % 3]
            externals[name] = words.WordForm(words.Word(type=kind, forms=['y'] * c.SIZES[kind.name]), props(values))
            parts.append(name)
            masters.append(kind)
        else:
            parts.append(values)
        order.append(values)
    externals['слово'] = words.WordForm(c07.marked(W.NOUN, props({r.ANIMALITY: r.ANIMALITY.INANIMATE})))
    shown = build('слово', parts).substitute(externals=externals, dictionary=markup.Echo())
    values = merged(*order)
    values[r.ANIMALITY] = r.ANIMALITY.INANIMATE
    for kind in masters:
        values = agreed(W.NOUN, kind, values)
    shown_slot(ctx, W.NOUN, values, shown, 'text')
    ctx.observe('shown', shown)


def gone(ctx):
    """The words of an earlier rendering may be gone."""
    template = templates.Template()
    template.parse('[x|y]', externals=('x', 'y'))
    numbers_ = [ctx.record('y%d' % i, r.NUMBER) for i in range(2)]
    cases = [ctx.record('x%d' % i, r.CASE) for i in range(2)]
    vocabulary = dictionary.Dictionary()
    for i in (0, 1, 0):
        word = c07.marked(W.NOUN, words.Properties())
        form = words.WordForm(word, words.Properties(cases[i]))
        inner = words.Word(type=W.TEXT, forms=['t%d' % i])
        other = words.WordForm(inner, words.Properties(numbers_[i]))
        shown = template.substitute(externals={'x': form, 'y': other}, dictionary=vocabulary)
        shown_slot(ctx, W.NOUN, {r.CASE: cases[i], r.NUMBER: numbers_[i]}, shown, 'gone-%d' % i)
        # freed in this order, the next ones are likely to stand where these stood
        del other
        del inner
        del form
        del word
    ctx.observe('shown', shown)


def SCENARIOS(tier):
    prepare()
    deep = tier == 'thorough'
    out = [Scenario('source', source, 'every set of externals and dictionary words among three, every name', {}),
           Scenario('gone', gone, 'two sets of a word with any case and an external of any number, by turns, each created anew', {}),
           Scenario('preposition-itself', preposition_itself, 'every preposition of up to 2 of four letters, every form asked for', {}),
           Scenario('preposition', preposition, 'six orders of parts, every two words of up to 2 letters of four', {})]
    for number in (5, 9, 30):
        for last in (0, 1):
            out.append(Scenario('long-%d-%d' % (number, last), long_list, '%d externals and feature lists by turns, a numeral of any class first, in the middle or last, every case of four' % number, dict(number=number, last=last)))
    for kind in W.records:
        out.append(Scenario('preposition-' + kind.name, preposition, 'four words of this kind and of any other one, in both orders', dict(kinds=kind)))
    for kind in (W.NOUN, W.TEXT, W.PREPOSITION):
        out.append(Scenario('capital-' + kind.name, capital, 'every combination of capital requests, every word of up to 3 characters of five', dict(kind=kind)))
    shapes = [''.join(s) for n in (0, 1, 2) for s in itertools.product('abf', repeat=n)] + ['faf', 'fab', 'afb', 'abf', 'aff', 'bfa']
    if deep:
        shapes += [''.join(s) for s in itertools.product('abf', repeat=3) if ''.join(s) not in shapes]
    T = (W.TEXT, W.NOUN)
    for shape in shapes:
        few = len(shape) > 2
        out.append(Scenario('noun-' + (shape or 'alone'), render, 'features of the word, its form, the externals and the lists: number and case, each given or not', dict(
            kind=W.NOUN, shape=shape, base_groups=[r.CASE], part_groups=[r.CASE] if few else [r.NUMBER, r.CASE], own_groups=[r.NUMBER] if few else [r.NUMBER, r.NOUN_FORM],
            masters=T, in_dictionary=len(shape) % 2 == 0)))
    for kind, groups in ((W.NOUN, [r.CASE, r.ANIMALITY]), (W.ADJECTIVE, [r.CASE, r.GENDER]), (W.VERB, [r.GENDER, r.NUMBER]), (W.PARTICIPLE, [r.CASE, r.GENDER]), (W.PRONOUN, [r.CASE, r.ANIMALITY])):
        for shape in ('a', 'fa', 'af', 'ab', 'ba', 'aa') if deep or kind in (W.NOUN, W.ADJECTIVE) else ('af', 'ba'):
            several = len(shape) > 1
            out.append(Scenario('numeral-%s-%s' % (kind.name, shape), render, 'numeral class and %s, each given or not' % ', '.join(g.__name__ for g in groups), dict(
                kind=kind, shape=shape, base_groups=[] if several else [groups[0], r.DEPENDENCY_MODE], part_groups=[r.INTEGER_FORM, groups[0]] if several else [r.INTEGER_FORM, r.DEPENDENCY_MODE] + groups,
                own_groups=[] if several else [groups[1]], masters=(W.INTEGER, W.NOUN if 'b' in shape else W.TEXT), in_dictionary=True)))
        for mode in (None, r.DEPENDENCY_MODE.SEMANTIC):
            out.append(Scenario('count-%s-%s' % (kind.name, 'semantic' if mode else 'full'), numbers, 'twelve integers, every case, animacy and gender', dict(
                kind=kind, numerals=[0, 1, 2, 4, 5, 11, 14, 21, 22, 125, 1000000, 1000001], mode=mode)))
    for shape in ('', 'f', 'a', 'fa', 'ab'):
        out.append(Scenario('display-' + (shape or 'alone'), render, 'the word and the externals shown alone by other features than those they have, number and case, each given or not', dict(
            kind=W.NOUN, shape=shape, base_groups=[r.CASE], part_groups=[r.NUMBER], own_groups=[], masters=T, in_dictionary=len(shape) == 1, display_groups=[r.NUMBER] if len(shape) > 1 else [r.NUMBER, r.CASE])))
    for kind, groups in ((W.ADJECTIVE, [r.NUMBER, r.GENDER]), (W.ADJECTIVE, [r.ANIMALITY, r.CASE]), (W.VERB, [r.NUMBER, r.GENDER]), (W.VERB, [r.NUMBER, r.PERSON]),
                         (W.PARTICIPLE, [r.NUMBER, r.GENDER]), (W.PRONOUN, [r.NUMBER, r.GENDER]), (W.NOUN, [r.NUMBER, r.GENDER])):
        for master in (W.NOUN, W.PRONOUN) if kind in (W.ADJECTIVE, W.VERB) or deep else (W.NOUN,):
            for shape in ('af', 'ab', 'faf') if master == W.NOUN or deep else ('af',):
                names = [g.__name__ for g in groups]
                out.append(Scenario('agree-%s-%s-%s-%s' % (kind.name, '-'.join(names), master.name, shape), render, '%s of the variables and the lists, each given or not' % ', '.join(names), dict(
                    kind=kind, shape=shape, base_groups=[r.TIME] if r.PERSON in groups else [], part_groups=groups, own_groups=[], masters=(master, W.NOUN), in_dictionary=True)))
    for kind in (W.NOUN, W.ADJECTIVE, W.INTEGER):
        for shape in ('s', 'fs', 'sf', 'as', 'sa', 'sfs'):
            out.append(Scenario('itself-%s-%s' % (kind.name, shape), render, 'a variable that names itself among its parts, number and case, each given or not', dict(
                kind=kind, shape=shape, base_groups=[r.CASE, r.NUMBER], part_groups=[r.CASE], own_groups=[r.NUMBER], masters=T, in_dictionary=False)))
    for kind in W.records if deep else (W.NOUN, W.ADJECTIVE, W.VERB, W.PRONOUN, W.PARTICIPLE, W.INTEGER):
        out.append(Scenario('beside-' + kind.name, beside, 'a variable of every other kind of word, number and gender of both the variable and the list, each given or not', dict(kind=kind)))
    for shape in ('ab', 'ba', 'afb'):
        out.append(Scenario('numerals-%s' % shape, render, 'two numerals of every class', dict(
            kind=W.NOUN, shape=shape, base_groups=[r.CASE], part_groups=[r.INTEGER_FORM], own_groups=[r.ANIMALITY], masters=(W.INTEGER, W.INTEGER), in_dictionary=False)))
    return out
