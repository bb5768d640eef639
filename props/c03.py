# Adjectives, verbs and participles next to a numeral.
from sx.scenario import Scenario

from utg import relations as r
from utg import words
from utg import transformators
from utg import templates
from utg import dictionary
from utg import constructors

from props import common as c
from props import c02

S, P = r.NUMBER.SINGULAR, r.NUMBER.PLURAL


def expected(form, mode, case, gender):
    """(number, case) demanded by the numeral."""
    if mode == r.DEPENDENCY_MODE.SEMANTIC:
        return (S if form == r.INTEGER_FORM.SINGULAR else P), case
    if form == r.INTEGER_FORM.SINGULAR:
        return S, case
    if form == r.INTEGER_FORM.MIL_BIL:
        return P, r.CASE.GENITIVE
    if case != r.CASE.NOMINATIVE:
        if case != r.CASE.ACCUSATIVE:
            return P, case
    if form == r.INTEGER_FORM.DUAL:
        if gender == r.GENDER.FEMININE:
            return P, r.CASE.NOMINATIVE
        return P, r.CASE.GENITIVE
    if form == r.INTEGER_FORM.COMPOSITE_DUAL:
        return S, r.CASE.GENITIVE
    return P, r.CASE.GENITIVE


def rule(ctx, slave):
    props = c.properties(ctx, 'p', [], [r.INTEGER_FORM, r.DEPENDENCY_MODE, r.CASE, r.GENDER])
    if ctx.bool('rest'):
        props = words.Properties(props, c.properties(ctx, 'q', [r.NUMBER, r.NOUN_FORM, r.ANIMALITY, r.TIME]))
    word = c.marked(slave, 'x')
    numeral = words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=['7'], properties=words.Properties()))
    result = transformators.transform(word, props, numeral)
    number, case = expected(props.get(r.INTEGER_FORM), props.get(r.DEPENDENCY_MODE), props.get(r.CASE), props.get(r.GENDER))
    ctx.check(result.get(r.NUMBER) == number, 'number')
    ctx.check(result.get(r.CASE) == case, 'case')
    for relation in (r.ANIMALITY, r.GENDER, r.TIME, r.NOUN_FORM, r.INTEGER_FORM, r.DEPENDENCY_MODE):
        ctx.check(result.get(relation) == props.get(relation), 'keeps-' + relation.__name__)
    ctx.observe('case', result.get(r.CASE))
    ctx.observe('number', result.get(r.NUMBER))


def any_word(ctx, slave):
    """Whatever the forms of the word are, missing ones included, and whatever the numeral looks like."""
    size = c.SIZES[slave.name]
    forms = [ctx.choose('rest', ['', 'x'])] * size
    forms[0] = ctx.string('first', 0, 2, c.EVERY)
    forms[ctx.choose('position', [1, size // 2, size - 1])] = ctx.string('other', 0, 1, c.EVERY)
    word = words.Word(type=slave, forms=forms)
    numeral = words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[ctx.string('digits', 0, 2, c.EVERY)],
                                        properties=c.properties(ctx, 'n', [], [r.NUMBER, r.INTEGER_FORM])))
    props = c.properties(ctx, 'p', [r.INTEGER_FORM, r.CASE, r.GENDER])
    result = transformators.transform(word, props, numeral)
    demanded = expected(props.get(r.INTEGER_FORM), props.get(r.DEPENDENCY_MODE), props.get(r.CASE), props.get(r.GENDER))
    for relation, value in zip((r.NUMBER, r.CASE), demanded):
        ctx.check(result.get(relation) == value, relation.__name__)
    ctx.observe('case', result.get(r.CASE))


def everything(ctx, slave):
    """Every group has some value, the word has features of its own."""
    props = c.properties(ctx, 'p', c.ALL)
    word = c.marked(slave, ctx.string('letter', 1, 1, 'xы'), c.properties(ctx, 'own', [], [g for g in c.ALL if g in slave.properties]))
    numeral = words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[ctx.choose('digits', ['7', '-1', '1000000'])], properties=words.Properties()))
    result = transformators.transform(word, props, numeral)
    demanded = expected(props.get(r.INTEGER_FORM), props.get(r.DEPENDENCY_MODE), props.get(r.CASE), props.get(r.GENDER))
    for relation, value in zip((r.NUMBER, r.CASE), demanded):
        ctx.check(result.get(relation) == value, relation.__name__)
    for relation in c.ALL:
        if relation not in (r.NUMBER, r.CASE):
            ctx.check(result.get(relation) == props.get(relation), 'keeps-' + relation.__name__)
    ctx.observe('case', result.get(r.CASE))


def features(kind, number, case, gender, animality):
    if kind == r.WORD_TYPE.ADJECTIVE:
        head = (r.ADJECTIVE_FORM.FULL, r.GRADE.POSITIVE)
    elif kind == r.WORD_TYPE.PARTICIPLE:
        head = (r.PARTICIPLE_FORM.FULL, r.TIME.PAST)
    else:
        return (r.VERB_FORM.INDICATIVE, r.TIME.PAST, number, None, gender if number == S else None)
    return head + (animality, number, case, gender if number == S else None)


def text(ctx, kind, start, lo, hi, layout, vary_case=True):
    n = ctx.int('n', lo, hi)
    case = ctx.choose('case', list(r.CASE.records)) if vary_case else r.CASE.NOMINATIVE
    gender = ctx.choose('gender', list(r.GENDER.records))
    mode = ctx.choose('mode', list(r.DEPENDENCY_MODE.records))
    word = c.marked(kind, 'x')
    template = templates.Template()
    template.parse(layout % {'id': 'x%d' % start, 'props': ','.join((case.verbose_id, mode.verbose_id, gender.verbose_id, r.ANIMALITY.INANIMATE.verbose_id))},
                   externals=('n',))
    result = template.substitute(externals={'n': constructors.construct_integer(n)}, dictionary=dictionary.Dictionary(words=[word]))
    number, case = expected(c02.numeral_class(ctx, n), mode, case, gender)
    index = c.slot(kind, features(kind, number, case, gender, r.ANIMALITY.INANIMATE))
    ctx.check(ctx.same_text(result, 'x%d' % index), 'text')
    ctx.observe('text', result)


def SCENARIOS(tier):
    out = []
    for t in (r.WORD_TYPE.ADJECTIVE, r.WORD_TYPE.VERB, r.WORD_TYPE.PARTICIPLE):
        out.append(Scenario('rule-' + t.name, rule, 'every case, gender, numeral class and dependency mode, each given or left out; '
                            'other features arbitrary', dict(slave=t)))
        out.append(Scenario('any-word-' + t.name, any_word, 'first form of up to 2 characters, another of up to 1, the rest missing or not, any text and features of the numeral', dict(slave=t)))
        out.append(Scenario('everything-' + t.name, everything, 'every value of every group, every feature of the word itself, three numerals', dict(slave=t)))
        start = 1 if t == r.WORD_TYPE.VERB else 0
        for name, layout in (('numeral-first', '[%(id)s|n|%(props)s]'), ('features-first', '[%(id)s|%(props)s|n]')):
            if tier == 'quick' and name == 'features-first' and t != r.WORD_TYPE.ADJECTIVE:
                continue
            out.append(Scenario('text-%s-%s' % (name, t.name), text, 'every number n > 10000, every case, gender and mode',
                                dict(kind=t, start=start, lo=10001, hi=None, layout=layout)))
        out.append(Scenario('text-negative-' + t.name, text, 'every number n < 0, every gender and mode, nominative case',
                            dict(kind=t, start=start, lo=None, hi=-1, layout='[%(id)s|n|%(props)s]', vary_case=False)))
    out.append(Scenario('text-small', text, 'every number 0..30, every gender and mode, nominative case',
                        dict(kind=r.WORD_TYPE.VERB, start=1, lo=0, hi=30, layout='[%(id)s|n|%(props)s]', vary_case=False)))
    return out
