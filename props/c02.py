# Nouns and pronouns next to a numeral.
from sx.scenario import Scenario

from utg import relations as r
from utg import words
from utg import transformators
from utg import templates
from utg import dictionary
from utg import constructors

from props import common as c

S, P = r.NUMBER.SINGULAR, r.NUMBER.PLURAL
NORMAL, COUNTABLE = r.NOUN_FORM.NORMAL, r.NOUN_FORM.COUNTABLE


def expected(form, mode, case, animality):
    """(noun form, number, case) governed by the numeral."""
    if mode == r.DEPENDENCY_MODE.SEMANTIC:
        return NORMAL, (S if form == r.INTEGER_FORM.SINGULAR else P), case
    if form == r.INTEGER_FORM.SINGULAR:
        return NORMAL, S, case
    if form == r.INTEGER_FORM.MIL_BIL:
        return COUNTABLE, P, r.CASE.GENITIVE
    direct = case == r.CASE.NOMINATIVE
    accusative = case == r.CASE.ACCUSATIVE
    if form == r.INTEGER_FORM.DUAL:
        if direct:
            return NORMAL, S, r.CASE.GENITIVE
        if accusative and animality == r.ANIMALITY.INANIMATE:
            return NORMAL, S, r.CASE.GENITIVE
        return COUNTABLE, P, case
    if form == r.INTEGER_FORM.COMPOSITE_DUAL:
        if direct:
            return NORMAL, S, r.CASE.GENITIVE
        if accusative:
            return NORMAL, S, r.CASE.GENITIVE
        return COUNTABLE, P, case
    if direct:
        return COUNTABLE, P, r.CASE.GENITIVE
    if accusative:
        return COUNTABLE, P, r.CASE.GENITIVE
    return COUNTABLE, P, case


def rule(ctx, slave):
    props = c.properties(ctx, 'p', [], [r.INTEGER_FORM, r.DEPENDENCY_MODE, r.CASE, r.ANIMALITY])
    if ctx.bool('rest'):
        props = words.Properties(props, c.properties(ctx, 'q', [r.NUMBER, r.NOUN_FORM, r.GENDER, r.PERSON]))
    word = c.marked(slave, 'x')
    numeral = words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=['7'], properties=words.Properties()))
    result = transformators.transform(word, props, numeral)
    noun_form, number, case = expected(props.get(r.INTEGER_FORM), props.get(r.DEPENDENCY_MODE), props.get(r.CASE), props.get(r.ANIMALITY))
    ctx.check(result.get(r.NOUN_FORM) == noun_form, 'noun-form')
    ctx.check(result.get(r.NUMBER) == number, 'number')
    ctx.check(result.get(r.CASE) == case, 'case')
    for relation in (r.ANIMALITY, r.GENDER, r.PERSON, r.INTEGER_FORM, r.DEPENDENCY_MODE):
        ctx.check(result.get(relation) == props.get(relation), 'keeps-' + relation.__name__)
    ctx.observe('case', result.get(r.CASE))
    ctx.observe('number', result.get(r.NUMBER))
    ctx.observe('noun form', result.get(r.NOUN_FORM))


def any_word(ctx, slave):
    """Whatever the forms of the word are, missing ones included, and whatever the numeral looks like."""
    size = c.SIZES[slave.name]
    forms = [ctx.choose('rest', ['', 'x'])] * size
    forms[0] = ctx.string('first', 0, 2, c.EVERY)
    forms[ctx.choose('position', [1, size // 2, size - 1])] = ctx.string('other', 0, 1, c.EVERY)
    word = words.Word(type=slave, forms=forms)
    numeral = words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[ctx.string('digits', 0, 2, c.EVERY)],
                                        properties=c.properties(ctx, 'n', [], [r.NUMBER, r.INTEGER_FORM])))
    props = c.properties(ctx, 'p', [r.INTEGER_FORM, r.CASE, r.ANIMALITY])
    result = transformators.transform(word, props, numeral)
    demanded = expected(props.get(r.INTEGER_FORM), props.get(r.DEPENDENCY_MODE), props.get(r.CASE), props.get(r.ANIMALITY))
    for relation, value in zip((r.NOUN_FORM, r.NUMBER, r.CASE), demanded):
        ctx.check(result.get(relation) == value, relation.__name__)
    ctx.observe('case', result.get(r.CASE))


def everything(ctx, slave):
    """Every group has some value, the word has features of its own."""
    props = c.properties(ctx, 'p', c.ALL)
    word = c.marked(slave, ctx.string('letter', 1, 1, 'xы'), c.properties(ctx, 'own', [], [g for g in c.ALL if g in slave.properties]))
    numeral = words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[ctx.choose('digits', ['7', '-1', '1000000'])], properties=words.Properties()))
    result = transformators.transform(word, props, numeral)
    demanded = expected(props.get(r.INTEGER_FORM), props.get(r.DEPENDENCY_MODE), props.get(r.CASE), props.get(r.ANIMALITY))
    for relation, value in zip((r.NOUN_FORM, r.NUMBER, r.CASE), demanded):
        ctx.check(result.get(relation) == value, relation.__name__)
    for relation in c.ALL:
        if relation not in (r.NOUN_FORM, r.NUMBER, r.CASE):
            ctx.check(result.get(relation) == props.get(relation), 'keeps-' + relation.__name__)
    ctx.observe('case', result.get(r.CASE))


def numeral_class(ctx, n):
    a = abs(n)
    if a == 1000000 or a == 1000000000:
        return r.INTEGER_FORM.MIL_BIL
    if a % 100 >= 10 and a % 100 <= 19:
        return r.INTEGER_FORM.PLURAL
    if a % 10 == 1:
        return r.INTEGER_FORM.SINGULAR
    if a % 10 >= 2 and a % 10 <= 4:
        return r.INTEGER_FORM.DUAL if a <= 4 else r.INTEGER_FORM.COMPOSITE_DUAL
    return r.INTEGER_FORM.PLURAL


def text(ctx, kind, lo, hi, layout):
    """A whole template: the noun is agreed with an arbitrary number."""
    n = ctx.int('n', lo, hi)
    case = ctx.choose('case', list(r.CASE.records))
    mode = ctx.choose('mode', list(r.DEPENDENCY_MODE.records))
    if kind == r.WORD_TYPE.NOUN:
        animality = ctx.record('animality', r.ANIMALITY)
        word = c.marked(kind, 'x', words.Properties(animality))
    else:      # the features of a pronoun come from the template
        animality = ctx.choose('animality', list(r.ANIMALITY.records))
        word = c.marked(kind, 'x')
        layout = layout.replace('%(case)s', '%(case)s,' + animality.verbose_id)
    template = templates.Template()
    template.parse(layout % {'case': case.verbose_id, 'mode': mode.verbose_id}, externals=('n',))
    result = template.substitute(externals={'n': constructors.construct_integer(n)}, dictionary=dictionary.Dictionary(words=[word]))
    noun_form, number, case = expected(numeral_class(ctx, n), mode, case, animality)
    if kind == r.WORD_TYPE.NOUN:
        index = c.slot(kind, (noun_form, number, case))
    else:
        a = r.ANIMALITY.ANIMATE if animality == r.ANIMALITY.ANIMATE else r.ANIMALITY.INANIMATE
        index = c.slot(kind, (a, number, case, r.GENDER.MASCULINE if number == S else None))
    ctx.check(ctx.same_text(result, 'x%d' % index), 'text')
    ctx.observe('text', result)


def SCENARIOS(tier):
    noun, pronoun = r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN
    out = []
    for t in (noun, pronoun):
        out.append(Scenario('rule-' + t.name, rule, 'every case, animality, numeral class and dependency mode, each given or left out; '
                            'other features arbitrary', dict(slave=t)))
        out.append(Scenario('any-word-' + t.name, any_word, 'first form of up to 2 characters, another of up to 1, the rest missing or not, any text and features of the numeral', dict(slave=t)))
        out.append(Scenario('everything-' + t.name, everything, 'every value of every group, every feature of the word itself, three numerals', dict(slave=t)))
    for name, layout in (('numeral-first', '[x0|n|%(case)s,%(mode)s]'), ('case-first', '[x0|%(case)s,%(mode)s|n]')):
        for t in (noun, pronoun):
            out.append(Scenario('text-%s-%s' % (name, t.name), text, 'every number n > 10000, every case, mode, animality',
                                dict(kind=t, lo=10001, hi=None, layout=layout)))
    out.append(Scenario('text-negative', text, 'every number n < 0', dict(kind=noun, lo=None, hi=-1, layout='[x0|n|%(case)s,%(mode)s]')))
    out.append(Scenario('text-small', text, 'every number 0..40', dict(kind=noun, lo=0, hi=40, layout='[x0|n|%(case)s,%(mode)s]')))
    return out
