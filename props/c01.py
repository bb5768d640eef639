# Numerals: text and grammatical class of every integer.
from sx.scenario import Scenario

from utg import constructors
from utg import relations as r


def expected(ctx, n):
    """[(condition, number, form)] from the grammar in the package documentation, in terms of decimal digits."""
    a = ctx.If(n < 0, -n, n)
    last = a % 10
    last2 = a % 100
    million = ctx.Or(a == 1000000, a == 1000000000)
    teen = ctx.And(last2 >= 10, last2 <= 19)
    one = a == 1
    few = ctx.And(a >= 2, a <= 4)
    ends1 = ctx.And(last == 1, ctx.Not(teen))
    ends234 = ctx.And(last >= 2, last <= 4, ctx.Not(teen))
    form_single = ends1
    form_dual = few
    form_comp = ctx.And(ends234, ctx.Not(few))
    form_mil = million
    form_plural = ctx.Not(ctx.Or(form_single, form_dual, form_comp, form_mil))
    return one, {r.INTEGER_FORM.SINGULAR: form_single, r.INTEGER_FORM.DUAL: form_dual, r.INTEGER_FORM.COMPOSITE_DUAL: form_comp,
                 r.INTEGER_FORM.MIL_BIL: form_mil, r.INTEGER_FORM.PLURAL: form_plural}


def verify(ctx, n, word_form):
    singular, forms = expected(ctx, n)
    props = word_form.properties
    ctx.check(ctx.same_text(word_form.form, str(n)), 'text-is-decimal')
    ctx.check(word_form.word.type == r.WORD_TYPE.INTEGER, 'word-type')
    number = props.get(r.NUMBER)
    ctx.check(ctx.Iff(number == r.NUMBER.SINGULAR, singular), 'number-singular-iff-one')
    ctx.check(ctx.Or(number == r.NUMBER.SINGULAR, number == r.NUMBER.PLURAL), 'number-known')
    form = props.get(r.INTEGER_FORM)
    for record, condition in forms.items():
        ctx.check(ctx.Iff(form == record, condition), 'form-' + record.name)
    ctx.observe('text', word_form.form)
    ctx.observe('number', number)
    ctx.observe('form', form)


def any_integer(ctx, lo, hi):
    n = ctx.int('n', lo, hi)
    verify(ctx, n, constructors.construct_integer(n))


def repeated(ctx, lo, hi):
    # a second numeral in between must not disturb the first one, nor its reconstruction
    n = ctx.int('n', lo, hi)
    m = ctx.int('m', lo, hi)
    first = constructors.construct_integer(n)
    constructors.construct_integer(m)
    again = constructors.construct_integer(n)
    verify(ctx, n, first)
    ctx.check(ctx.same_text(again.form, first.form), 'same-text-again')
    ctx.check(again.properties.get(r.INTEGER_FORM) == first.properties.get(r.INTEGER_FORM), 'same-form-again')
    ctx.check(again.properties.get(r.NUMBER) == first.properties.get(r.NUMBER), 'same-number-again')


def opposite(ctx):
    """Any two integers outside the table, of any signs, one after the other."""
    n = ctx.int('n', *ctx.choose('first', [(None, -1), (10001, None)]))
    m = ctx.int('m', *ctx.choose('second', [(None, -1), (10001, None)]))
    verify_text(ctx, n, constructors.construct_integer(n), 'first')
    verify_text(ctx, m, constructors.construct_integer(m), 'second')
    verify_text(ctx, n, constructors.construct_integer(n), 'first-again')


def verify_text(ctx, n, word_form, label):
    singular, forms = expected(ctx, n)
    ctx.check(ctx.same_text(word_form.form, str(n)), label + '-text-is-decimal')
    ctx.check(ctx.Iff(word_form.properties.get(r.NUMBER) == r.NUMBER.SINGULAR, singular), label + '-number')
    form = word_form.properties.get(r.INTEGER_FORM)
    ctx.check(ctx.And(*[ctx.Implies(condition, form == record) for record, condition in forms.items()]), label + '-form')


def warm():
    constructors.construct_integer(5)


def SCENARIOS(tier):
    return [
        Scenario('negative', any_integer, 'every integer n < 0', dict(lo=None, hi=-1)),
        Scenario('large', any_integer, 'every integer n > 10000', dict(lo=10001, hi=None)),
        Scenario('table', any_integer, 'every integer 0 <= n <= 10000 (through the precomputed table)', dict(lo=0, hi=10000), setup=warm),
        Scenario('table-cold', any_integer, 'every integer 0 <= n <= 10000, first numeral of the process', dict(lo=0, hi=10000)),
        Scenario('negative-warm', any_integer, 'every integer n < 0, table already built', dict(lo=None, hi=-1), setup=warm),
        Scenario('large-warm', any_integer, 'every integer n > 10000, table already built', dict(lo=10001, hi=None), setup=warm),
        Scenario('border', any_integer, 'every integer -30000 <= n <= 30000 outside the table, in bit-vector arithmetic', dict(lo=10001, hi=30000)),
        Scenario('repeat', repeated, 'two interleaved integers of any size outside the table', dict(lo=10001, hi=None)),
        Scenario('signs', opposite, 'two integers of any size and sign outside the table, one after the other', {}),
    ]
