# Nearest available combination of features.
import itertools

from sx.scenario import Scenario

from utg import logic
from utg import relations as r

from props import common as c


def any_key(ctx, name, schema, blanks):
    return tuple([ctx.record('%s.%s' % (name, relation.__name__), relation, none=blanks) for relation in schema])


def nearest(ctx, schema, number, blanks, part=()):
    wanted = any_key(ctx, 'wanted', schema, blanks)
    available = [any_key(ctx, 'a%d' % i, schema, blanks) for i in range(number)]
    for n, agrees in enumerate(part):
        ctx.assume(ctx.Iff(ctx.Eq(wanted[n], available[0][n]), agrees))
    result = logic.get_nearest_key(wanted, list(available))
    if number == 0:
        ctx.check(result is None, 'nothing')
        ctx.observe('result', result)
        return
    same = lambda a, b: ctx.And(*[ctx.Eq(x, y) for x, y in zip(a, b)])
    ctx.check(result is not None, 'something')
    ctx.check(ctx.Or(*[same(result, a) for a in available]), 'available')
    agree = [ctx.Eq(x, y) for x, y in zip(result, wanted)]
    got = ctx.count(agree)
    late = sum([ctx.If(g, n, 0) for n, g in enumerate(agree)])
    better = []
    for a in available:
        other = [ctx.Eq(x, y) for x, y in zip(a, wanted)]
        many = ctx.count(other)
        later = sum([ctx.If(g, n, 0) for n, g in enumerate(other)])
        better.append(ctx.Or(many > got, ctx.And(many == got, later > late)))
    ctx.check(ctx.Not(ctx.Or(*better)), 'no-better-match')
    ctx.observe('result', result)


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []
    plan = [('NOUN', 3), ('PREPOSITION', 4), ('PRONOUN', 2), ('VERB', 2), ('ADJECTIVE', 1), ('PARTICIPLE', 2)]
    if deep:
        plan = [('NOUN', 4), ('PREPOSITION', 5), ('PRONOUN', 3), ('VERB', 2), ('ADJECTIVE', 2), ('PARTICIPLE', 2)]
    for name, most in plan:
        for n in range(most + 1):
            if n * len(c.SCHEMAS[name]) > 9:
                # the same, split by the agreement of the first available combination to run in parallel
                for part in itertools.product([True, False], repeat=4):
                    out.append(Scenario('%s-%d-%s' % (name, n, ''.join('yn'[not p] for p in part)), nearest,
                                        'every wanted combination and every list of %d, %d features each, blanks anywhere (one part of 16)' % (n, len(c.SCHEMAS[name])),
                                        dict(schema=c.SCHEMAS[name], number=n, blanks=True, part=part)))
                continue
            out.append(Scenario('%s-%d' % (name, n), nearest, 'every wanted combination and every list of %d, %d features each, blanks anywhere' % (n, len(c.SCHEMAS[name])),
                                dict(schema=c.SCHEMAS[name], number=n, blanks=True)))
    return out
