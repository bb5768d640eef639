# Combining features.
from sx.scenario import Scenario

from utg import relations as r
from utg import words

from props import common as c


class Model(object):
    """What a feature set should hold: group -> value or None."""

    def __init__(self):
        self.values = {relation: None for relation in c.ALL}

    def give(self, relation, value):
        if value is not None:
            self.values[relation] = value

    def merge(self, other):
        for relation in c.ALL:
            self.give(relation, other.values[relation])

    def copy(self):
        m = Model()
        m.values = dict(self.values)
        return m


def verdict(ctx, props, model, label, relations=None):
    acc = []
    for relation in relations or c.ALL:
        value = model.values[relation]
        given = value is not None
        acc.append(ctx.Iff(props.is_specified(relation), given))
        if given:
            acc.append(ctx.Eq(props.get(relation), value))
        else:
            acc.append(ctx.Eq(props.get(relation), c.default(relation)))
    ctx.check(ctx.And(*acc), label)


def all_groups(ctx, relations):
    """Two sets over all groups, each group given or not: the later one wins."""
    first = [ctx.record('a.' + relation.__name__, relation, none=relation in relations) for relation in c.ALL]
    second = [ctx.record('b.' + relation.__name__, relation, none=relation in relations) if relation in relations else None for relation in c.ALL]
    a, b = words.Properties(*first), words.Properties(*second)
    ma, mb = Model(), Model()
    for relation, x, y in zip(c.ALL, first, second):
        ma.give(relation, x)
        mb.give(relation, y)
    both = ma.copy()
    both.merge(mb)
    ways = [words.Properties(a, b), a.clone(b), words.Properties(*(first + second)), words.Properties(a, *second),
            words.Properties(*(first + [b])), words.Properties(None, a, None, b, None)]
    for n, merged in enumerate(ways):
        verdict(ctx, merged, both, 'merged-%d' % n)
    verdict(ctx, a, ma, 'first-kept')
    verdict(ctx, b, mb, 'second-kept')
    verdict(ctx, words.Properties(), Model(), 'empty')
    ctx.observe('merged', [ways[0].get(relation) for relation in relations])


def sequence(ctx, length, groups):
    """Any sequence of features, absent ones, and feature sets."""
    args = []
    model = Model()
    for i in range(length):
        kind = ctx.choose('kind%d' % i, len(groups) + 1)
        if kind < len(groups):
            value = ctx.record('v%d' % i, groups[kind], none=True)
            args.append(value)
            model.give(groups[kind], value)
        else:
            parts = [ctx.record('v%d.%d' % (i, j), g, none=True) for j, g in enumerate(groups)]
            args.append(words.Properties(*parts))
            for g, p in zip(groups, parts):
                model.give(g, p)
    result = words.Properties(*args)
    verdict(ctx, result, model, 'sequence')
    step = words.Properties()
    for a in args:
        step = step.clone(a)
    verdict(ctx, step, model, 'step-by-step')
    ctx.observe('result', [result.get(g) for g in groups])


def copies(ctx, groups):
    """Copies and originals do not follow each other."""
    base = [ctx.record('b.%s' % g.__name__, g, none=True) for g in groups]
    extra = [ctx.record('e.%s' % g.__name__, g, none=True) for g in groups]
    later = [ctx.record('l.%s' % g.__name__, g, none=True) for g in groups]
    original = words.Properties(*base)
    copy = original.clone(*extra)
    other = original.clone()
    holder = words.Properties(original)
    mb, mc = Model(), Model()
    for g, b, e in zip(groups, base, extra):
        mb.give(g, b)
        mc.give(g, b)
        mc.give(g, e)
    verdict(ctx, original, mb, 'original-after-clone')
    verdict(ctx, copy, mc, 'clone')
    verdict(ctx, other, mb, 'plain-clone')
    # the only way to change a set in place
    original._update(*later)
    ml = mb.copy()
    for g, x in zip(groups, later):
        ml.give(g, x)
    verdict(ctx, original, ml, 'updated')
    verdict(ctx, copy, mc, 'clone-after-update')
    verdict(ctx, other, mb, 'plain-clone-after-update')
    verdict(ctx, holder, mb, 'container-after-update')
    copy._update(*base)
    verdict(ctx, original, ml, 'original-after-update-of-clone')
    verdict(ctx, words.Properties(), Model(), 'fresh-set-is-empty')
    ctx.observe('copy', [copy.get(g) for g in groups])


def distance(ctx, optional):
    """Number of non-default features."""
    values = [ctx.record('a.' + relation.__name__, relation, none=True) if relation in optional else None for relation in c.ALL]
    props = words.Properties(*values)
    expected = ctx.count([ctx.Not(ctx.Eq(v, c.default(relation))) for relation, v in zip(c.ALL, values) if v is not None])
    ctx.check(props.manhattan_distance() == expected, 'non-default-features')
    ctx.observe('distance', props.manhattan_distance())


def full_distance(ctx, relations, rest):
    # the other groups hold their first or their last value
    values = [ctx.record('a.' + relation.__name__, relation) if relation in relations else relation.records[rest] for relation in c.ALL]
    props = words.Properties(*values)
    expected = ctx.count([ctx.Not(ctx.Eq(v, c.default(relation))) for relation, v in zip(c.ALL, values)])
    ctx.check(props.manhattan_distance() == expected, 'non-default-features')
    ctx.observe('distance', props.manhattan_distance())


def raw_key(ctx, kind):
    schema = c.SCHEMAS[kind.name]
    values = [ctx.record('a.' + relation.__name__, relation, none=True) for relation in schema]
    props = words.Properties(*values)
    key = props.get_raw_key(kind.schema)
    ctx.check(len(key) == len(schema), 'length')
    for relation, v, k in zip(schema, values, key):
        ctx.check(ctx.Eq(k, c.default(relation) if v is None else v), 'value-' + relation.__name__)
    ctx.observe('key', list(key))


def large(ctx, groups, number):
    """Many features and sets, one after another."""
    args, model = [], Model()
    at = ctx.choose('at', [0, number // 2, number - 1])
    for i in range(number):
        if i == at:
            parts = [(g, ctx.record('%d.%s' % (i, g.__name__), g, none=True)) for g in groups]
        else:
            parts = [(g, g.records[i % len(g.records)]) for g in (c.ALL[i % len(c.ALL)], c.ALL[(i + 5) % len(c.ALL)])]
        for g, p in parts:
            model.give(g, p)
        args.append(words.Properties(*[p for g, p in parts]))
    verdict(ctx, words.Properties(*args), model, 'many-sets')
    flat = words.Properties()
    for a in args:
        flat = words.Properties(flat, None, a, None)
    verdict(ctx, flat, model, 'one-by-one')
    nested = words.Properties()
    for a in args:
        nested = nested.clone(a, words.Properties())
    verdict(ctx, nested, model, 'clones')
    ctx.observe('result', [nested.get(g) for g in groups])


def gone(ctx, groups):
    """A feature set made when another one is gone."""
    both = [[ctx.record('v%d.%s' % (i, g.__name__), g) for g in groups] for i in range(2)]
    for i in (0, 1, 0):
        values = both[i]
        made = words.Properties(*values)
        expected = ctx.count([ctx.Not(ctx.Eq(v, c.default(g))) for g, v in zip(groups, values)])
        for group, value in zip(groups, values):
            ctx.check(made.get(group) == value, 'value-%d' % i)
            ctx.check(made.is_specified(group), 'given-%d' % i)
        ctx.check(made.manhattan_distance() == expected, 'count-%d' % i)
        ctx.check(not made.is_specified(r.VOICE), 'absent-%d' % i)
        del made
    ctx.observe('done', 1)


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []
    step = 3
    for n in range(0, len(c.ALL), step):
        part = c.ALL[n:n + step]
        names = ', '.join(g.__name__ for g in part)
        out.append(Scenario('all-groups-%d' % n, all_groups, 'every value of all %d groups; %s given or not in either set' % (len(c.ALL), names), dict(relations=part)))
    out.append(Scenario('sequence', sequence, 'every sequence of %d features, absent features and feature sets over two groups' % (4 if deep else 3), dict(
        length=4 if deep else 3, groups=[r.CASE, r.WORD_TYPE])))
    out.append(Scenario('sequence-3', sequence, 'every sequence of %d features, absent features and feature sets over three groups' % (3 if deep else 2), dict(
        length=3 if deep else 2, groups=[r.NUMBER, r.PERSON, r.WORD_CASE])))
    for number in (9, 40):
        out.append(Scenario('large-%d' % number, large, '%d feature sets, one of them with every value of three groups, given or not' % number, dict(groups=[r.CASE, r.GENDER, r.WORD_TYPE], number=number)))
    out.append(Scenario('gone', gone, 'two sets of every value of two groups, one made when the other is gone', dict(groups=[r.CASE, r.NUMBER])))
    out.append(Scenario('copies', copies, 'three sets over two groups, each value given or not', dict(groups=[r.CASE, r.GENDER])))
    for n in range(0, len(c.ALL), 5):
        part = c.ALL[n:n + 5]
        out.append(Scenario('distance-%d' % n, distance, 'every value of %s, each given or not' % ', '.join(g.__name__ for g in part), dict(optional=part)))
    half = 10 if deep else 7
    for n in range(0, len(c.ALL), half):
        part = c.ALL[n:n + half]
        out.append(Scenario('distance-given-%d' % n, full_distance, 'all %d groups given, every value of %s' % (len(c.ALL), ', '.join(g.__name__ for g in part)),
                            dict(relations=part, rest=-1 if n else 0)))
    for t in r.WORD_TYPE.records:
        if c.SCHEMAS[t.name]:
            out.append(Scenario('key-' + t.name, raw_key, 'every features of the schema, each given or not', dict(kind=t)))
    return out
