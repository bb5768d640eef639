# Storage and text form of feature sets.
from sx.scenario import Scenario

from utg import data
from utg import relations as r
from utg import templates
from utg import words

from props import common as c


def same(ctx, a, b):
    acc = []
    for relation in c.ALL:
        acc.append(ctx.Iff(a.is_specified(relation), b.is_specified(relation)))
        acc.append(ctx.Eq(a.get(relation), b.get(relation)))
    return ctx.And(*acc)


def some_features(ctx, given, optional, name='p'):
    return words.Properties(*[ctx.record('%s.%s' % (name, relation.__name__), relation, none=relation in optional) for relation in given + optional])


def storage(ctx, optional, rest):
    props = some_features(ctx, [x for x in c.ALL if x not in optional] if rest else [], optional)
    stored = ctx.json_roundtrip(props.serialize())
    again = words.Properties.deserialize(stored)
    ctx.check(same(ctx, again, props), 'same-features')
    ctx.check(ctx.Eq(again, props), 'equal')
    second = ctx.json_roundtrip(again.serialize())
    ctx.check(ctx.Eq(second, stored), 'same-data')
    direct = words.Properties.deserialize(props.serialize())
    ctx.check(same(ctx, direct, props), 'same-features-without-json')
    ctx.observe('stored', stored)


def unknown_group(ctx):
    """Stored data with an arbitrary extra group and value."""
    group = ctx.int('group', -1, 40)
    value = ctx.int('value', -1, 15)
    case = ctx.record('case', r.CASE)
    stored = {str(r.PROPERTY_TYPE.CASE.value): case.value}
    if ctx.bool('before'):
        stored = {str(group): value, str(r.PROPERTY_TYPE.CASE.value): case.value}
        ctx.assume(group != r.PROPERTY_TYPE.CASE.value)
    else:
        ctx.assume(group != r.PROPERTY_TYPE.CASE.value)
        stored[str(group)] = value
    props = words.Properties.deserialize(stored)
    ctx.check(ctx.Eq(props.get(r.CASE), case), 'known-group-kept')
    for kind in r.PROPERTY_TYPE.records:
        if kind != r.PROPERTY_TYPE.CASE:
            here = group == kind.value
            known = ctx.Or(*[value == record.value for record in kind.relation.records])
            ctx.check(ctx.Iff(props.is_specified(kind.relation), ctx.And(here, known)), 'known-exactly-' + kind.name)
            for record in kind.relation.records:
                ctx.check(ctx.Implies(ctx.And(here, value == record.value), ctx.Eq(props.get(kind.relation), record)), 'value-of-' + kind.name)
    ctx.observe('number', props.manhattan_distance())


def unknown_value(ctx, kind):
    """An arbitrary value in a known group, an arbitrary other group."""
    value = ctx.int('value', -2, 40)
    groups = [g for g in (r.NUMBER, r.CASE) if g is not kind.relation]
    other = [ctx.record('o.%s' % g.__name__, g) for g in groups]
    stored = ctx.json_roundtrip(words.Properties(*other).serialize())
    stored[str(kind.value)] = value
    props = words.Properties.deserialize(stored)
    known = ctx.Or(*[value == record.value for record in kind.relation.records])
    ctx.check(ctx.Iff(props.is_specified(kind.relation), known), 'known-value')
    for record in kind.relation.records:
        ctx.check(ctx.Implies(value == record.value, ctx.Eq(props.get(kind.relation), record)), 'value')
    for g, o in zip(groups, other):
        ctx.check(ctx.Eq(props.get(g), o), 'others-kept')
    ctx.observe('known', props.is_specified(kind.relation))


def text(ctx, given, optional):
    props = some_features(ctx, given, optional)
    shown = str(props)
    ctx.check(ctx.same_text(shown[0], '('), 'opens')
    ctx.check(ctx.same_text(shown[-1], ')'), 'closes')
    again = templates.Substitution.parse_properties(shown[1:-1])
    ctx.check(same(ctx, again, props), 'text-means-the-same')
    ctx.check(ctx.Eq(again, props), 'text-parses-to-equal')
    ctx.observe('text', shown)


def through_template(ctx, relation):
    """A short name used in a template names that very value."""
    value = ctx.record('value', relation)
    template = templates.Template()
    template.parse('[x|%s]' % value.verbose_id, externals=('x',))
    stored = template.serialize()['substitutions'][0]['dependencies']
    props = words.Properties()
    for part in stored:
        props = props.clone(words.Properties.deserialize(part))
    ctx.check(same(ctx, props, words.Properties(value)), 'short-name')
    ctx.observe('stored', stored)


def short_names(ctx):
    """Two different values never share a short name."""
    records = [record for relation in c.ALL for record in relation.records]
    i = ctx.int('i', 0, len(records) - 1)
    j = ctx.int('j', 0, len(records) - 1)
    names = [record.verbose_id for record in records]
    a, b = names[i], names[j]
    ctx.assume(i < j)
    ctx.check(ctx.Not(ctx.same_text(a, b)), 'unique')
    ctx.observe('a', a)


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []
    step = 5
    for n in range(0, len(c.ALL), step):
        part = c.ALL[n:n + step]
        names = ', '.join(g.__name__ for g in part)
        out.append(Scenario('storage-%d' % n, storage, 'every value of all groups, %s given or not' % names, dict(optional=part, rest=True)))
        out.append(Scenario('storage-only-%d' % n, storage, 'every value of %s, given or not' % names, dict(optional=part, rest=False)))
    for kind in r.PROPERTY_TYPE.records:
        out.append(Scenario('unknown-value-' + kind.name, unknown_value, 'every stored value -2..40 of one group, next to every number and case', dict(kind=kind)))
    out.append(Scenario('unknown-group', unknown_group, 'every group -1..40 with every value -1..15, next to every case', {}))
    for relation in c.ALL:
        out.append(Scenario('short-name-' + relation.__name__, through_template, 'every value', dict(relation=relation)))
    out.append(Scenario('short-names', short_names, 'every two values of all groups', {}))
    n = len(c.ALL)
    for i in range(n):
        part = [c.ALL[i], c.ALL[(i + 7) % n]] + ([c.ALL[(i + 12) % n]] if deep else [])
        out.append(Scenario('text-%d' % i, text, 'every value of %s, given or not' % ', '.join(g.__name__ for g in part), dict(given=[], optional=part)))
    return out
