# How often each template is drawn.  The answers of `random` are taken to be independent and uniform; the runs they lead to are all enumerated
# on each path, and the solver decides that the shares are equal for all restrictions on the path.
from sx.scenario import Scenario

from utg import relations as r

from props import c21
from props import c22


def shares(ctx, lex, ask, key, given, made, wanted, label):
    results = ctx.distribution(ask, key, given)
    if results is None:
        ctx.cover('too many runs')
        return
    whole = 1
    for _, _, runs in results:
        whole = whole * runs // gcd(whole, runs)
    total = ctx.count(wanted)
    for text in sorted(set(m.text for m in made)):
        times = 0
        for t, error, runs in results:
            if error is None and t.template == text:
                times += whole // runs
        mine = ctx.count([ctx.And(w, m.text == text) for w, m in zip(wanted, made)])
        ctx.check(ctx.Implies(ctx.Or(*wanted), ctx.Eq(mine * whole, total * times)), label + '-share')
    ctx.observe(label, sorted([t.template, whole // runs] for t, error, runs in results if error is None))


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def uniform(ctx, n, elements, kinds, texts=None, shared=False, keys=('k0',)):
    lex, made = c21.fill(ctx, n, elements, list(keys), kinds, texts, shared)
    key = keys[0] if len(keys) == 1 else ctx.choose('key', list(keys))
    given = ctx.subset('given', elements)
    allowed, best = c22.nearest(ctx, made, key, given)
    shares(ctx, lex, lex.get_random_template, key, given, made, allowed, 'random')
    shares(ctx, lex, lex.get_random_nearest_template, key, given, made, best, 'nearest')
    shares(ctx, lex, lex.get_random_template, key, given, made, allowed, 'random-again')


def large(ctx, number, elements):
    lex, made = c21.crowd(number, elements)
    given = ctx.subset('given', elements)
    given = frozenset(e for e in elements if e in given)
    allowed = [m for m in made if m.needs <= given]
    most = max([len(m.needs) for m in allowed] or [0])
    best = [m for m in allowed if len(m.needs) == most]
    for label, ask, wanted in (('random', lex.get_random_template, allowed), ('nearest', lex.get_random_nearest_template, best)):
        results = ctx.distribution(ask, 'k0', given)
        if results is None or not wanted:
            ctx.cover('too many runs')
            continue
        shares = {}
        for t, error, runs in results:
            if error is None:
                shares.setdefault(t.template, []).append(runs)
        ctx.check(sorted(shares) == sorted(m.text for m in wanted), label + '-all')
        ctx.check(len(set(tuple(sorted(runs)) for runs in shares.values())) == 1, label + '-share')
    ctx.observe('number', len(allowed))


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, bounds, **params):
        out.append(Scenario(name, uniform, bounds, params))
    p = 'positional'
    add('two', 'two templates, all sets of 3 restrictions', n=2, elements=['a', 'b', 'c'], kinds=[p, 'copy'])
    add('three', 'three templates, all sets of 3 restrictions', n=3, elements=['a', 'b', 'c'], kinds=[p] * 3)
    add('four', 'four templates, all sets of 2 restrictions', n=4, elements=['a', 'b'], kinds=[p] * 4)
    add('mixed', 'three templates, the middle one without restrictions, all sets of a feature, a number and a name', n=3, elements=[r.CASE.DATIVE, 1, 'b'], kinds=[p, 'none', p])
    add('keys', 'four templates under two keys, all sets of one restriction', n=4, elements=['a'], kinds=[p, 'none', p, p], keys=('k0', 'k1'))
    add('repeated', 'four templates, two with the same text, all sets of 2 restrictions', n=4, elements=['a', 'b'], kinds=[p] * 4, texts=['t0', 't1', 't0', 't2'])
    add('same-object', 'four templates, the same object added twice among them, all sets of 2 restrictions', n=4, elements=['a', 'b'], kinds=[p] * 4, texts=['t0', 't1', 't0', 't2'], shared=True)
    out.append(Scenario('large', large, '24 templates with sets of up to 3 restrictions, all sets given', dict(number=24, elements=['a', 'b', 'c'])))
    if deep:
        add('six', 'six templates, all sets of 2 restrictions', n=6, elements=['a', 'b'], kinds=[p] * 6)
        add('four-many', 'four templates, all sets of 4 restrictions', n=4, elements=list('abcd'), kinds=[p] * 4)
    return out
