# The nearest choice of a template.
from sx.scenario import Scenario

from utg import lexicon
from utg import relations as r

from props import c21


def nearest(ctx, made, key, given):
    """Which templates are allowed and meet the most restrictions."""
    allowed = [c21.allowed(ctx, m, key, given) for m in made]
    sizes = [ctx.count([ctx.And(e in m.needs, e in given) for e in m.elements]) for m in made]
    best = []
    for i in range(len(made)):
        best.append(ctx.And(allowed[i], *[ctx.Implies(allowed[j], sizes[j] <= sizes[i]) for j in range(len(made)) if j != i]))
    return allowed, best


def select(ctx, n, elements, keys, kinds, default_request=False, texts=None, shared=False):
    lex, made = c21.fill(ctx, n, elements, keys, kinds, texts, shared)
    key = ctx.choose('key', keys + ['k9']) if len(keys) > 1 or n == 0 else keys[0]
    given = frozenset() if default_request else ctx.subset('given', elements)
    known_key = any(m.key == key for m in made)
    allowed, best = nearest(ctx, made, key, given)
    arguments = [key] if default_request else [key, given]
    results = ctx.outcomes(lex.get_random_nearest_template, *arguments)
    c21.errors(ctx, results, known_key, ctx.Or(*allowed), key, given, elements, 'nearest')
    c21.drawn(ctx, results, made, best, 'nearest')
    again = ctx.outcomes(lex.get_random_nearest_template, *arguments)
    c21.drawn(ctx, again, made, best, 'again')
    # the ordinary choice is not affected
    c21.exact(ctx, made, allowed, lex.get_templates(key, given), 'all')
    ctx.check(ctx.Iff(lex.has_key(key), known_key), 'has-key-again')
    ctx.observe('texts', sorted(t.template for t, error in results if error is None))


def growing(ctx, elements):
    """Templates added between requests."""
    lex = lexicon.Lexicon()
    made = []
    for i in range(3):
        entry = c21.Added('k0', 't%d' % i, ctx.subset('needs%d' % i, elements))
        entry.elements = elements
        lex.add_template(entry.key, c21.template(entry.text), entry.needs)
        made.append(entry)
        given = ctx.subset('given%d' % i, elements)
        allowed, best = nearest(ctx, made, 'k0', given)
        results = ctx.outcomes(lex.get_random_nearest_template, 'k0', given)
        c21.errors(ctx, results, True, ctx.Or(*allowed), 'k0', given, elements, 'nearest-%d' % i)
        c21.drawn(ctx, results, made, best, 'nearest-%d' % i)


def large(ctx, number, elements):
    lex, made = c21.crowd(number, elements)
    given = ctx.subset('given', elements)
    given = frozenset(e for e in elements if e in given)
    allowed = [m for m in made if m.needs <= given]
    most = max([len(m.needs) for m in allowed] or [0])
    best = [m.text for m in allowed if len(m.needs) == most]
    results = ctx.outcomes(lex.get_random_nearest_template, 'k0', given)
    ctx.check(sorted(set(t.template for t, error in results if error is None)) == sorted(best), 'nearest')
    ctx.observe('number', len(best))


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, bounds, **params):
        out.append(Scenario(name, select, bounds, params))
    one = ['k0']
    add('empty', 'no template, every key', n=0, elements=['a'], keys=c21.KEYS[:2], kinds=[])
    add('one', 'one template, all sets of 4 restrictions', n=1, elements=['a', 'b', 'c', 'd'], keys=one, kinds=['positional'])
    add('two', 'two templates, all sets of 4 restrictions', n=2, elements=['a', 'b', 'c', 'd'], keys=one, kinds=['positional', 'copy'])
    add('two-kinds', 'two templates, all sets of 4 restrictions that read alike or are features', n=2, elements=['1', 1, 'мн', r.NUMBER.PLURAL], keys=one, kinds=['positional', 'copy'])
    add('three', 'three templates, all sets of 3 restrictions', n=3, elements=['a', 'b', 'c'], keys=one, kinds=['positional'] * 3)
    add('four', 'four templates, all sets of 2 restrictions', n=4, elements=['a', 'b'], keys=one, kinds=['positional'] * 4)
    add('mixed', 'three templates, the middle one without restrictions, all sets of 3 restrictions', n=3, elements=['a', 'b', 'c'], keys=one, kinds=['positional', 'none', 'positional'])
    add('keys', 'three templates under three keys, all sets of 2 restrictions, every key and an unknown one', n=3, elements=['a', 'b'], keys=c21.KEYS, kinds=['positional', 'none', 'positional'])
    add('kinds', 'three templates, all sets of a number, a feature, a pair and a name', n=3, elements=[0, r.CASE.GENITIVE, ('a', 1), 'a'], keys=one, kinds=['positional'] * 3)
    add('default', 'three templates, no restrictions given', n=3, elements=['a', 'b', 'c'], keys=one, kinds=['positional', 'none', 'copy'], default_request=True)
    add('repeated', 'three templates, the first and last with the same text, all sets of 2 restrictions', n=3, elements=['a', 'b'], keys=one, kinds=['positional'] * 3, texts=['t0', 't1', 't0'])
    add('same-object', 'three templates, the same object added twice among them, all sets of 2 restrictions', n=3, elements=['a', 'b'], keys=one, kinds=['positional'] * 3, texts=['t0', 't1', 't0'], shared=True)
    add('same-object-next', 'the same object added three times under two keys, all sets of 2 restrictions', n=3, elements=['a', 'b'], keys=c21.KEYS[:2], kinds=['none', 'positional', 'copy'], texts=['t0'] * 3, shared=True)
    out.append(Scenario('growing', growing, 'three templates added one by one, all sets of 3 restrictions', dict(elements=['a', 'b', 'c'])))
    add('five', 'five templates, all sets of 3 restrictions', n=5, elements=['a', 'b', 'c'], keys=one, kinds=['positional'] * 5)
    add('three-many', 'three templates, all sets of 6 restrictions', n=3, elements=list('abcdef'), keys=one, kinds=['positional'] * 3)
    out.append(Scenario('large', large, '60 templates with sets of up to 3 restrictions, all sets given', dict(number=60, elements=['a', 'b', 'c'])))
    out.append(Scenario('large-many', large, '40 templates with sets of up to 6 restrictions, all sets given', dict(number=40, elements=list('abcdef'))))
    out.append(Scenario('large-equal', large, '300 templates with sets of up to 2 restrictions, all sets given', dict(number=300, elements=['a', 'b'])))
    if deep:
        add('six', 'six templates, all sets of 2 restrictions', n=6, elements=['a', 'b'], keys=one, kinds=['positional'] * 6)
        add('keys-four', 'four templates under three keys, all sets of 2 restrictions', n=4, elements=['a', 'b'], keys=c21.KEYS, kinds=['positional'] * 4)
    return out
