# Choosing templates by restrictions.
from sx.scenario import Scenario

from utg import exceptions
from utg import lexicon
from utg import relations as r
from utg import templates

from props import common as c

KEYS = ['k0', 'k1', 'k2']


def template(text):
    t = templates.Template()
    t.parse(text, externals=())
    return t


class Added(object):
    """A template added under a key with its restrictions; `texts` are what tells templates apart."""

    def __init__(self, key, text, needs):
        self.key = key
        self.text = text
        self.needs = needs


def allowed(ctx, entry, key, given):
    return ctx.And(ctx.Eq(entry.key, key), *[ctx.Implies(e in entry.needs, e in given) for e in entry.elements])


def fill(ctx, n, elements, keys, kinds, texts=None, shared=False):
    lex = lexicon.Lexicon()
    made = []
    objects = {}
    for i in range(n):
        key = keys[0] if len(keys) == 1 else ctx.choose('key%d' % i, keys)
        text = 't%d' % i if texts is None else texts[i]
        entry = Added(key, text, frozenset())
        entry.elements = elements
        one = objects.get(text) if shared else None
        if one is None:
            one = objects[text] = template(text)
        if kinds[i] == 'none':
            lex.add_template(key, one)
        else:
            entry.needs = ctx.subset('needs%d' % i, elements)
            lex.add_template(key, one, entry.needs if kinds[i] == 'positional' else frozenset(entry.needs))
        made.append(entry)
    return lex, made


def exact(ctx, made, wanted, got, label):
    """`got` is exactly the wanted ones, in the order added."""
    ctx.check(ctx.Eq(ctx.count(wanted), len(got)), label + '-number')
    for i, entry in enumerate(made):
        before = ctx.count(wanted[:i])
        for k in range(len(got)):
            ctx.check(ctx.Implies(ctx.And(wanted[i], ctx.Eq(before, k)), ctx.same_text(got[k].template, entry.text)), label + '-in-order')


def drawn(ctx, results, made, wanted, label):
    """Every answer is a wanted one, and every wanted one is some answer."""
    texts = [t.template for t, error in results if error is None]
    for text in texts:
        ctx.check(ctx.Or(*[ctx.And(w, ctx.same_text(text, m.text)) for w, m in zip(wanted, made)]), label + '-is-allowed')
    for w, m in zip(wanted, made):
        ctx.check(ctx.Implies(w, ctx.Or(*[ctx.same_text(t, m.text) for t in texts])), label + '-can-be-drawn')


def errors(ctx, results, known_key, something, key, given, elements, label):
    for _, error in results:
        ctx.check(ctx.Iff(error is None, something), label + '-answers-exactly-if-possible')
        if error is not None:
            unknown = isinstance(error, exceptions.UnknownLexiconKeyError)
            ctx.check(ctx.Iff(unknown, ctx.Not(known_key)), label + '-unknown-key')
            ctx.check(unknown or isinstance(error, exceptions.NoTemplatesWithSpecifiedRestrictions), label + '-error')
            ctx.check(isinstance(error, exceptions.LexiconError) and isinstance(error, exceptions.UtgError), label + '-family')
            ctx.check(ctx.Eq(error.arguments['key'], key), label + '-key-of-error')
            if not unknown:
                told = error.arguments['restrictions']
                ctx.check(ctx.And(*[ctx.Iff(e in told, e in given) for e in elements]), label + '-restrictions-of-error')


def select(ctx, n, elements, keys, kinds, default_request=False, texts=None, shared=False):
    lex, made = fill(ctx, n, elements, keys, kinds, texts, shared)
    key = ctx.choose('key', keys + ['k9']) if len(keys) > 1 or n == 0 else keys[0]
    given = frozenset() if default_request else ctx.subset('given', elements)
    known_key = any(m.key == key for m in made)
    ctx.check(ctx.Iff(lex.has_key(key), known_key), 'has-key')
    wanted = [allowed(ctx, m, key, given) for m in made]
    got = lex.get_templates(key, given)
    exact(ctx, made, wanted, got, 'all')
    arguments = [key] if default_request else [key, given]
    results = ctx.outcomes(lex.get_random_template, *arguments)
    errors(ctx, results, known_key, ctx.Or(*wanted), key, given, elements, 'random')
    drawn(ctx, results, made, wanted, 'random')
    # asking changes nothing
    exact(ctx, made, wanted, lex.get_templates(key, restrictions=given), 'again')
    ctx.check(ctx.Iff(lex.has_key(key), known_key), 'has-key-again')
    ctx.observe('number', len(got))
    ctx.observe('texts', [t.template for t in got])


def growing(ctx, elements):
    """Templates added between requests."""
    lex = lexicon.Lexicon()
    other = lexicon.Lexicon()
    made = []
    for i in range(3):
        entry = Added(ctx.choose('key%d' % i, KEYS[:2]), 't%d' % i, ctx.subset('needs%d' % i, elements))
        entry.elements = elements
        lex.add_template(entry.key, template(entry.text), entry.needs)
        made.append(entry)
        given = ctx.subset('given%d' % i, elements)
        for key in KEYS[:2]:
            wanted = [allowed(ctx, m, key, given) for m in made]
            exact(ctx, made, wanted, lex.get_templates(key, given), 'all-%d' % i)
        ctx.check(not other.has_key(entry.key), 'separate')
        ctx.check(len(other.get_templates(entry.key, given)) == 0, 'separate-templates')


def crowd(number, elements, key='k0'):
    """Many templates with all kinds of restrictions."""
    lex = lexicon.Lexicon()
    made = []
    for i in range(number):
        entry = Added(key, 't%d' % i, frozenset(e for j, e in enumerate(elements) if (i * 7 + i // 8) >> j & 1))
        entry.elements = elements
        lex.add_template(key, template(entry.text), entry.needs)
        made.append(entry)
    return lex, made


def large(ctx, number, elements):
    lex, made = crowd(number, elements)
    given = ctx.subset('given', elements)
    given = frozenset(e for e in elements if e in given)
    wanted = [m.text for m in made if m.needs <= given]
    got = lex.get_templates('k0', given)
    ctx.check([t.template for t in got] == wanted, 'all-in-order')
    results = ctx.outcomes(lex.get_random_template, 'k0', given)
    ctx.check(sorted(set(t.template for t, error in results if error is None)) == sorted(wanted), 'random')
    ctx.observe('number', len(got))


def by_key(ctx, n, pick):
    """Templates without restrictions under keys of any text or kind, asked with any such key."""
    lex = lexicon.Lexicon()
    made = []
    for i in range(n):
        entry = Added(pick(ctx, 'key%d' % i), 't%d' % i, frozenset())
        entry.elements = []
        lex.add_template(entry.key, template(entry.text))
        made.append(entry)
    key = pick(ctx, 'key')
    wanted = [ctx.Eq(m.key, key) for m in made]
    ctx.check(ctx.Iff(lex.has_key(key), ctx.Or(*wanted)), 'has-key')
    exact(ctx, made, wanted, lex.get_templates(key, frozenset()), 'all')
    for name, ask in [('random', lex.get_random_template), ('nearest', lex.get_random_nearest_template)]:
        results = ctx.outcomes(ask, key)
        errors(ctx, results, ctx.Or(*wanted), ctx.Or(*wanted), key, frozenset(), [], name)
        drawn(ctx, results, made, wanted, name)


def any_text(most, alphabet):
    return lambda ctx, name: ctx.string(name, 0, most, alphabet)


KINDS = ['1', 1, '', None, ('1',), ' 1', 'a', 'A', r.CASE.GENITIVE, 2, '2']


def any_kind(ctx, name):
    return ctx.choose(name, KINDS)


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, bounds, **params):
        out.append(Scenario(name, select, bounds, params))
    one = ['k0']
    add('empty', 'no template, every key', n=0, elements=['a'], keys=KEYS[:2], kinds=[])
    add('one', 'one template, all sets of 4 restrictions', n=1, elements=['a', 'b', 'c', 'd'], keys=one, kinds=['positional'])
    add('two', 'two templates, all sets of 3 restrictions', n=2, elements=['a', 'b', 'c'], keys=one, kinds=['positional', 'copy'])
    add('two-kinds', 'two templates, all sets of 4 restrictions that read alike or are features', n=2, elements=['1', 1, 'мн', r.NUMBER.PLURAL], keys=one, kinds=['positional', 'copy'])
    add('three', 'three templates, all sets of 3 restrictions', n=3, elements=['a', 'b', 'c'], keys=one, kinds=['positional'] * 3)
    add('four', 'four templates, all sets of 2 restrictions', n=4, elements=['a', 'b'], keys=one, kinds=['positional'] * 4)
    add('mixed', 'three templates, the middle one without restrictions, all sets of 3 restrictions', n=3, elements=['a', 'b', 'c'], keys=one, kinds=['positional', 'none', 'positional'])
    add('keys', 'three templates under three keys, all sets of 2 restrictions, every key and an unknown one', n=3, elements=['a', 'b'], keys=KEYS, kinds=['positional', 'none', 'positional'])
    add('kinds', 'three templates, all sets of a number, a feature, a pair and a name', n=3, elements=[0, r.CASE.GENITIVE, ('a', 1), 'a'], keys=one, kinds=['positional'] * 3)
    add('default', 'three templates, no restrictions given', n=3, elements=['a', 'b', 'c'], keys=one, kinds=['positional', 'none', 'copy'], default_request=True)
    add('default-keys', 'three templates under two keys, no restrictions given', n=3, elements=['a'], keys=KEYS[:2], kinds=['none', 'positional', 'none'], default_request=True)
    add('repeated', 'three templates, the first and last with the same text, all sets of 2 restrictions', n=3, elements=['a', 'b'], keys=one, kinds=['positional'] * 3, texts=['t0', 't1', 't0'])
    add('same-object', 'three templates, the same object added twice among them, all sets of 2 restrictions', n=3, elements=['a', 'b'], keys=one, kinds=['positional'] * 3, texts=['t0', 't1', 't0'], shared=True)
    add('same-object-next', 'the same object added three times under two keys, all sets of 2 restrictions', n=3, elements=['a', 'b'], keys=KEYS[:2], kinds=['none', 'positional', 'copy'], texts=['t0'] * 3, shared=True)
    out.append(Scenario('growing', growing, 'three templates added one by one under two keys, all sets of 2 restrictions', dict(elements=['a', 'b'])))
    add('five', 'five templates, all sets of 3 restrictions', n=5, elements=['a', 'b', 'c'], keys=one, kinds=['positional'] * 5)
    add('three-many', 'three templates, all sets of 6 restrictions', n=3, elements=list('abcdef'), keys=one, kinds=['positional'] * 3)
    out.append(Scenario('large', large, '60 templates with sets of up to 3 restrictions, all sets given', dict(number=60, elements=['a', 'b', 'c'])))
    out.append(Scenario('large-many', large, '40 templates with sets of up to 6 restrictions, all sets given', dict(number=40, elements=list('abcdef'))))
    out.append(Scenario('key-texts', by_key, 'two templates under keys of up to 2 characters out of " aA1_", asked with any such key', dict(n=2, pick=any_text(2, ' aA1_'))))
    out.append(Scenario('key-kinds', by_key, 'two templates under keys that are texts, numbers, pairs, features or nothing, asked with any of them', dict(n=2, pick=any_kind)))
    if deep:
        add('six', 'six templates, all sets of 2 restrictions', n=6, elements=['a', 'b'], keys=one, kinds=['positional'] * 6)
        add('keys-four', 'four templates under three keys, all sets of 2 restrictions', n=4, elements=['a', 'b'], keys=KEYS, kinds=['positional'] * 4)
    return out
