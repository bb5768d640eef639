# The layout of forms of every part of speech.
import itertools

from sx.scenario import Scenario

from utg import data
from utg import relations as r
from utg import words

from props import common as c


def mark(i):
    return 'x%03d' % i


def marked(kind):
    return words.Word(type=kind, forms=[mark(i) for i in range(c.SIZES[kind.name])])


def keys(ctx, kind):
    """The key of every slot, and the slot of every key."""
    size = c.SIZES[kind.name]
    ctx.check(words.Word.get_forms_number(kind) == size, 'number-of-forms')
    listed = words.Word.get_keys(kind)
    ctx.check(len(listed) == size, 'number-of-keys')
    i = ctx.int('i', 0, size - 1)
    key = listed[i]
    want = c.KEYS[kind.name][i]
    for n in range(len(c.SCHEMAS[kind.name])):
        ctx.check(ctx.Eq(key[n], want[n]), 'key-%d' % n)
    ctx.check(len(data.WORDS_CACHES[kind]) == size, 'size-of-index')
    ctx.check(data.WORDS_CACHES[kind][key] == i, 'index-of-key')
    ctx.observe('index', data.WORDS_CACHES[kind][key])


def index(ctx, kind):
    """From features to the slot: blanks where the layout has blanks."""
    schema = c.SCHEMAS[kind.name]
    key = tuple([ctx.record('k.' + relation.__name__, relation, none=True) for relation in schema])
    known = ctx.Or(*[ctx.And(*[ctx.Eq(a, b) for a, b in zip(key, k)]) for k in c.KEYS[kind.name]])
    inside = key in data.WORDS_CACHES[kind]
    ctx.check(ctx.Iff(inside, known), 'exactly-the-documented-combinations')
    ctx.observe('inside', inside)


def forms(ctx, kind):
    """The sequence of all forms: text, features and position belong together."""
    size = c.SIZES[kind.name]
    word = marked(kind)
    everything = list(word.all_forms())
    ctx.check(len(everything) == size, 'number-of-all-forms')
    i = ctx.int('i', 0, size - 1)
    want = c.KEYS[kind.name][i]
    text = ''
    for n in range(size):
        if i == n:
            text = mark(n)
            one = everything[n]
            for relation, value in zip(c.SCHEMAS[kind.name], c.KEYS[kind.name][n]):
                ctx.check(ctx.Iff(one.properties.is_specified(relation), value is not None), 'features-given')
                if value is not None:
                    ctx.check(one.properties.get(relation) == value, 'features')
            ctx.check(ctx.same_text(one.form, mark(n)), 'text')
            ctx.check(ctx.same_text(word.form(one.properties), mark(n)), 'text-by-features')
            ctx.check(one.word is word, 'word')
    ctx.observe('text', text)


def gaps(ctx, kind):
    """Empty texts have their place among all forms like any other."""
    size = c.SIZES[kind.name]
    rest = ctx.choose('rest', ['', 'в'])
    free = sorted(set([0, 1 % size, size // 3, size // 2, size - 1]))
    word = words.Word(type=kind, forms=[ctx.string('t%d' % i, 0, 1, 'аб') if i in free else rest for i in range(size)])
    everything = list(word.all_forms())
    ctx.check(len(everything) == size, 'number-of-all-forms')
    acc = []
    for one, text, key in zip(everything, word.forms, c.KEYS[kind.name]):
        acc.append(ctx.same_text(one.form, text))
        for relation, value in zip(c.SCHEMAS[kind.name], key):
            if value is not None:
                acc.append(ctx.Eq(one.properties.get(relation), value))
    ctx.check(ctx.And(*acc), 'texts-and-features')
    ctx.observe('number', len(everything))


def described(ctx, kind):
    """Features that a slot describes lead to that slot, whatever is asked where it is blank."""
    schema = c.SCHEMAS[kind.name]
    word = marked(kind)
    asked = c.properties(ctx, 'asked', schema)
    shown = word.form(asked)
    acc = []
    for i, key in enumerate(c.KEYS[kind.name]):
        here = ctx.And(*[ctx.Eq(asked.get(relation), k) for relation, k in zip(schema, key) if k is not None])
        acc.append(ctx.Implies(here, ctx.same_text(shown, mark(i))))
    ctx.check(ctx.And(*acc), 'slot')
    ctx.check(ctx.Or(*[ctx.same_text(shown, mark(i)) for i in range(c.SIZES[kind.name])]), 'some-slot')
    ctx.observe('shown', shown)


def SCENARIOS(tier):
    out = []
    for t in r.WORD_TYPE.records:
        n = c.SIZES[t.name]
        out.append(Scenario('keys-' + t.name, keys, 'every one of %d slots' % n, dict(kind=t)))
        out.append(Scenario('index-' + t.name, index, 'every combination of %d features and blanks' % len(c.SCHEMAS[t.name]), dict(kind=t)))
        out.append(Scenario('forms-' + t.name, forms, 'every one of %d slots' % n, dict(kind=t)))
        out.append(Scenario('gaps-' + t.name, gaps, 'every text of 0-1 characters in up to five of %d slots, the others all empty or none' % n, dict(kind=t)))
        if c.SCHEMAS[t.name]:
            out.append(Scenario('described-' + t.name, described, 'every full combination of %d features' % len(c.SCHEMAS[t.name]), dict(kind=t)))
    return out
