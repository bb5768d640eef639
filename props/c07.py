# Which stored form a word shows for requested features.
import itertools

from sx.scenario import Scenario

from utg import relations as r
from utg import words

from props import common as c

TYPES = [t for t in r.WORD_TYPE.records]


def mark(i):
    return 'x%03d' % i


def marked(kind, props):
    return words.Word(type=kind, forms=[mark(i) for i in range(c.SIZES[kind.name])], properties=props)


def closest(kind, raw):
    """Slots agreeing with an impossible combination in most features, later features first on ties."""
    def score(key):
        same = [i for i, (a, b) in enumerate(zip(key, raw)) if a is None or a == b]
        return (len(same), sum(same))
    keys = c.KEYS[kind.name]
    best = max(score(k) for k in keys)
    return [i for i, k in enumerate(keys) if score(k) == best]


def impossible(kind):
    """[(combination, acceptable slots)]"""
    out = []
    for raw in itertools.product(*[s.records for s in c.SCHEMAS[kind.name]]):
        if not any(all(a is None or a == b for a, b in zip(k, raw)) for k in c.KEYS[kind.name]):
            out.append((raw, closest(kind, raw)))
    return out


IMPOSSIBLE = {}


def prepare():
    for kind in TYPES:
        IMPOSSIBLE[kind.name] = impossible(kind)


def verdict(ctx, kind, effective, shown, label):
    """The text shown is that of the slot for the effective features."""
    acc = []
    schema = c.SCHEMAS[kind.name]
    for i, key in enumerate(c.KEYS[kind.name]):
        here = ctx.And(*[ctx.Eq(effective[rel], k) for rel, k in zip(schema, key) if k is not None])
        acc.append(ctx.Implies(here, ctx.same_text(shown, mark(i))))
    ctx.check(ctx.And(*acc), label)
    acc = []
    for raw, slots in IMPOSSIBLE[kind.name]:
        here = ctx.And(*[ctx.Eq(effective[rel], k) for rel, k in zip(schema, raw)])
        acc.append(ctx.Implies(here, ctx.Or(*[ctx.same_text(shown, mark(i)) for i in slots])))
    ctx.check(ctx.And(*acc), label + '-impossible-combination')


def effective(kind, own, asked):
    out = {}
    for rel in c.SCHEMAS[kind.name]:
        if own.is_specified(rel):
            out[rel] = own.get(rel)
        elif asked.is_specified(rel):
            out[rel] = asked.get(rel)
        else:
            out[rel] = c.default(rel)
    return out


def requested(ctx, kind, own_given, asked_optional):
    schema = c.SCHEMAS[kind.name]
    own = c.properties(ctx, 'own', [], schema) if own_given else words.Properties()
    asked = c.properties(ctx, 'asked', [], schema) if asked_optional else c.properties(ctx, 'asked', schema)
    asked = words.Properties(asked, c.properties(ctx, 'other', [r.ASPECT, r.VOICE, r.DEPENDENCY_MODE]))
    word = marked(kind, own)
    want = effective(kind, own, asked)
    verdict(ctx, kind, want, word.form(asked), 'word-form')
    shown = words.WordForm(word, asked)
    verdict(ctx, kind, want, shown.form, 'word-form-object')
    verdict(ctx, kind, want, shown.form, 'word-form-object-again')
    ctx.observe('form', shown.form)


def normal(ctx, kind):
    schema = c.SCHEMAS[kind.name]
    own = c.properties(ctx, 'own', [], schema)
    word = marked(kind, own)
    want = effective(kind, own, words.Properties())
    verdict(ctx, kind, want, word.normal_form(), 'normal-form')
    verdict(ctx, kind, want, words.WordForm(word).form, 'default-word-form')
    ctx.observe('form', word.normal_form())


def separate(ctx, kind):
    """A word form whose displayed features differ from its grammatical ones."""
    schema = c.SCHEMAS[kind.name]
    own = c.properties(ctx, 'own', [r.ASPECT])
    a = c.properties(ctx, 'a', schema)
    b = c.properties(ctx, 'b', schema)
    shown = words.WordForm(marked(kind, own), a, b)
    verdict(ctx, kind, effective(kind, own, b), shown.form, 'displayed')
    for rel in schema:
        ctx.check(shown.properties.get(rel) == a.get(rel), 'grammatical-' + rel.__name__)
    ctx.observe('form', shown.form)


def capital(ctx, length, alphabet):
    text = ctx.string('text', 0, length, alphabet)
    size = ctx.record('size', r.WORD_CASE, none=True)
    own = ctx.record('own', r.WORD_CASE, none=True)
    word = words.Word(type=r.WORD_TYPE.TEXT, forms=[text], properties=words.Properties(own))
    shown = words.WordForm(word, words.Properties(size)).form
    upper = (own == r.WORD_CASE.UPPER) if own is not None else (size == r.WORD_CASE.UPPER)
    if upper:
        ctx.check(len(shown) == len(text), 'length')
        if text != '':
            ctx.check(ctx.same_text(shown[0], text[0].upper()), 'first-letter')
            ctx.check(ctx.same_text(shown[1:], text[1:]), 'rest')
    else:
        ctx.check(ctx.same_text(shown, text), 'unchanged')
    ctx.check(ctx.same_text(word.forms[0], text), 'stored-form-kept')
    ctx.observe('shown', shown)


def odd_capital(ctx):
    """Letters with unusual capitals."""
    text = ctx.choose('letter', c.ODD) + ctx.string('tail', 0, 2, 'аЯz')
    size = ctx.record('size', r.WORD_CASE, none=True)
    word = words.Word(type=r.WORD_TYPE.TEXT, forms=[text])
    shown = words.WordForm(word, words.Properties(size)).form
    want = text[0].upper() + text[1:] if size == r.WORD_CASE.UPPER else text
    ctx.check(ctx.same_text(shown, want), 'text')
    ctx.check(ctx.same_text(word.forms[0], text), 'stored-form-kept')
    ctx.observe('shown', shown)


def large(ctx, kind, length):
    """Long texts that differ at their very ends."""
    schema = c.SCHEMAS[kind.name]
    filler = 'длинный %s ' * length
    own = c.properties(ctx, 'own', [], schema[:1])
    word = words.Word(type=kind, forms=[filler + mark(i) for i in range(c.SIZES[kind.name])], properties=own)
    asked = c.properties(ctx, 'asked', schema)
    size = ctx.record('size', r.WORD_CASE)
    shown = words.WordForm(word, words.Properties(asked, size)).form
    want = filler
    if size == r.WORD_CASE.UPPER:
        want = want[0].upper() + want[1:]
    ctx.check(ctx.same_text(shown[:len(filler)], want), 'beginning')
    verdict(ctx, kind, effective(kind, own, asked), shown[len(filler):], 'end')
    ctx.observe('form', shown)


def changed(ctx, kind):
    """The forms may change between two requests."""
    word = words.Word(type=kind, forms=['x%03d' % i for i in range(c.SIZES[kind.name])])
    asked = c.properties(ctx, 'p', kind.schema)
    shown = word.form(asked)
    place = ctx.choose('place', 3)
    if place == 0:
        word.forms = ['y%03d' % i for i in range(len(word.forms))]
    elif place == 1:
        word.forms[:] = ['y%03d' % i for i in range(len(word.forms))]
    else:
        word.forms[0] = ''
        for i in range(1, len(word.forms)):
            word.forms[i] = 'y%03d' % i
        word.autofill_missed_forms()
        word.forms[0] = 'y000'
    ctx.check(ctx.same_text(word.form(asked), 'y' + shown[1:]), 'form-changed')
    ctx.check(ctx.same_text(words.WordForm(word, asked).form, 'y' + shown[1:]), 'shown-changed')
    ctx.observe('shown', shown)


def SCENARIOS(tier):
    prepare()
    out = []
    for t in TYPES:
        n = len(c.SCHEMAS[t.name])
        if n:
            out.append(Scenario('own-' + t.name, requested, 'every request giving all %d features, every own features, each given or not' % n,
                                dict(kind=t, own_given=True, asked_optional=False)))
        out.append(Scenario('asked-' + t.name, requested, 'every request, each of the %d features given or not' % n,
                            dict(kind=t, own_given=False, asked_optional=True)))
        out.append(Scenario('normal-' + t.name, normal, 'every own features, each given or not', dict(kind=t)))
        out.append(Scenario('separate-' + t.name, separate, 'every two sets of features', dict(kind=t)))
        out.append(Scenario('large-' + t.name, large, 'forms of more than 400 characters, every request', dict(kind=t, length=40)))
    for t in (r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN):
        out.append(Scenario('changed-' + t.name, changed, 'every request before and after the forms were changed in three ways', dict(kind=t)))
    out.append(Scenario('capital', capital, 'every text of up to 4 characters of ASCII, Cyrillic and common signs',
                        dict(length=6 if tier == 'thorough' else 4, alphabet=c.EVERY)))
    out.append(Scenario('odd-capital', odd_capital, '27 unusual letters before up to 2 characters', {}))
    return out
