# Filling in missing forms.
from sx.scenario import Scenario

from utg import relations as r
from utg import words

from props import common as c


def mark(i):
    return 'x%03d' % i


def score(a, b):
    same = [n for n, (x, y) in enumerate(zip(a, b)) if x == y]
    return (len(same), sum(same))


CLOSEST = {}


def prepare(kind):
    """For every slot, the other slots ordered from the best match down, in classes of equally good ones."""
    if kind.name not in CLOSEST:
        table = []
        for key in c.KEYS[kind.name]:
            classes = {}
            for j, other in enumerate(c.KEYS[kind.name]):
                classes.setdefault(score(key, other), []).append(j)
            table.append([classes[s] for s in sorted(classes, reverse=True)])
        CLOSEST[kind.name] = table
    return CLOSEST[kind.name]


def verdict(ctx, kind, given, before, after):
    """given: which slots had a form; before: the texts."""
    table = prepare(kind)
    ctx.check(len(after) == len(before), 'number-of-forms')
    nothing = True
    for g in given:
        if g:
            nothing = False
    for i, g in enumerate(given):
        if g:
            ctx.check(ctx.same_text(after[i], before[i]), 'given-form-kept')
        elif nothing:
            ctx.check(ctx.same_text(after[i], ''), 'nothing-to-fill-from')
        else:
            for group in table[i]:
                sources = [j for j in group if given[j]]
                if sources:
                    ctx.check(ctx.Or(*[ctx.same_text(after[i], before[j]) for j in sources]), 'closest-given-form')
                    break


def run(ctx, kind, given, texts):
    before = [t if g else '' for t, g in zip(texts, given)]
    word = words.Word(type=kind, forms=list(before), properties=words.Properties(r.WORD_CASE.LOWER))
    word.autofill_missed_forms()
    once = list(word.forms)
    verdict(ctx, kind, given, before, once)
    word.autofill_missed_forms()
    ctx.check(len(word.forms) == len(once), 'number-of-forms')
    ctx.check(ctx.And(*[ctx.same_text(a, b) for a, b in zip(word.forms, once)]), 'second-time-changes-nothing')
    ctx.observe('forms', once[:6])


def some(ctx, kind, most, missing):
    """At most `most` slots are given (or missing)."""
    size = c.SIZES[kind.name]
    odd = [ctx.bool('odd%d' % i) for i in range(size)]
    left = most
    given = []
    for o in odd:
        value = False
        if left:
            if o:
                value = True
                left -= 1
        else:
            ctx.assume(ctx.Not(o))
        given.append(value != missing)
    run(ctx, kind, given, [mark(i) for i in range(size)])


def grouped(ctx, kind, relations):
    """A slot is given when all its features belong to the chosen ones: whole cases, numbers, tenses missing."""
    allowed = {}
    for relation in relations:
        for record in relation.records:
            allowed[record] = ctx.bool('%s.%s' % (relation.__name__, record.name))
    blank = ctx.bool('blank')
    given = []
    for key in c.KEYS[kind.name]:
        good = True
        for relation, value in zip(c.SCHEMAS[kind.name], key):
            if relation in relations:
                if value is None:
                    good = good and bool(blank)
                elif good:
                    good = bool(allowed[value])
        given.append(good)
    run(ctx, kind, given, [mark(i) for i in range(c.SIZES[kind.name])])


def texts(ctx, kind, length):
    """Arbitrary texts; an empty one is a missing form, equal ones stay apart."""
    forms = [ctx.string('f%d' % i, 0, length, c.EVERY) for i in range(c.SIZES[kind.name])]
    given = [f != '' for f in forms]
    run(ctx, kind, given, forms)


def large(ctx, kind, length, step):
    """Long texts, told apart only at their ends."""
    size = c.SIZES[kind.name]
    first, last = ctx.choose('first', list(range(0, size, step))), ctx.choose('last', [0, size // 3, size - 1])
    given = [i == first or i == last for i in range(size)]
    run(ctx, kind, given, ['длинный ' * length + mark(i) for i in range(size)])


def used(ctx, kind, positions):
    """What is displayed afterwards for any request."""
    size = c.SIZES[kind.name]
    forms = [''] * size
    at = ctx.choose('at', positions)
    text = ctx.string('text', 1, 2, c.EVERY)
    forms[at] = text
    word = words.Word(type=kind, forms=forms)
    word.autofill_missed_forms()
    asked = c.properties(ctx, 'asked', [], c.SCHEMAS[kind.name])
    ctx.check(ctx.same_text(word.form(asked), text), 'only-given-form-everywhere')
    ctx.observe('form', word.form(asked))


def two(ctx, kind):
    """Filling one word leaves another one alone."""
    size = c.SIZES[kind.name]
    a = [mark(0)] + [''] * (size - 1)
    b = [''] * (size - 1) + ['y']
    first = words.Word(type=kind, forms=a)
    second = words.Word(type=kind, forms=b)
    order = ctx.choose('order', 2)
    (first if order == 0 else second).autofill_missed_forms()
    ctx.check(ctx.same_text((second if order == 0 else first).forms[1], ''), 'other-word-kept')
    (second if order == 0 else first).autofill_missed_forms()
    i = ctx.int('i', 0, size - 1)
    ctx.check(ctx.same_text(first.forms[i], mark(0)), 'first')
    ctx.check(ctx.same_text(second.forms[i], 'y'), 'second')
    ctx.observe('first', first.forms[i])


def SCENARIOS(tier):
    deep = tier == 'thorough'
    W = r.WORD_TYPE
    out = []
    given = {'NOUN': (3, 4), 'ADJECTIVE': (1, 2), 'PRONOUN': (1, 2), 'VERB': (3, 4), 'PARTICIPLE': (1, 2), 'PREPOSITION': (3, 3), 'TEXT': (1, 1), 'INTEGER': (1, 1)}
    missing = {'NOUN': (2, 3), 'ADJECTIVE': (1, 1), 'PRONOUN': (1, 2), 'VERB': (2, 3), 'PARTICIPLE': (1, 1)}
    for t in W.records:
        k = given[t.name][deep]
        out.append(Scenario('given-' + t.name, some, 'every pattern with at most %d of %d forms given' % (k, c.SIZES[t.name]), dict(kind=t, most=k, missing=False)))
        if t.name in missing:
            k = missing[t.name][deep]
            out.append(Scenario('missing-' + t.name, some, 'every pattern with at most %d of %d forms missing' % (k, c.SIZES[t.name]), dict(kind=t, most=k, missing=True)))
    out.append(Scenario('grouped-NOUN', grouped, 'given forms: every set of noun forms, numbers and cases', dict(kind=W.NOUN, relations=[r.NOUN_FORM, r.NUMBER, r.CASE])))
    out.append(Scenario('grouped-VERB', grouped, 'given forms: every set of verb forms, tenses and numbers', dict(kind=W.VERB, relations=[r.VERB_FORM, r.TIME, r.NUMBER])))
    out.append(Scenario('grouped-PRONOUN', grouped, 'given forms: every set of numbers, genders and animacy', dict(kind=W.PRONOUN, relations=[r.ANIMALITY, r.NUMBER, r.GENDER])))
    out.append(Scenario('grouped-ADJECTIVE', grouped, 'given forms: every set of adjective forms, grades and numbers', dict(kind=W.ADJECTIVE, relations=[r.ADJECTIVE_FORM, r.GRADE, r.NUMBER] if deep else [r.ADJECTIVE_FORM, r.NUMBER])))
    out.append(Scenario('grouped-PARTICIPLE', grouped, 'given forms: every set of participle forms, tenses and numbers', dict(kind=W.PARTICIPLE, relations=[r.PARTICIPLE_FORM, r.TIME, r.NUMBER] if deep else [r.PARTICIPLE_FORM, r.NUMBER])))
    out.append(Scenario('texts', texts, 'every three texts of up to %d characters' % (3 if deep else 2), dict(kind=W.PREPOSITION, length=3 if deep else 2)))
    for t in (W.NOUN, W.VERB, W.ADJECTIVE, W.PRONOUN, W.PARTICIPLE):
        size = c.SIZES[t.name]
        positions = list(range(size)) if deep or size < 25 else [0, 1, size // 2, size - 1]
        out.append(Scenario('used-' + t.name, used, 'one given form at %d positions, every request' % len(positions), dict(kind=t, positions=positions)))
        out.append(Scenario('large-' + t.name, large, 'one of %d forms and one of three given, of more than 300 characters' % len(range(0, size, 1 if deep else size // 9)), dict(kind=t, length=40, step=1 if deep else size // 9)))
        out.append(Scenario('two-' + t.name, two, 'two words, both orders', dict(kind=t)))
    return out
