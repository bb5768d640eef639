# Migrations of stored words.
import importlib

from sx.scenario import Scenario

from utg import relations as r
from utg import words

from props import common as c
from props import oldlayouts

W = r.WORD_TYPE
NAMES = {1: 'm_0001_include_short_forms_in_full', 2: 'm_0002_countable_noun_form', 3: 'm_0003_change_verb_forms', 4: 'm_0004_new_preposition_form',
         5: 'm_0005_remove_time_participle_property', 6: 'm_0006_per_word_type_restrictions', 7: 'm_0007_reduce_words_forms',
         8: 'm_0008_lower_animiality_nearest_priority', 9: 'm_0009_pronoun_modernization'}
MODULES, ERRORS = {}, {}


def module(n):
    if n not in MODULES and n not in ERRORS:
        try:
            MODULES[n] = importlib.import_module('utg.migrations.' + NAMES[n])
        except Exception as e:
            ERRORS[n] = type(e).__name__
    return MODULES.get(n)


for _n in NAMES:
    module(_n)


def loads(ctx, n):
    ctx.check(n not in ERRORS, 'loads')


def texts_of(ctx, size, filled, length, used=None):
    texts = ['x%03d' % i for i in range(size)]
    for i in filled:
        texts[i] = ctx.string('f%d' % i, 0, length, 'аяЁ')
    return texts


def own_features(ctx, groups):
    return words.Properties(*[ctx.record('own.%s' % g.__name__, g, none=True) for g in groups])


def verdict(ctx, n, kind, texts, after, label):
    old, new = oldlayouts.LAYOUTS[n][kind.name], oldlayouts.LAYOUTS[n + 1][kind.name]
    ctx.check(len(after) == len(new), label + '-number-of-forms')
    for j, sources in enumerate(oldlayouts.sources(kind.name, old, new)):
        ctx.check(ctx.Or(*[ctx.same_text(after[j], texts[i]) for i in sources]), label + '-slot')


def step(ctx, n, kind, filled, groups):
    size = len(oldlayouts.LAYOUTS[n][kind.name])
    texts = texts_of(ctx, size, filled, 1)
    own = own_features(ctx, groups)
    stored = {'type': kind.value, 'forms': list(texts), 'properties': ctx.json_roundtrip(own.serialize())}
    after = module(n).migrate(stored)
    verdict(ctx, n, kind, texts, after['forms'], 'migrated')
    ctx.check(ctx.Eq(after['type'], kind.value), 'type-kept')
    again = words.Properties.deserialize(after['properties'])
    ctx.check(ctx.Eq(again, own), 'own-features-kept')
    ctx.check(len(after) == 3, 'nothing-added')
    ctx.observe('first', after['forms'][0])
    ctx.observe('last', after['forms'][-1])


def any_slot(ctx, n, kind):
    """The slot of any index, with symbolic index."""
    old, new = oldlayouts.LAYOUTS[n][kind.name], oldlayouts.LAYOUTS[n + 1][kind.name]
    texts = ['x%03d' % i for i in range(len(old))]
    j = ctx.int('slot', 0, len(new) - 1)
    after = module(n).migrate({'type': kind.value, 'forms': list(texts), 'properties': {}})['forms']
    ctx.check(len(after) == len(new), 'number-of-forms')
    shown = after[j]
    for i, sources in enumerate(oldlayouts.sources(kind.name, old, new)):
        ctx.check(ctx.Implies(ctx.Eq(j, i), ctx.Or(*[ctx.same_text(shown, texts[s]) for s in sources])), 'slot')
    ctx.observe('shown', shown)


def chain(ctx, kind, first):
    """From an old layout to the current one: the word shows the old texts for the same features."""
    layout = oldlayouts.LAYOUTS[first][kind.name]
    texts = ['x%03d' % i for i in range(len(layout))]
    stored = {'type': kind.value, 'forms': list(texts), 'properties': {}}
    for n in range(first, 10):
        stored = module(n).migrate(ctx.json_roundtrip(stored))
    word = words.Word.deserialize(ctx.json_roundtrip(stored))
    values = {rel: ctx.record('asked.%s' % rel.__name__, rel) for rel in c.SCHEMAS[kind.name]}
    shown = word.form(words.Properties(*values.values()))
    for i, slot in enumerate(layout):
        if slot is None:
            continue
        wanted = slot
        if kind == W.PRONOUN:
            if slot[r.PERSON] != r.PERSON.THIRD:
                continue
            wanted = {k: x for k, x in slot.items() if k is not r.PERSON}
        if kind == W.ADJECTIVE and slot.get(r.GRADE) == r.GRADE.COMPARATIVE:
            continue  # one slot now stands for all of them, checked below
        if kind == W.VERB and i > 16 and slot not in oldlayouts.LAYOUTS[10]['VERB']:
            continue  # an imperative the current layout does not have
        here = ctx.And(*[ctx.Eq(values[rel], x) for rel, x in wanted.items() if rel in values])
        ctx.check(ctx.Implies(here, ctx.same_text(shown, texts[i])), 'same-text-for-same-features')
    if kind == W.ADJECTIVE:
        here = ctx.And(ctx.Eq(values[r.ADJECTIVE_FORM], r.ADJECTIVE_FORM.FULL), ctx.Eq(values[r.GRADE], r.GRADE.COMPARATIVE))
        ctx.check(ctx.Implies(here, ctx.Or(*[ctx.same_text(shown, texts[i]) for i, slot in enumerate(layout) if slot.get(r.GRADE) == r.GRADE.COMPARATIVE])), 'comparative')
    ctx.observe('shown', shown)


def twice(ctx, n, kind):
    """Migrating one word does not affect another."""
    size = len(oldlayouts.LAYOUTS[n][kind.name])
    for tag in ('a', 'b'):
        texts = ['%s%03d' % (tag, i) for i in range(size)]
        k = ctx.int(tag, 0, size - 1)
        after = module(n).migrate({'type': kind.value, 'forms': list(texts), 'properties': {}})['forms']
        verdict(ctx, n, kind, texts, after, tag)
        ctx.check(ctx.Or(*[ctx.Eq(k, i) for i in range(size)]), tag + '-any')


def countable(ctx, patched):
    """m_0002: nouns get countable forms, those of the patch or the plural ones."""
    n = 12
    kind = ctx.int('type', 0, 12)
    texts = texts_of(ctx, n, [0, 6, 11] if not patched else [6], 1)
    patch = [ctx.string('y%d' % i, 0, 1, 'аЁ') if i in (0, 5) else 'y%d' % i for i in range(6)]
    stored = {'type': kind, 'forms': list(texts), 'properties': {}, 'patches': {7: {'forms': list(patch)}} if patched else {}}
    after = module(2).migrate(stored)['forms']
    noun = kind == 0
    ctx.check(ctx.Eq(len(after), ctx.If(noun, 18, 12)), 'number-of-forms')
    for i in range(12):
        ctx.check(ctx.same_text(after[i], texts[i]), 'given-forms-kept')
    for i in range(12, len(after)):
        ctx.check(ctx.same_text(after[i], patch[i - 12] if patched else texts[i - 6]), 'countable-forms')
    ctx.observe('number', len(after))


def special(ctx):
    """m_0004: prepositions get a special form, a copy of the alternative one."""
    kind = ctx.int('type', 0, 12)
    texts = texts_of(ctx, 2, [0, 1], 2)
    after = module(4).migrate({'type': kind, 'forms': list(texts), 'properties': {}})['forms']
    ctx.check(ctx.Eq(len(after), ctx.If(kind == 10, 3, 2)), 'number-of-forms')
    for i in range(len(after)):
        ctx.check(ctx.same_text(after[i], texts[min(i, 1)]), 'form')


def untimed(ctx):
    """m_0005: participles lose their own time, everything else stays."""
    kind = ctx.int('type', 0, 12)
    texts = texts_of(ctx, 2, [0, 1], 1)
    own = own_features(ctx, [r.TIME, r.ASPECT, r.VOICE])
    stored = {'type': kind, 'forms': list(texts), 'properties': ctx.json_roundtrip(own.serialize())}
    number = str(r.PROPERTY_TYPE.TIME.value)
    has = number in stored['properties']
    after = module(5).migrate(stored)
    ctx.check(len(after['forms']) == 2 and ctx.And(*[ctx.same_text(a, b) for a, b in zip(after['forms'], texts)]), 'forms-kept')
    left = words.Properties.deserialize(after['properties'])
    ctx.check(ctx.Iff(left.is_specified(r.TIME), ctx.And(has, ctx.Not(kind == 4))), 'time')
    for g in (r.ASPECT, r.VOICE):
        ctx.check(ctx.And(ctx.Iff(left.is_specified(g), own.is_specified(g)), ctx.Eq(left.get(g), own.get(g))), 'others-kept')
    ctx.observe('left', left.manhattan_distance())


def first(ctx):
    """m_0001: full forms of adjectives keep their features when short forms are added."""
    texts = ['x%03d' % i for i in range(144)]
    slot = ctx.int('slot', 0, 143)
    after = module(1).migrate({'type': W.ADJECTIVE.value, 'forms': list(texts), 'properties': {}})['forms']
    for i, old in enumerate(oldlayouts.number_case_gender(r.ANIMALITY, r.GRADE)):
        for j, s in enumerate(oldlayouts.LAYOUTS[10]['ADJECTIVE']):
            if s == old | {r.ADJECTIVE_FORM: r.ADJECTIVE_FORM.FULL}:
                ctx.check(ctx.Implies(ctx.Eq(slot, i), ctx.same_text(after[j], texts[i])), 'slot-kept')


def older(ctx, n, kind, most):
    """m_0001 and m_0005 leave other parts of speech alone."""
    number = ctx.int('type', 0, 12)
    ctx.assume(ctx.And(*[ctx.Not(ctx.Eq(number, k)) for k in kind]))
    texts = texts_of(ctx, 3, [0, 1, 2], 1)
    own = own_features(ctx, [r.TIME, r.ASPECT])
    stored = {'type': number, 'forms': list(texts), 'properties': own.serialize()}
    after = module(n).migrate(stored)
    ctx.check(len(after['forms']) == 3 and ctx.And(*[ctx.same_text(a, b) for a, b in zip(after['forms'], texts)]), 'forms-kept')
    ctx.check(ctx.Eq(words.Properties.deserialize(after['properties']), own), 'features-kept')


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []
    for n in NAMES:
        out.append(Scenario('loads-m_%04d' % n, loads, 'the migration can be imported', dict(n=n)))
    for n in (7, 8, 9):
        if n in ERRORS:
            continue
        for kind in W.records:
            size = len(oldlayouts.LAYOUTS[n][kind.name])
            sets = [[0, size // 2, size - 1]]
            if deep:
                sets += [[size // 3, size // 5, size // 7], [size // 4 * 3, size // 6 * 5, size - 2]]
            for filled in sets:
                filled = sorted(set(i for i in filled if 0 <= i < size))
                out.append(Scenario('m_%04d-%s-%s' % (n, kind.name, '-'.join(map(str, filled))), step, 'every text of up to one letter in forms %s, own aspect and number given or not' % filled,
                                    dict(n=n, kind=kind, filled=filled, groups=[r.ASPECT, r.NUMBER])))
            out.append(Scenario('m_%04d-%s-slots' % (n, kind.name), any_slot, 'every slot of the new layout', dict(n=n, kind=kind)))
            if n == 7 or deep:
                out.append(Scenario('chain-%d-%s' % (n, kind.name), chain, 'every request for a word stored before migration %d' % n, dict(kind=kind, first=n)))
            if deep:
                out.append(Scenario('m_%04d-%s-twice' % (n, kind.name), twice, 'two words', dict(n=n, kind=kind)))
    if 2 not in ERRORS:
        out.append(Scenario('m_0002-patched', countable, 'every part of speech, texts of up to one letter, with a patch', dict(patched=True)))
        out.append(Scenario('m_0002-plain', countable, 'every part of speech, texts of up to one letter, without a patch', dict(patched=False)))
    if 4 not in ERRORS:
        out.append(Scenario('m_0004', special, 'every part of speech, texts of up to 2 letters', {}))
    if 5 not in ERRORS:
        out.append(Scenario('m_0005', untimed, 'every part of speech, own time, aspect and voice given or not', {}))
    if 1 not in ERRORS:
        out.append(Scenario('first-ADJECTIVE', first, 'every slot', {}))
        out.append(Scenario('first-others', older, 'every other part of speech', dict(n=1, kind=[1, 4], most=3)))
    return out
