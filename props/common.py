# Shared builders of inputs.  Everything here is plain data about the language, independent of the code under test.
from utg import relations as r
from utg import words

from props import published


def values(relation):
    """The values of a group in their published order, the default one first."""
    return [getattr(relation, name) for name in published.GROUPS[relation.__name__][1]]


ALL = [r.CASE, r.ANIMALITY, r.NUMBER, r.GENDER, r.VERB_FORM, r.VOICE, r.TIME, r.PERSON, r.ASPECT, r.ADJECTIVE_CATEGORY, r.GRADE,
       r.PRONOUN_CATEGORY, r.INTEGER_FORM, r.NOUN_FORM, r.ADJECTIVE_FORM, r.PARTICIPLE_FORM, r.WORD_CASE, r.DEPENDENCY_MODE,
       r.PREPOSITION_FORM, r.WORD_TYPE]

SIZES = {'NOUN': 18, 'ADJECTIVE': 101, 'PRONOUN': 48, 'VERB': 20, 'PARTICIPLE': 148, 'INTEGER': 1, 'TEXT': 1, 'PREPOSITION': 3}

SCHEMAS = {'NOUN': [r.NOUN_FORM, r.NUMBER, r.CASE],
           'ADJECTIVE': [r.ADJECTIVE_FORM, r.GRADE, r.ANIMALITY, r.NUMBER, r.CASE, r.GENDER],
           'PRONOUN': [r.ANIMALITY, r.NUMBER, r.CASE, r.GENDER],
           'VERB': [r.VERB_FORM, r.TIME, r.NUMBER, r.PERSON, r.GENDER],
           'PARTICIPLE': [r.PARTICIPLE_FORM, r.TIME, r.ANIMALITY, r.NUMBER, r.CASE, r.GENDER],
           'INTEGER': [], 'TEXT': [], 'PREPOSITION': [r.PREPOSITION_FORM]}

VOWELS = 'аеёиоуыэюяАЕЁИОУЫЭЮЯ'
CONSONANTS = 'бвгджзйклмнпрстфхцчшщъьБВГДЖЗЙКЛМНПРСТФХЦЧШЩЪЬ'
PLAIN_VOWELS = 'аиоуыэАИОУЫЭ'
LETTERS = VOWELS + CONSONANTS
# every character the encoding of texts covers: ASCII, Cyrillic and some signs used in texts
# letters whose capital is two letters or depends on the neighbours, compatibility forms, combining ones, outside the basic plane
ODD = ['ß', 'İ', 'ı', 'ſ', 'ǆ', 'ǅ', 'ŉ', 'ς', 'Σ', 'αΣ', 'ﬁ', 'Ⅷ', 'ⓐ', 'е\u0308', 'и\u0306', 'é', 'é', 'ѣ', 'Ѣ', '中', '٣', '²', '½', '\U0001f600', '\U00010400', '\u3000', '\u2060']
EVERY = ''.join(chr(i) for i in [*range(128), 0x85, 0xA0, 0xAB, 0xAD, 0xBB, 0x301, 0x306, 0x308, *range(0x400, 0x460), 0x200B, 0x2011, 0x2013, 0x2014, 0x2019, 0x2026, 0x2028, 0x2212, 0xFEFF])


def default(relation):
    return None if relation is r.WORD_TYPE else values(relation)[0]


def properties(ctx, prefix, relations, optional=()):
    """Arbitrary values of the given groups; those in `optional` may also be left out."""
    out = []
    for relation in relations:
        out.append(ctx.record('%s.%s' % (prefix, relation.__name__), relation))
    for relation in optional:
        out.append(ctx.record('%s.%s' % (prefix, relation.__name__), relation, none=True))
    return words.Properties(*out)


def marked_forms(word_type, tag):
    """One distinct form per slot, so that the text shows which slot was used."""
    return ['%s%d' % (tag, i) for i in range(SIZES[word_type.name])]


def marked(word_type, tag, props=None):
    return words.Word(type=word_type, forms=marked_forms(word_type, tag), properties=props if props is not None else words.Properties())


def slot(word_type, values):
    """Index of the slot for concrete feature values, from the written layout (None if there is no such slot)."""
    return LAYOUT[word_type.name].get(tuple(values))


def _layout():
    S, P = r.NUMBER.SINGULAR, r.NUMBER.PLURAL
    out = {}
    out['NOUN'] = [(f, n, c) for f in values(r.NOUN_FORM) for n in values(r.NUMBER) for c in values(r.CASE)
                   if not (f == r.NOUN_FORM.COUNTABLE and n == S)]
    adj = []
    for f in values(r.ADJECTIVE_FORM):
        if f == r.ADJECTIVE_FORM.SHORT:
            adj += [(f, None, None, S, None, g) for g in values(r.GENDER)] + [(f, None, None, P, None, None)]
            continue
        for grade in values(r.GRADE):
            if grade == r.GRADE.COMPARATIVE:
                adj.append((f, grade, None, None, None, None))
                continue
            for a in values(r.ANIMALITY):
                adj += [(f, grade, a, S, c, g) for c in values(r.CASE) for g in values(r.GENDER)]
                adj += [(f, grade, a, P, c, None) for c in values(r.CASE)]
    out['ADJECTIVE'] = adj
    pron = []
    for a in values(r.ANIMALITY):
        pron += [(a, S, c, g) for c in values(r.CASE) for g in values(r.GENDER)]
        pron += [(a, P, c, None) for c in values(r.CASE)]
    out['PRONOUN'] = pron
    verb = [(r.VERB_FORM.INFINITIVE, None, None, None, None)]
    ind = r.VERB_FORM.INDICATIVE
    verb += [(ind, r.TIME.PAST, S, None, g) for g in values(r.GENDER)] + [(ind, r.TIME.PAST, P, None, None)]
    for t in (r.TIME.PRESENT, r.TIME.FUTURE):
        verb += [(ind, t, n, p, None) for n in (S, P) for p in values(r.PERSON)]
    imp = r.VERB_FORM.IMPERATIVE
    verb += [(imp, None, S, r.PERSON.SECOND, None), (imp, None, P, r.PERSON.FIRST, None), (imp, None, P, r.PERSON.SECOND, None)]
    out['VERB'] = verb
    part = []
    full = r.PARTICIPLE_FORM.FULL
    for t in values(r.TIME):
        for a in values(r.ANIMALITY):
            part += [(full, t, a, S, c, g) for c in values(r.CASE) for g in values(r.GENDER)]
            part += [(full, t, a, P, c, None) for c in values(r.CASE)]
    short = r.PARTICIPLE_FORM.SHORT
    part += [(short, None, None, S, None, g) for g in values(r.GENDER)] + [(short, None, None, P, None, None)]
    out['PARTICIPLE'] = part
    out['INTEGER'] = [()]
    out['TEXT'] = [()]
    out['PREPOSITION'] = [(f,) for f in values(r.PREPOSITION_FORM)]
    return out


KEYS = _layout()
LAYOUT = {name: {key: i for i, key in enumerate(keys)} for name, keys in KEYS.items()}
