# The slots of stored words before and after each migration, written down from the descriptions of the layouts.
# A slot is {group: value}; None marks a position that no slot uses any more.
from utg import relations as r

from props import common as c

S, P = r.NUMBER.SINGULAR, r.NUMBER.PLURAL
N, C, G, A = r.NUMBER, r.CASE, r.GENDER, r.ANIMALITY


def current(name):
    return [{rel: k for rel, k in zip(c.SCHEMAS[name], key) if k is not None} for key in c.KEYS[name]]


def number_case_gender(*last):
    """(number, case, gender of the singular, then the given groups) from outer to inner."""
    out = []
    for n in N.records:
        for case in C.records:
            for g in G.records if n == S else [None]:
                slots = [{N: n, C: case}]
                if g is not None:
                    slots[0][G] = g
                for group in last:
                    slots = [s | {group: x} for s in slots for x in group.records]
                out += slots
    return out


def extend(slots, values):
    return [values | s for s in slots]


def short(form):
    return [{form._relation: form, N: S, G: g} for g in G.records] + [{form._relation: form, N: P}]


def before_7():
    full = r.ADJECTIVE_FORM.FULL
    participle = []
    for t in r.TIME.records:
        participle += [None] * 48  # a voice that is not kept
        participle += extend(number_case_gender(A), {r.PARTICIPLE_FORM: r.PARTICIPLE_FORM.FULL, r.TIME: t})
    verb = current('VERB')[:17] + [None] * 4
    imp = r.VERB_FORM.IMPERATIVE
    verb += [{r.VERB_FORM: imp, N: n, r.PERSON: p} for n in N.records for p in r.PERSON.records]
    return {'NOUN': current('NOUN'),
            'ADJECTIVE': extend(number_case_gender(A, r.GRADE), {r.ADJECTIVE_FORM: full}) + short(r.ADJECTIVE_FORM.SHORT),
            'PRONOUN': [s for s in pronouns()],
            'VERB': verb,
            'PARTICIPLE': participle + short(r.PARTICIPLE_FORM.SHORT),
            'INTEGER': [{}], 'TEXT': [{}], 'PREPOSITION': current('PREPOSITION')}


def pronouns():
    out = []
    for n in N.records:
        for case in C.records:
            for p in r.PERSON.records:
                for g in G.records if n == S else [None]:
                    slot = {N: n, C: case, r.PERSON: p}
                    if g is not None:
                        slot[G] = g
                    out.append(slot)
    return out


def before_8():
    full = r.ADJECTIVE_FORM.FULL
    adjective = []
    for grade in r.GRADE.records:
        if grade == r.GRADE.COMPARATIVE:
            adjective.append({r.ADJECTIVE_FORM: full, r.GRADE: grade})
        else:
            adjective += extend(number_case_gender(A), {r.ADJECTIVE_FORM: full, r.GRADE: grade})
    participle = []
    for t in r.TIME.records:
        participle += extend(number_case_gender(A), {r.PARTICIPLE_FORM: r.PARTICIPLE_FORM.FULL, r.TIME: t})
    out = before_7()
    out['ADJECTIVE'] = adjective + short(r.ADJECTIVE_FORM.SHORT)
    out['PARTICIPLE'] = participle + short(r.PARTICIPLE_FORM.SHORT)
    out['VERB'] = current('VERB')
    return out


def before_9():
    out = {name: current(name) for name in c.SIZES}
    out['PRONOUN'] = pronouns()
    return out


def after_9():
    return {name: current(name) for name in c.SIZES}


LAYOUTS = {7: before_7(), 8: before_8(), 9: before_9(), 10: after_9()}


def sources(name, old, new):
    """For each slot of the new layout, the old positions its text may come from."""
    out = []
    for slot in new:
        exact = [i for i, s in enumerate(old) if s == slot]
        if exact:
            out.append(exact)
            continue
        if name == 'PRONOUN':  # the person became a feature of the word: the forms kept are those of the third person
            wanted = {k: x for k, x in slot.items() if k is not A}
            wanted[r.PERSON] = r.PERSON.THIRD
            out.append([i for i, s in enumerate(old) if s == wanted])
            continue
        out.append([i for i, s in enumerate(old) if s is not None and all(s.get(k) == x for k, x in slot.items())])
    assert all(out), name
    return out
