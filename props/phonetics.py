# Reference for the sound facts, written from the grammar notes; works on plain and on symbolic text.
from props import common as c

VOWELS = set(c.VOWELS)
CONSONANTS = set(c.CONSONANTS)
PLAIN_VOWELS = set(c.PLAIN_VOWELS)


def vowels_of(text):
    out = []
    for ch in text:
        if ch in VOWELS:
            out.append(ch)
    return out


def syllables(text):
    return max(1, len(vowels_of(text)))


def starts_with(ctx, full, head):
    if len(head) > len(full):
        return False
    return ctx.And(*[ctx.Eq(full[i], head[i]) for i in range(len(head))])


def fluent(ctx, forms):
    base = vowels_of(forms[0])
    different = []
    for form in forms[1:]:
        if form == '':
            continue
        different.append(ctx.Not(starts_with(ctx, vowels_of(form), base)))
    return ctx.Or(*different)


def cluster(form):
    if form == '':
        return False
    if form[0] not in CONSONANTS:
        return False
    if len(form) == 1:
        return True
    return form[1] in CONSONANTS
