# Reference view of the forms a word brings to a dictionary.
from utg import relations as r
from utg import words

from props import common as c
from props import c07


class Entry(object):
    """One displayed form: the word, the slot, its features and its text."""

    def __init__(self, word, kind, forms, features, text, order):
        self.word = word
        self.kind = kind
        self.forms = forms
        self.features = features  # {group: value}
        self.text = text
        self.order = order


def shown_slot(kind, key, own):
    """Slot displayed for a slot's own key when the word's features take over (several if equally close)."""
    schema = c.SCHEMAS[kind.name]
    raw = tuple(own[rel] if rel in own else (k if k is not None else c.default(rel)) for rel, k in zip(schema, key))
    for i, k in enumerate(c.KEYS[kind.name]):
        if all(a is None or a == b for a, b in zip(k, raw)):
            return [i]
    return c07.closest(kind, raw)


_SHOWN = {}


def shown_slots(kind, own):
    fixed = {rel: own[rel] for rel in c.SCHEMAS[kind.name] if rel in own}
    name = (kind.name, tuple(sorted((rel.__name__, x.name) for rel, x in fixed.items())))
    if name not in _SHOWN:
        _SHOWN[name] = [shown_slot(kind, key, fixed) for key in c.KEYS[kind.name]]
    return _SHOWN[name]


def entries(word, kind, forms, own, order=0):
    """own: {group: value}; values of slot features and WORD_CASE must be known, others may be symbolic."""
    out = []
    schema = c.SCHEMAS[kind.name]
    for i, (key, slots) in enumerate(zip(c.KEYS[kind.name], shown_slots(kind, own))):
        assert len(slots) == 1
        text = forms[slots[0]]
        features = {rel: k for rel, k in zip(schema, key) if k is not None}
        features.update(own)
        if own.get(r.WORD_CASE) == r.WORD_CASE.UPPER and text != '':
            text = text[0].upper() + text[1:]
        out.append(Entry(word, kind, forms, features, text, order + i))
    return out


def build(kind, forms, own):
    return words.Word(type=kind, forms=list(forms), properties=words.Properties(*own.values()))
