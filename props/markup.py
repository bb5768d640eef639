# Reference reading of the template format, from the package documentation.
from utg import relations as r
from utg import words

from props import common as c

NAMES = {record.verbose_id: record for relation in c.ALL for record in relation.records}


class Problem(object):
    def __init__(self, kind, text):
        self.kind = kind
        self.text = text


def scan(text):
    """[(is variable, text)]: a variable runs from a bracket to the next closing one and is not empty."""
    out = []
    plain = ''
    i = 0
    while i < len(text):
        if text[i] == '[':
            j = i + 1
            while j < len(text) and text[j] != ']':
                j += 1
            if j < len(text) and j > i + 1:
                out.append((False, plain))
                plain = ''
                out.append((True, text[i + 1:j]))
                i = j + 1
                continue
        plain = plain + text[i]
        i += 1
    out.append((False, plain))
    return out


def pieces(text, separator):
    out = []
    current = ''
    for char in text:
        if char == separator:
            out.append(current)
            current = ''
        else:
            current = current + char
    out.append(current)
    return out


class Variable(object):
    """A name, whether it is capitalised, and its parts in order: external names and lists of features."""

    def __init__(self, name, upper, parts):
        self.name = name
        self.upper = upper
        self.parts = parts

    def features(self, values):
        """Features in order of writing; `values` gives those of an external."""
        out = []
        for kind, value in self.parts:
            out.extend(values(value) if kind == 'external' else value)
        if self.upper:
            out.append(r.WORD_CASE.UPPER)
        return out


def read(content, externals):
    """A Variable, or the Problem with it."""
    parts = pieces(content, '|')
    name = parts[0].strip()
    if name == '':
        return Problem('format', content)
    out = []
    for part in parts[1:]:
        part = part.lower().strip()
        external = False
        for e in externals:
            if part == e:
                external = True
        if external:
            out.append(('external', part))
            continue
        features = []
        for piece in pieces(part, ','):
            piece = piece.strip()
            if piece == '':
                continue
            found = None
            for known in NAMES:
                if len(known) == len(piece) and piece == known:
                    found = NAMES[known]
                    break
            if found is None:
                return Problem('unknown', piece)
            features.append(found)
        out.append(('features', features))
    return Variable(name.lower(), name[0].isupper(), out)


def parse(text, externals):
    """([literal texts], [variables]) or a Problem."""
    literals, variables = [], []
    for variable, part in scan(text):
        if variable:
            v = read(part, externals)
            if isinstance(v, Problem):
                return v
            variables.append(v)
        else:
            literals.append(part)
    return literals, variables


class Echo(object):
    """A dictionary that knows every word: the text shows which one was asked for."""

    def has_word(self, text):
        return True

    def get_word(self, text):
        return words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=['<' + text + '>']))


def echo(text):
    return words.WordForm(words.Word(type=r.WORD_TYPE.TEXT, forms=['{' + text + '}']))


def normal_parts(dependencies):
    """Stored parts of a variable as a list of external names and feature sets, empty sets dropped and neighbours joined."""
    out = []
    for d in dependencies:
        if isinstance(d, str):
            out.append(d)
            continue
        p = words.Properties.deserialize(d)
        if out and isinstance(out[-1], words.Properties):
            out[-1] = out[-1].clone(p)
        else:
            out.append(p)
    return [d for d in out if isinstance(d, str) or any(d.is_specified(relation) for relation in c.ALL)]


def expected_parts(variable):
    out = []
    for kind, value in variable.parts + ([('features', [r.WORD_CASE.UPPER])] if variable.upper else []):
        if kind == 'external':
            out.append(value)
        elif out and isinstance(out[-1], words.Properties):
            out[-1] = words.Properties(out[-1], *value)
        else:
            out.append(words.Properties(*value))
    return [d for d in out if isinstance(d, str) or any(d.is_specified(relation) for relation in c.ALL)]
