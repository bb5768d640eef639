# The encoding against CPython: every operation is executed symbolically and on models of each path by the interpreter itself
# (tools/selftest.py compares what is observed).  Not a check of utg.
import bisect
import collections
import contextlib
import copy
import dataclasses
import enum
import functools
import itertools
import json
import math
import operator
import re
import unicodedata

from sx.scenario import Scenario

from utg import relations as r
from utg import words

A = 'аБ ,%[]|ё\n1'

OPS = [
    ('slices', lambda s: [s[:1], s[1:], s[-1:], s[:-1], s[::2], s[::-1], s[1:3]]),
    ('case', lambda s: [s.lower(), s.upper(), s.capitalize(), s.title(), s.swapcase()]),
    ('unusual', lambda s: [('ß' + s).upper(), ('ŉ' + s).capitalize(), ('ǆ' + s).title(), (s + 'ﬁ').swapcase(), ('ß' + s).casefold(), ('İ' + s).lower(), (s + 'ß').title()]),
    ('classes', lambda s: [s.isupper(), s.islower(), s.isspace(), s.isdigit(), s.isalpha(), s.isalnum()]),
    ('strip', lambda s: [s.strip(), s.lstrip(), s.rstrip(), s.strip('а,'), s.strip('[]')]),
    ('split', lambda s: [s.split('|'), s.split(','), s.split(), s.split('|', 1), s.rsplit(',', 1)]),
    ('splitlines', lambda s: [s.splitlines(), s.splitlines(True)]),
    ('partition', lambda s: [list(s.partition('|')), list(s.rpartition(','))]),
    ('replace', lambda s: [s.replace('%', '%%'), s.replace('а', ''), s.replace('%', '', 1), s.replace('аБ', '|')]),
    ('find', lambda s: [s.find('|'), s.rfind(','), s.find('а', 1), s.count('%'), s.count('аа'), s.find('')]),
    ('starts', lambda s: [s.startswith('а'), s.startswith(('Б', '1')), s.endswith('%'), s.endswith(('а', ' '))]),
    ('contains', lambda s: ['а' in s, 'Б|' in s, s in ('а', 'аБ', ''), s in 'аБ,%', s[:1] in set('аё')]),
    ('compare', lambda s: [s < 'Б', s <= 'аа', s > '', s >= 'ё', s == 'аБ', s != 'а']),
    ('build', lambda s: [s + s, '-' + s + '!', s * 2, '%s:%s' % (s, s), '{}{}'.format(s, '.'), f'<{s}>', '|'.join([s, s])]),
    ('join', lambda s: [''.join(x for x in s if x in 'аё'), ''.join(sorted(s)), len(s), list(s), '-'.join(s)]),
    ('pad', lambda s: [s.ljust(3, '.'), s.rjust(3), s.center(4, '*'), s.zfill(3)]),
    ('variables', lambda s: [re.compile(r'\[[^\]]+\]').findall(s), re.compile(r'\[[^\]]+\]').sub('%s', s.replace('%', '%%'))]),
    ('patterns', lambda s: [re.findall(r'[аБ]+', s), re.split(r'[|,]', s), re.sub(r'\s+', ' ', s), bool(re.match(r'а.$', s)), bool(re.search(r'\d$', s))]),
    ('groups', lambda s: [[list(m.groups()) for m in re.finditer(r'(\[)?([^|\]]*)[|\]]', s)]]),
    ('starts-of', lambda s: [[m.start() for m in re.finditer(r'%|а', s)], [m.end() for m in re.finditer(r'\[+', s)]]),
    ('order', lambda s: [min(list(s) or ['']), max(list(s) or ['']), [c for c in reversed(s)], [[i, c] for i, c in enumerate(s)]]),
    ('loop', lambda s: [sum(1 for c in s if c.isupper()), any(c == '%' for c in s), all(c != '%' for c in s), list(zip(s, s[1:]))]),
]

def grow(n):
    s = set()
    empty = set()
    for x in (n % 3, n % 2, 1, str(n % 2), (n % 2, 'a')):
        s.add(x)
    t = set(s)
    t.discard(n % 2)
    t.update([n % 4, 'z'])
    empty |= {n % 5}
    return [len(s), len(t), sorted(x for x in s if isinstance(x, int)), sorted(x for x in t - s if isinstance(x, int)), 2 in s, s == t, len(s | t), len(s & t), len(s ^ t),
            isinstance(s, set), bool(empty), bool(set()), set() == empty, (n % 2, 'a') in s, s <= t, t.issubset(s), len(empty - s)]


NUMBERS = [
    ('arithmetic', lambda n: [n + 1, n - 3, n * 2, -n, abs(n), n % 10, n // 10, n % -7, n // -7, list(divmod(n, 100))]),
    ('text-of-number', lambda n: [str(n), '%d' % n, '%s' % n, f'{n}', str(abs(n))]),
    ('digits', lambda n: [str(abs(n))[-1:], str(n).startswith('-'), len(str(n)), str(n).endswith('1'), str(n)[-2:-1] == '1']),
    ('ranges', lambda n: [n in (1, 2, 3), 10 <= n <= 19, n in range(5, 50), min(n, 7), max(n, -7), bool(n), n == 1 or n == -1]),
    ('floats', lambda n: [int(n / 10), round(n / 10), round(n / 4), math.floor(n / 7), math.ceil(n / 7), math.trunc(n / 3), (n / 10).is_integer(), int(float(n))]),
    ('float-compare', lambda n: [n / 10 == 0.3, n / 10 < 0.7, n / 10 >= -1.2, n / 5 == 1, n == 2.0, n < 2.5, n != 0.5, float(n) > 3, n > -math.inf, bool(n / 2), n / 3 != 0.5]),
    ('float-text', lambda n: ['%d' % (n / 10), '%.0f' % n, '%.0f' % (n / 10), f'{n:.0f}', str(float(n)), '{}'.format(n * 1.0)]),
    ('digits', lambda n: [str(n)[-1], str(n)[-2:], str(n)[-2:-1], str(n)[-3:] == '100', str(n).lstrip('-'), str(n).endswith('1'), str(n)[-2:] in ('11', '12'), str(n)[-1] in '234',
                          str(n).endswith(('2', '13')), str(n).startswith('-'), str(n).lstrip('-') in ('5', '30'), str(n).replace('-', '')[-1:], str(n)[-2] if abs(n) > 9 else '', str(abs(n))[-4:-2]]),
    ('views', lambda n: [len({1: n % 3, 2: n % 5}.items() - {1: 0, 2: n % 2}.items()), bool({1: n % 3}.items() - {1: 2, 5: 1}.items()), sorted({1: n % 3, 2: 4}.items() & {1: n % 2, 2: 4}.items()),
                         len(({1: n % 3, 2: n % 2, 3: 0}.items() - {1: 1}.items()) & {2: 1, 1: n % 4}.items()), {1: n % 3}.items() - {1: 1}.items() == set(),
                         sorted(({1: n % 3}.items() - {1: 1}.items()) | {(7, 7)}), ({1: n % 3}.items() - {1: 1}.items()).isdisjoint([(1, 2)])]),
    ('remainders', lambda n: [(n - 1) % 10, (n + 99) % 100, n // 10 % 10 if n >= 0 else 0, (n * n + 7) // 10 % 10, ((n * n) // 10 + 3) % 20, (n * n // 10 - 5) // 10 % 10 if n > 40 else 0,
                              (n - 2) % 1000, n % 8, (1 + n) % 3, (n * n + 1000000) % 10, (n * n + 1000000 - 3) % 125, (abs(n) + 12345) // 100 % 10, (abs(n) + 12345) // 7 % 10]),
    ('growing-sets', grow),
    ('float-arithmetic', lambda n: [int(n % 10.0), int(n // 10.0), int(float(n) % 7), int(n * 2.0 + 1), int((n - 1.0) / 3), abs(n / 10) > 1, int(-n / 10), int(2.5 * n)]),
    ('bits', lambda n: [n & 7, n | 8, n ^ 5, n << 1, n >> 1]),
]

def walk(s):
    for c in s:
        if c == '|':
            return
        yield c
        if c == '%':
            yield from 'аБ'


def matched(s):
    match list(s):
        case []:
            return 'empty'
        case ['а', *rest]:
            return len(rest)
        case [x] if x in '%1':
            return x + '!'
        case [x, y]:
            return y + x
        case _:
            return None


def guarded(s):
    out = []
    try:
        out.append(s[2])
    except IndexError:
        out.append('short')
    else:
        out.append('long')
    finally:
        out.append('end')
    with contextlib.suppress(KeyError, ValueError):
        out.append({'а': 1, '%': 2}[s[:1]])
        out.append(s.index('|'))
    for c in s:
        if c == ',':
            break
    else:
        out.append('none')
    while s and (c := s[0]) != '%':
        out.append(c)
        s = s[1:]
    return out


Point = collections.namedtuple('Point', 'x y')


@dataclasses.dataclass(frozen=True, order=True)
class Pair(object):
    first: object
    second: object = 3

    @functools.cached_property
    def both(self):
        return 'never'

    @property
    def total(self):
        return self.first + self.second

    @classmethod
    def of(cls, *args, **kw):
        return cls(*args, **kw)


class Kind(enum.Enum):
    LOW = 'а'
    SIGN = '%'


class Level(enum.IntEnum):
    ZERO = 0
    ONE = 1
    TWO = 2


@functools.lru_cache(maxsize=None)
def remembered(x):
    return x * 2


class Box(object):
    made = 0

    def __init__(self, *items):
        self.items = list(items)
        type(self).made += 1

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)

    def __contains__(self, x):
        return x in self.items

    def __eq__(self, other):
        return isinstance(other, Box) and self.items == other.items

    def __hash__(self):
        return len(self.items)

    def __add__(self, other):
        return Box(*self, *other)

    def __bool__(self):
        return any(self.items)

    def __enter__(self):
        self.items.append('in')
        return self

    def __exit__(self, *error):
        self.items.append('out')
        return True

    def __call__(self, x):
        return [x] + self.items


def boxed(s):
    a, b = Box(s, 1), Box(*s)
    with a as c:
        c.items.append(s[5])
    return [list(a), list(b), len(a + b), 'а' in b, a == Box(s, 1, 'in', 'out'), a in {Box(s, 1, 'in', 'out'): 1}, bool(Box('', 0)), bool(Box(s)), a(s)[:2], [x for x in b][:1]]


def counter():
    n = 0

    def more(k):
        nonlocal n
        n += k
        return n
    return more


def closures(n):
    add = counter()
    add(n)
    fs = [lambda k, m=m: n * m + k for m in (1, 2)]
    part = functools.partial(pow, n % 5)
    return [add(2), [f(1) for f in fs], part(2), functools.reduce(lambda a, b: a * 3 + b, [n, 1, 2]), (lambda *a, **k: len(a) + k.get('z', n))(1, 2, z=n), list(map(add, [1, n]))]


OPS += [
    ('walk', lambda s: [''.join(walk(s)), list(walk(s))[:2], next(walk(s), 'none'), dict(enumerate(walk(s)))]),
    ('match', lambda s: [matched(s), matched(s[:1]), matched(s[1:]), typed(s), typed(s, 2), typed(list(s), s), typed({'a': s, 'b': 1}, s), typed(Point(1, s)), typed(Holder(s), 5), typed(s, s)]),
    ('guarded', guarded),
    ('boxes', boxed),
    ('iterators', lambda s: [[[k, len(list(g))] for k, g in itertools.groupby(s)], ''.join(itertools.takewhile(lambda c: c != '%', s)), ''.join(itertools.dropwhile(str.isspace, s)),
                             list(itertools.islice(s, 1, None)), [a + b for a, b in itertools.pairwise(s)], list(itertools.accumulate(s)), list(itertools.chain(s, 'а'))[-2:],
                             [a for a, in zip(s)], list(itertools.zip_longest(s, 'аб', fillvalue='-')), ''.join(itertools.compress(s, [0, 1, 1])), list(itertools.filterfalse(str.isalpha, s)),
                             list(itertools.starmap(lambda i, c: c * i, enumerate(s)))]),
    ('collections', lambda s: [sorted(collections.Counter(s).items()), collections.Counter(s)['%'], collections.Counter(s).most_common(1)[0][1] if s else 0, list(dict.fromkeys(s)), list(collections.OrderedDict.fromkeys(s)),
                               list(collections.deque(s, 2)), collections.ChainMap({s: 1}, {'а': 2}).get('а'), Point(s, 1).x + '!', list(Point(1, s)), Point(s, 1) == (s, 1), Point(s, 2)._replace(y=5).y]),
    ('grouping', lambda s: [sorted((k, len(v)) for k, v in grouped(s).items()), {c: i for i, c in enumerate(s)}.get('а', -1), sorted({c for c in s}), sorted(set(s) | set('а')), len(set(s)) == len(s)]),
    ('translate', lambda s: [s.translate(str.maketrans('аБ', 'xy', '%')), s.translate({ord('%'): '%%', ord('|'): None}), s.removeprefix('а'), s.removesuffix('%'), s.expandtabs(2), s.isidentifier(), s.isprintable(), s.isascii()]),
    ('formatting', lambda s: ['{0}-{0}'.format(s), '{x:>4}|'.format(x=s), '{x}'.format_map({'x': s}), f'{s!s:<4}|', f'{s:^5}', '%-4s|' % s, '%(a)s' % {'a': s}, '%s%%' % (s,), f'{s[:1]}{len(s)}']),
    ('re-functions', lambda s: [re.sub(r'[а%]', lambda m: '<' + m.group() + '>', s), re.sub(r'(а)(.)', r'\2\1', s), re.subn(r'%', '', s)[1], bool(re.fullmatch(r'[аБ%]*', s)), re.split(r'([|,])', s), [m.span() for m in re.finditer(r'[^|]+', s)],
                                (re.search(r'(?P<x>[%,])', s) or {'x': 'none'})['x'], re.escape(s), [list(m.groupdict().values()) for m in re.finditer(r'\[(?P<in>[^\]]*)\]?', s)]]),
    ('keys', lambda s: [sorted(s, key=lambda c: (c != '%', c)), sorted(s, reverse=True), min(s, key=ord, default='-'), max(s, default='-'), sorted([s, 'аа', ''], key=len), [s, 'а'].index(s), sorted([(s, 2), ('а', 1)])[0][1], ord(s[0]) if s else 0]),
    ('dicts', lambda s: dicts(s)),
    ('records', lambda s: [Pair.of(s, s).first + '.', Pair(s) == Pair(s, 3), Pair(s, 1) < Pair('а', 1), dataclasses.replace(Pair(s), second=s).second + '.', dataclasses.asdict(Pair(s))['first'] + '.', Pair(s, 'я').total, hash(Pair(s)) == hash(Pair(s)), Pair(s) in {Pair('а'): 1}]),
    ('enums', lambda s: [attempt(lambda: Kind(s[:1]).name), [k.name for k in Kind if k.value == s], s in Kind._value2member_map_, remembered(s) + '.', copy.copy([s])[0] + '.', copy.deepcopy({'a': [s]})['a'][0] + '.']),
    ('unpacking', lambda s: [(lambda a='-', *b, **k: a + ''.join(b))(*s), [*s, *'аб'][:2], {**{s: 1}, 'а': 2}.get(s), [y for x in (s, 'а') for y in x if y != '%'], (s or 'пусто')[:1], s and s[-1], 'да' if s else 'нет', not s, s is not None]),
    ('lists', lambda s: lists(s)),
    ('coding', lambda s: [s.encode('utf-8').decode('utf-8') + '.', len(s.encode('utf-8')), s.encode().startswith('а'.encode()), str(s) + '.', json.loads(json.dumps([s]))[0] + '.', unicodedata.normalize('NFC', s) == s]),
    ('slots', lambda s: [getattr(Holder(s), 'text') + '.', hasattr(Holder(s), 'other'), setattr_(s), [getattr(Holder(s), k) for k in Holder.__slots__][0] + '.', operator.attrgetter('text')(Holder(s)) + '.', operator.itemgetter(0)([s]) + '.', operator.methodcaller('upper')(s), functools.reduce(operator.add, [s, 'а', s]), operator.eq(s, 'а'), operator.contains(s, 'а')]),
]


def grouped(s):
    out = collections.defaultdict(list)
    for i, c in enumerate(s):
        out[c].append(i)
    return out


class Holder(object):
    __slots__ = ('text',)

    def __init__(self, text):
        self.text = text


def setattr_(s):
    h = Holder('')
    setattr(h, 'text', s)
    return h.text + '.'


def dicts(s):
    d = {'а': 1, s: 2}
    e = dict(d, x=s)
    out = [len(d), d['а'], d.get(s), d.setdefault(s + 'а', 5), d.pop('а', None), 'а' in d, sorted(d.values()), [k == s for k in d], e['x'] + '.', (d | {'а': 7})['а'], len(d.keys() & {'а', s}), dict(zip([s], 'ж'))[s], d.pop(s, 9), len(d)]
    d.update({s: 4}, я=1)
    out.append(sorted(d.values()))
    del d[s]
    out.append(list(d.items())[-1][1])
    out.append(d == {'я': 1})
    return out


def lists(s):
    x = list(s)
    x.append('%')
    x.insert(0, s)
    x.extend('а')
    out = [x.count('а'), x.index('%'), x.pop(), len(x), x[-1] + '.', x[1:2]]
    x[0] = 'я'
    x.remove('%')
    x.reverse()
    x[1:1] = ['в']
    del x[0]
    x += ['ю']
    x.sort()
    y = x.copy()
    x.clear()
    return out + [y, x, y * 2 == y + y, y < ['я'], tuple(y) == ('ю', 'я'), bisect.bisect(y, 'в'), 'я' in y, any(map(str.isupper, y)), list(filter(None, [s, '', 'а'])), list(reversed(y))[:1]]


NUMBERS += [
    ('closures', closures),
    ('levels', lambda n: [typed(n), typed(n, n > 5), typed(str(n), n), typed(Point(n, n)), attempt(lambda: Level(n).name), Level.ONE == n, [x.name for x in Level if x <= n], remembered(n), Pair(n).total, Pair(n) > Pair(1, 2), Point(n, 1).x + 1, max(Pair(n), Pair(0)).first]),
    ('tables', lambda n: [{1: 'а', 2: 'б'}.get(n % 3, 'в'), ['а', 'б', 'в'][n % 3], 'абв'[n % 3], (0, 1, 2)[n % 3:], next((x for x in (3, 5, 7) if x > n), None), bisect.bisect_left([0, 5, 9], n), {k: v for k, v in enumerate('аб')}.get(n), [10, 20, 30, 40][-1 if n > 0 else 0],
                         sum(x * n for x in range(3)), sorted([n, 0, 5]), sorted([n, -n, 3], key=abs)[0] == 3, max(n, 0, -n), list(range(n % 4)), list(range(0, n % 5, 2)), [0] * (n % 3), 'а' * (n % 3), min([n, 4], key=lambda x: -x), sum([n, 1], 5), any(n == x for x in (1, 2)), all((n > 0, n < 9))]),
    ('parsing', lambda n: [int(str(n)), int(str(abs(n))[-1]), int(str(abs(n)), 10), [int(c) for c in str(abs(n) % 100)], sum(map(int, str(abs(n) % 1000))), str(n).isdigit(), len(str(abs(n))), str(n).zfill(5), '{:>5}'.format(n), '%5d' % n, '{:+d}'.format(n), f'{n:03d}', repr(n), ','.join(map(str, [n, 1])), divmod(abs(n), 10)[1], math.gcd(n, 12), math.isqrt(abs(n)), n.bit_length(), int(n > 0) - (n < 0), round(n, -1), pow(n % 7, 2), pow(n % 7, 3, 5), n.__index__(), operator.mod(n, 7), hash(n) == n]),
    ('chosen', lambda n: [chosen(n), [x for x, y in zip('абв', (n > 0, n > 1, n > 2)) if y], 1 if n > 2 else 2 if n > 1 else 3, (n > 1) + (n > 2), n if n else 'zero', n or 'zero', n and 7, not n, n is None, isinstance(n, int), type(n) is int, type(n).__name__, isinstance(n, (str, float)), {True: 'да', False: 'нет'}[n > 5], ('a', 'b')[n > 5], ~n, n ** 2, -n % 5, +n]),
]


def chosen(n):
    match abs(n) % 10:
        case 0:
            return 'zero'
        case 1 | 2:
            return 'few'
        case x if x > 7:
            return x
        case _:
            return 'many'


C = r.CASE
CASES = C.records
FIRST = {C.NOMINATIVE: 'и', C.GENITIVE: 'р', None: '-'}
ENDINGS = {(C.NOMINATIVE, None): 1, (None, C.GENITIVE): 2, (C.DATIVE, C.DATIVE): 3, (C.DATIVE, C.GENITIVE): 4}


def which(a):
    match a:
        case C.NOMINATIVE:
            return 1
        case C.GENITIVE | C.DATIVE:
            return 2
        case None:
            return 0
        case _ if a.value > 4:
            return a.value
        case words.r.CASE.DATIVE as x:
            return x
    return -1


def typed(x, y=None):
    match x, y:
        case (None, None):
            return 'nothing'
        case (str() as text, int(n)) if n > 1:
            return text * 2
        case (str(text), _) if text.startswith('а'):
            return text[1:]
        case (int(), None | True):
            return x + 1
        case [{'a': a, **rest}, z]:
            return [a, sorted(rest), z]
        case [Point(x=0, y=q) | Point(1, q), _]:
            return q
        case [[p, *_, q], str()]:
            return p + q
        case [Holder(text='а'), *_]:
            return 'held'
        case ('%' | 'Б' as z, *rest):
            return [z, rest]
    return 'none'


def grown(a, b):
    out = {}
    for x in (a, b, C.DATIVE):
        out.setdefault(x, []).append(1)
    seen = set()
    for x in (a, b, a):
        seen.add(x)
    other = {x for x in (a, b)} | {C.DATIVE}
    table = dict.fromkeys(CASES, 0)
    for x in (a, b):
        if x is not None:
            table[x] += 1
    return [sorted(len(v) for v in out.values()), len(seen), len(other), a in seen, C.DATIVE in seen, C.DATIVE in other, list(table.values()), a in out, out.get(C.GENITIVE), seen == {a, b}, seen <= other,
            sorted(x.value for x in other if x), max(table.values()), [k.name for k, v in table.items() if v]]


def features(a, b):
    p = words.Properties(a, r.NUMBER.PLURAL)
    q = p.clone(b)
    full = {x: p.get(x) for x in (r.CASE, r.NUMBER, r.GENDER)}
    return [p.get(r.CASE).name, q.get(r.CASE).name, p.is_specified(r.CASE), p == q, p != q, str(q), sorted(map(str, q.serialize().items())), words.Properties.deserialize(q.serialize()) == q, full[r.CASE].name, q.get(r.CASE).is_GENITIVE,
            q.get_raw_key((r.CASE, r.NUMBER)) == (C.DATIVE, r.NUMBER.PLURAL), len({p, q}), p in [q], [x.get(r.CASE) == C.DATIVE for x in sorted([p, q], key=lambda x: x.get(r.CASE).value)]]


RECORDS = [
    ('tests', lambda a, b: [a is C.GENITIVE, a is not C.GENITIVE, a == b, a != b, a is b, a is None, a in (C.GENITIVE, None), a not in {C.DATIVE, C.GENITIVE}, a in CASES, [a, b].count(C.DATIVE), (a, b) == (C.DATIVE, None), a in FIRST, bool(a), not b,
                            isinstance(a, r.CASE.__class__), isinstance(a, type(C.DATIVE)), hasattr(a, 'value'), isinstance(a, (str, int)), hasattr(a, 'is_DATIVE'), callable(a), a == 1, a == 'р']),
    ('lookups', lambda a, b: [FIRST.get(a), FIRST.get(b, '?'), attempt(lambda: FIRST[a]), ENDINGS.get((a, b), 0), {(x, y): 1 for x in CASES[:2] for y in (None, C.DATIVE)}.get((a, b)), {C: a}[C] == b, {a: 1, b: 2}.get(C.DATIVE), len({a: 1, b: 2}), dict([(a, 1)]) == {b: 1}, attempt(lambda: CASES.index(a)),
                              next((i for i, x in enumerate(CASES) if x == a), None), [x.name for x in CASES if x is a], list(map(FIRST.get, (a, b))), [FIRST[x] for x in (a, b) if x in FIRST], functools.reduce(lambda x, y: y or x, (a, b)) == C.DATIVE]),
    ('fields', lambda a, b: [a.value if a else 0, a.name if a else '', a.verbose_id if a is not None else '', attempt(lambda: b.value), getattr(a, 'value', 7), attempt(lambda: getattr(a, 'is_DATIVE')), a.is_GENITIVE if a else None, a and a.is_DATIVE and b and b.is_DATIVE, C(a.value).name if a else '', attempt(lambda: C(a.value) is a),
                             attempt(lambda: C.index_value[a.value] == a), a.text if a else '', sorted([x for x in (a, b) if x], key=lambda x: -x.value)[:1] == [C.DATIVE], sum(x.value for x in (a, b) if x), max((x.value for x in (a, b) if x), default=0),
                             '%s' % (a.name if a else a), f'{a.value}' if a else '', str(b.verbose_id) if b else '', {x.value for x in (a, b) if x} == {3}, a._relation is C if a else 0]),
    ('which', lambda a, b: [which(a), which(b), (a or b) is C.DATIVE, (a and b) == C.DATIVE, (a or C.DATIVE).name, 1 if a == C.DATIVE else 2 if a in CASES[:2] else 3, [1, 2][a == b], {True: 'да', False: 'нет'}[a == C.DATIVE or b == C.DATIVE], (a, b)[a is None] == C.DATIVE, sum((a == C.DATIVE, b == C.DATIVE))]),
    ('grown', grown),
    ('properties', features),
    ('iterated', lambda a, b: [[i for i, x in enumerate((a, b, a)) if x == C.DATIVE], list(itertools.takewhile(lambda x: x is not None, (a, b)))[:1] == [C.DATIVE], len(list(filter(None, (a, b)))), any(x is None for x in (a, b)), all(x != C.DATIVE for x in (a, b)), [k == C.DATIVE for k, g in itertools.groupby((a, b, b))],
                               [x == y for x, y in zip((a, b), CASES)], collections.Counter([a, b])[C.DATIVE], len(set([a, b, None])), frozenset([a, b]) == frozenset([C.DATIVE]), {C.DATIVE, a} - {b} == {C.DATIVE}, {a, b}.issubset(CASES), not {a, b} & {C.DATIVE, C.GENITIVE}, len(dict.fromkeys((a, b, a))), list(reversed((a, b)))[0] is b, (*(a, b), None).index(None)]),
]


def records(ctx, op):
    a = ctx.record('a', r.CASE, none=True)
    b = ctx.record('b', r.CASE, none=True)
    x = ctx.choose('x', list(range(7)))
    ctx.assume(ctx.Eq(b, (CASES + (None,))[x] if isinstance(CASES, tuple) else (list(CASES) + [None])[x]))
    ctx.check(True, 'run')
    for i, y in enumerate(op(a, b)):
        ctx.observe(str(i), y)


SETS = [
    ('relations', lambda a, b: [a <= b, a >= b, a == b, a < b, a.isdisjoint(b), a.issubset(b), bool(a), len(a), 1 in a]),
    ('algebra', lambda a, b: [sorted(a & b), sorted(a | b), sorted(a - b), sorted(a ^ b), sorted(a.union(b, [7])), sorted(a.intersection(b, [1, 2]))]),
    ('all-any', lambda a, b: [all(x in b for x in a), any(x in b for x in a), all(x not in b for x in a if x != 2), any(x > 2 for x in a if x in b)]),
    ('counts', lambda a, b: [sum(1 for x in a if x in b), sum(x for x in a), sum([1 for x in a if x not in b]), len([x for x in a if x in b])]),
    ('comprehensions', lambda a, b: [sorted({x for x in a if x in b}), sorted(set(x for x in a if x not in b)), sorted(frozenset(x for x in a if x in b)),
                                     len({x for x in a if x in b}), {x for x in a} == b, frozenset(x + 1 for x in a if x in b) <= a]),
    ('mutation', lambda a, b: [mutate(a, b)]),
    ('errors', lambda a, b: [attempt(lambda: all(table[x] for x in a)), attempt(lambda: [table[x] for x in a if x in b]), attempt(lambda: max(a))]),
    ('dictionary', lambda a, b: [a in {frozenset([1, 2]): 0}, {frozenset([1]): 'x', frozenset(): 'y'}.get(a, 'z')]),
]

table = {1: True, 2: True}


def attempt(f):
    try:
        return repr(f())
    except Exception as e:
        return type(e).__name__


def mutate(a, b):
    c = {x for x in a if x in b}
    d = c
    e = c.copy()
    d.add(9)
    c |= {8}
    e.discard(1)
    f = frozenset(c)
    c -= {9}
    d.update([5])
    return [sorted(c), sorted(d), sorted(e), sorted(f), c is d]


def sets(ctx, op):
    a = ctx.subset('a', [1, 2, 3, 4])
    b = ctx.subset('b', [1, 2, 3])
    ctx.check(True, 'run')
    for x in (1, 2):
        pick = ctx.choose('has%d' % x, [False, True])
        ctx.assume(ctx.Iff(x in a, pick))
    for i, x in enumerate(op(a, b)):
        ctx.observe(str(i), x)


def text(ctx, op, alphabet, length):
    s = ctx.string('s', 0, length, alphabet)
    for i in range(2):
        x = ctx.choose('x%d' % i, list(alphabet))
        ctx.assume(ctx.Or(len(s) <= i, s[i:i + 1] == x))   # more models to compare
    ctx.check(True, 'run')
    for i, x in enumerate(op(s)):
        ctx.observe(str(i), x)


def number(ctx, op, most):
    n = ctx.int('n', -most, most)
    x = ctx.choose('x', list(range(0, 13)))
    ctx.assume(n % 13 == x)
    ctx.check(True, 'run')
    for i, x in enumerate(op(n)):
        ctx.observe(str(i), x)


def SCENARIOS(tier):
    out = []
    for name, op in OPS:
        for k, alphabet in enumerate((A, 'а%[]|')):
            out.append(Scenario('text-%s-%d' % (name, k), text, '', dict(op=op, alphabet=alphabet, length=3 + k), seconds=20))
    for name, op in RECORDS:
        out.append(Scenario('records-' + name, records, '', dict(op=op), seconds=20))
    for name, op in SETS:
        out.append(Scenario('sets-' + name, sets, '', dict(op=op), seconds=20))
    for name, op in NUMBERS:
        out.append(Scenario('number-' + name, number, '', dict(op=op, most=1300), seconds=20))
        if name.startswith("float"):
            out.append(Scenario("number-%s-huge" % name, number, "", dict(op=op, most=10 ** 17), seconds=30))
    return out
