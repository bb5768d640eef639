"""Stand-ins for sources of nondeterminism: every answer of `random` is an arbitrary one, chosen by the context."""
import random

_current = [None]


def set_context(ctx):
    _current[0] = ctx


def _index(n):
    ctx = _current[0]
    if ctx is None:
        return 0 if n > 0 else _raise()
    return ctx.random_index(n)


def _raise():
    raise IndexError('Cannot choose from an empty sequence')


def choice(seq):
    return seq[_index(len(seq))]


def randrange(start, stop=None, step=1):
    r = range(start) if stop is None else range(start, stop, step)
    if not r:
        raise ValueError('empty range for randrange()')
    return r[_index(len(r))]


def randint(a, b):
    return randrange(a, b + 1)


def shuffle(x):
    for i in reversed(range(1, len(x))):
        j = _index(i + 1)
        x[i], x[j] = x[j], x[i]


def sample(population, k, counts=None):
    pool = list(population)
    out = []
    if k > len(pool):
        raise ValueError('Sample larger than population or is negative')
    for _ in range(k):
        out.append(pool.pop(_index(len(pool))))
    return out


def choices(population, weights=None, *, cum_weights=None, k=1):
    pool = list(population)
    if cum_weights is not None:
        weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
    if weights is None:
        weights = [1] * len(pool)
    scaled = [w for w in weights]
    if any(w != int(w) for w in scaled):
        scaled = [round(w * 840) for w in scaled]
    least = min([w for w in scaled if w > 0], default=1)
    if all(w % least == 0 for w in scaled):
        scaled = [w // least for w in scaled]
    urn = [x for x, w in zip(pool, scaled) for _ in range(int(w))]
    return [urn[_index(len(urn))] for _ in range(k)]


GRID = 24


def rnd():
    return _index(GRID) / GRID


def uniform(a, b):
    return a + (b - a) * rnd()


def patch():
    random.choice = choice
    random.randrange = randrange
    random.randint = randint
    random.shuffle = shuffle
    random.sample = sample
    random.choices = choices
    random.random = rnd
    random.uniform = uniform
