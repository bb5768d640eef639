"""Puts the mutable state reachable from module globals back between paths."""
import sys
import types

SKIP_TYPES = (str, int, float, bool, type(None), bytes, types.ModuleType, types.BuiltinFunctionType)
BUDGET = 60000
BIG_TUPLE = 4096


class Snapshot(object):
    def __init__(self, modules):
        self.dicts = []      # (dict object, copy) for module/class/instance dictionaries
        self.containers = [] # (object, kind, copy)
        self.slots = []      # (object, {slot: value})
        self.classes = []
        seen = set()
        names = set(m.__name__ for m in modules)
        stack = []
        for m in modules:
            g = m.__dict__
            self.dicts.append((g, dict(g)))
            stack.extend(val for k, val in g.items() if k not in ('__builtins__', '__sx__'))
        while stack:
            x = stack.pop()
            if isinstance(x, SKIP_TYPES) or id(x) in seen:
                continue
            seen.add(id(x))
            if len(seen) > BUDGET:
                break
            t = type(x)
            if t is tuple or t is frozenset:
                if len(x) <= BIG_TUPLE:
                    stack.extend(x)
            elif isinstance(x, dict):
                al = getattr(x, '_al', None)
                self.containers.append((x, 'dict', dict(dict.items(x)), [list(e) for e in al] if al is not None else None))
                for k, val in dict.items(x):
                    stack.append(k)
                    stack.append(val)
            elif t is list:
                self.containers.append((x, 'list', list(x), None))
                stack.extend(x)
            elif t is set:
                self.containers.append((x, 'set', set(x), None))
                stack.extend(x)
            elif t.__name__ == 'XSet':
                self.containers.append((x, 'xset', list(x._l), None))
                stack.extend(x._l)
            elif t is types.FunctionType:
                if x.__module__ in names:
                    stack.extend(x.__defaults__ or ())
                    stack.extend((x.__kwdefaults__ or {}).values())
                    for c in x.__closure__ or ():
                        try:
                            stack.append(c.cell_contents)
                        except ValueError:
                            pass
                    if x.__dict__:
                        self.dicts.append((x.__dict__, dict(x.__dict__)))
                        stack.extend(x.__dict__.values())
            elif isinstance(x, (classmethod, staticmethod)):
                stack.append(x.__func__)
            elif isinstance(x, property):
                stack.extend([x.fget, x.fset, x.fdel])
            elif isinstance(x, type):
                if x.__module__ in names and not hasattr(x, '_external_index'):
                    self.classes.append((x, {k: val for k, val in x.__dict__.items()
                                             if k not in ('__dict__', '__weakref__')}))
                    stack.extend(x.__dict__.values())
            elif t.__module__ in names:
                slots = []
                for c in t.__mro__:
                    s = c.__dict__.get('__slots__', ())
                    slots.extend([s] if isinstance(s, str) else s)
                if slots:
                    vals = {}
                    for s in slots:
                        try:
                            vals[s] = object.__getattribute__(x, s)
                        except AttributeError:
                            pass
                    self.slots.append((x, tuple(slots), vals))
                    stack.extend(vals.values())
                d = getattr(x, '__dict__', None)
                if isinstance(d, dict):
                    self.dicts.append((d, dict(d)))
                    stack.extend(d.values())
            elif t.__name__ == '_lru_cache_wrapper':
                self.containers.append((x, 'lru', None, None))
                stack.append(x.__wrapped__)

    def restore(self):
        hooks = sys.modules.get('sx.hooks')
        if hooks is not None:
            hooks.LRU_MEMO.clear()
        for d, c in self.dicts:
            if len(d) != len(c) or any(d.get(k) is not val for k, val in c.items()):
                for k in list(d):
                    if k not in c:
                        del d[k]
                d.update(c)
        for x, kind, c, al in self.containers:
            if kind == 'dict':
                cur = getattr(x, '_al', None)
                if cur is not None or al is not None:
                    dict.clear(x)
                    dict.update(x, c)
                    x._al = [list(e) for e in al] if al is not None else None
                elif not _same(x, c):
                    dict.clear(x)
                    dict.update(x, c)
            elif kind == 'list':
                if len(x) != len(c) or any(a is not b for a, b in zip(x, c)):
                    x[:] = c
            elif kind == 'xset':
                x._l = list(c)
            elif kind == 'set':
                if len(x) != len(c) or x != c:
                    x.clear()
                    x.update(c)
            else:
                x.cache_clear()
        for x, slots, vals in self.slots:
            for s in slots:
                if s in vals:
                    try:
                        if object.__getattribute__(x, s) is vals[s]:
                            continue
                    except AttributeError:
                        pass
                    object.__setattr__(x, s, vals[s])
                else:
                    try:
                        object.__delattr__(x, s)
                    except AttributeError:
                        pass
        for cls, attrs in self.classes:
            cur = cls.__dict__
            for k in [k for k in cur if k not in attrs and k not in ('__dict__', '__weakref__')]:
                delattr(cls, k)
            for k, val in attrs.items():
                if cur.get(k) is not val:
                    setattr(cls, k, val)


def _same(x, c):
    if dict.__len__(x) != len(c):
        return False
    for (k1, v1), (k2, v2) in zip(dict.items(x), c.items()):
        if k1 is not k2 or v1 is not v2:
            return False
    return True
