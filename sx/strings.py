"""str methods over symbolic strings.  Searching forks on matches; case mapping and classes are closed terms."""
import z3

from sx.values import (E, SymStr, LazyStr, SymIntStr, SymInt, SymBool, b_and, b_or, b_not, b_term, mk_bool, mk_str, mk_int, is_str,
                       chars_of, s_concat, s_eq, s_match_at, s_contains, c_in_runs, c_map, c_maps, _CLASSES, as_z3)


def _decide(t):
    return t if isinstance(t, bool) else E().branch(t)


def _idx(n, start, end):
    start = 0 if start is None else int(start)
    end = n if end is None else int(end)
    if start < 0:
        start = max(0, start + n)
    if end < 0:
        end = max(0, end + n)
    return start, min(end, n)


def _check_str(x):
    if not is_str(x):
        raise TypeError('must be str, not %s' % type(x).__name__)


def _find(s, sub, start=None, end=None):
    _check_str(sub)
    cs, cb = chars_of(s), chars_of(sub)
    start, end = _idx(len(cs), start, end)
    for i in range(start, end - len(cb) + 1):
        if _decide(s_match_at(cs, cb, i)):
            return i
    return -1


def _rfind(s, sub, start=None, end=None):
    cs, cb = chars_of(s), chars_of(sub)
    start, end = _idx(len(cs), start, end)
    for i in range(end - len(cb), start - 1, -1):
        if _decide(s_match_at(cs, cb, i)):
            return i
    return -1


def m_find(s, sub, start=None, end=None):
    return _find(s, sub, start, end)


def m_rfind(s, sub, start=None, end=None):
    return _rfind(s, sub, start, end)


def m_index(s, sub, start=None, end=None):
    r = _find(s, sub, start, end)
    if r < 0:
        raise ValueError('substring not found')
    return r


def m_rindex(s, sub, start=None, end=None):
    r = _rfind(s, sub, start, end)
    if r < 0:
        raise ValueError('substring not found')
    return r


def m_count(s, sub, start=None, end=None):
    _check_str(sub)
    cs, cb = chars_of(s), chars_of(sub)
    start, end = _idx(len(cs), start, end)
    if len(cb) == 1:
        n = 0
        const = 0
        for i in range(start, end):
            t = s_match_at(cs, cb, i)
            if t is True:
                const += 1
            elif t is not False:
                if isinstance(cb[0], int):
                    n = n + SymInt.of_parts(0, [(cs[i], frozenset(cb))])
                else:
                    n = n + SymBool(t)._int()
        return n + const
    if not cb:
        return max(0, end - start + 1)
    n, i = 0, start
    while i <= end - len(cb):
        if _decide(s_match_at(cs, cb, i)):
            n += 1
            i += len(cb)
        else:
            i += 1
    return n


def _prefixes(p):
    return tuple(p) if isinstance(p, tuple) else (p,)


def m_startswith(s, prefix, start=None, end=None):
    cs = chars_of(s)
    start, end = _idx(len(cs), start, end)
    cs = cs[start:end]
    out = []
    for p in _prefixes(prefix):
        _check_str(p)
        cb = chars_of(p)
        out.append(len(cb) <= len(cs) and s_match_at(cs, cb, 0))
    return mk_bool(b_or(*out))


def m_endswith(s, suffix, start=None, end=None):
    cs = chars_of(s)
    start, end = _idx(len(cs), start, end)
    cs = cs[start:end]
    out = []
    for p in _prefixes(suffix):
        _check_str(p)
        cb = chars_of(p)
        out.append(len(cb) <= len(cs) and s_match_at(cs, cb, len(cs) - len(cb)))
    return mk_bool(b_or(*out))


def m_removeprefix(s, p):
    return mk_str(chars_of(s)[len(p):]) if _decide(b_term(m_startswith(s, p))) else s


def m_removesuffix(s, p):
    return mk_str(chars_of(s)[:len(s) - len(p)]) if len(p) and _decide(b_term(m_endswith(s, p))) else s


def _in_set(c, chars):
    from sx.values import c_eq
    if chars is None:
        return c_in_runs(c, _CLASSES['isspace'])
    return b_or(*[c_eq(c, x) for x in chars])


def _strip(s, chars, left, right):
    cs = list(chars_of(s))
    set_ = None if chars is None else chars_of(chars)
    if left:
        while cs and _decide(_in_set(cs[0], set_)):
            cs.pop(0)
    if right:
        while cs and _decide(_in_set(cs[-1], set_)):
            cs.pop()
    return mk_str(cs)


def m_strip(s, chars=None):
    return _strip(s, chars, True, True)


def m_lstrip(s, chars=None):
    return _strip(s, chars, True, False)


def m_rstrip(s, chars=None):
    return _strip(s, chars, False, True)


def m_replace(s, old, new, count=-1):
    _check_str(old)
    _check_str(new)
    cs, co, cn = chars_of(s), chars_of(old), chars_of(new)
    count = int(count)
    out = []
    i = 0
    if not co:
        for j in range(len(cs) + 1):
            if count != 0:
                out.extend(cn)
                count -= 1
            if j < len(cs):
                out.append(cs[j])
        return mk_str(out)
    while i < len(cs):
        if count != 0 and i + len(co) <= len(cs) and _decide(s_match_at(cs, co, i)):
            out.extend(cn)
            i += len(co)
            count -= 1
        else:
            out.append(cs[i])
            i += 1
    return mk_str(out)


def m_split(s, sep=None, maxsplit=-1):
    cs = chars_of(s)
    maxsplit = int(maxsplit)
    out = []
    if sep is None:
        i, n = 0, len(cs)
        while True:
            while i < n and _decide(_in_set(cs[i], None)):
                i += 1
            if i >= n:
                break
            if maxsplit == 0:
                out.append(m_rstrip(mk_str(cs[i:])))
                break
            j = i
            while j < n and not _decide(_in_set(cs[j], None)):
                j += 1
            out.append(mk_str(cs[i:j]))
            maxsplit -= 1
            i = j
        return out
    _check_str(sep)
    cb = chars_of(sep)
    if not cb:
        raise ValueError('empty separator')
    start = i = 0
    while i <= len(cs) - len(cb) and maxsplit != 0:
        if _decide(s_match_at(cs, cb, i)):
            out.append(mk_str(cs[start:i]))
            i += len(cb)
            start = i
            maxsplit -= 1
        else:
            i += 1
    out.append(mk_str(cs[start:]))
    return out


def m_rsplit(s, sep=None, maxsplit=-1):
    if int(maxsplit) < 0:
        return m_split(s, sep)
    if sep is None:
        return s.concretize().rsplit(None, maxsplit)
    cs, cb = chars_of(s), chars_of(sep)
    out = []
    end = len(cs)
    i = end - len(cb)
    while i >= 0 and maxsplit != 0:
        if _decide(s_match_at(cs, cb, i)):
            out.append(mk_str(cs[i + len(cb):end]))
            end = i
            i -= len(cb)
            maxsplit -= 1
        else:
            i -= 1
    out.append(mk_str(cs[:end]))
    return out[::-1]


def m_partition(s, sep):
    i = _find(s, sep)
    if i < 0:
        return (s, '', '')
    cs = chars_of(s)
    return (mk_str(cs[:i]), sep, mk_str(cs[i + len(sep):]))


def m_rpartition(s, sep):
    i = _rfind(s, sep)
    if i < 0:
        return ('', '', s)
    cs = chars_of(s)
    return (mk_str(cs[:i]), sep, mk_str(cs[i + len(sep):]))


def m_join(s, items):
    out = []
    for i, x in enumerate(items):
        if not is_str(x):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(x).__name__))
        if i and not (isinstance(s, str) and s == ''):
            out.append(s)
        out.append(x)
    return s_concat(out) if out else ''


def _mapper(method):
    def fn(s):
        return mk_str([x for c in chars_of(s) for x in c_maps(c, method)])
    return fn


def m_capitalize(s):
    cs = chars_of(s)
    return mk_str(c_maps(cs[0], 'title') + [x for c in cs[1:] for x in c_maps(c, 'lower')]) if cs else s


def m_swapcase(s):
    out = []
    for c in chars_of(s):
        if isinstance(c, int):
            out.extend(c_maps(c, 'lower' if chr(c).isupper() else 'upper'))
            continue
        up = c_in_runs(c, _CLASSES['isupper'])
        out.append(z3.If(as_z3(up), c_map(c, 'lower'), c_map(c, 'upper')))
    return mk_str(out)


def m_title(s):
    out = []
    prev_cased = False
    for c in chars_of(s):
        if isinstance(c, int):
            cased = chr(c).isupper() or chr(c).islower() or chr(c).istitle()
        else:
            cased = b_or(c_in_runs(c, _CLASSES['isupper']), c_in_runs(c, _CLASSES['islower']))
        out.extend(c_maps(c, 'lower') if _decide(prev_cased) else c_maps(c, 'title'))
        prev_cased = cased
    return mk_str(out)


def _class_all(method):
    def fn(s):
        cs = chars_of(s)
        return mk_bool(b_and(*[c_in_runs(c, _CLASSES[method]) for c in cs])) if cs else False
    return fn


def _cased(method, other):
    def fn(s):
        cs = chars_of(s)
        yes = b_or(*[c_in_runs(c, _CLASSES[method]) for c in cs])
        no = b_or(*[c_in_runs(c, _CLASSES[other]) for c in cs])
        return mk_bool(b_and(yes, b_not(no)))
    return fn


def _pad(side):
    def fn(s, width, fill=' '):
        n = int(width) - len(s)
        if n <= 0:
            return s
        if side == 'l':
            return s_concat([s, fill * n])
        return s_concat([fill * n, s])
    return fn


def m_splitlines(s, keepends=False):
    return s.concretize().splitlines(keepends) if isinstance(s, SymStr) else s.splitlines(keepends)


def m_format(s, *args, **kw):
    from sx import hooks
    return hooks.str_format(s, args, kw)


def m_format_map(s, mapping):
    from sx import hooks
    return hooks.str_format(s, (), mapping)


def m_translate(s, table):
    out = []
    for ch in s:
        from sx import hooks
        c = chars_of(ch)[0]
        res = ch
        for k, v in table.items():
            from sx.values import c_eq
            if _decide(c_eq(c, k if isinstance(k, int) else ord(k))):
                res = '' if v is None else chr(v) if isinstance(v, int) else v
                break
        out.append(res)
    return s_concat(out) if out else ''


def m_encode(s, encoding='utf-8', errors='strict'):
    if isinstance(s, SymStr):
        s = s.concretize()
    return s.encode(encoding, errors)


METHODS = {
    'find': m_find, 'rfind': m_rfind, 'index': m_index, 'rindex': m_rindex, 'count': m_count,
    'startswith': m_startswith, 'endswith': m_endswith, 'removeprefix': m_removeprefix, 'removesuffix': m_removesuffix,
    'strip': m_strip, 'lstrip': m_lstrip, 'rstrip': m_rstrip, 'replace': m_replace, 'split': m_split, 'rsplit': m_rsplit,
    'partition': m_partition, 'rpartition': m_rpartition, 'join': m_join,
    'lower': _mapper('lower'), 'upper': _mapper('upper'), 'casefold': _mapper('casefold'),
    'capitalize': m_capitalize, 'swapcase': m_swapcase, 'title': m_title,
    'isupper': _cased('isupper', 'islower'), 'islower': _cased('islower', 'isupper'),
    'isalpha': _class_all('isalpha'), 'isdigit': _class_all('isdigit'), 'isspace': _class_all('isspace'),
    'isalnum': _class_all('isalnum'), 'isdecimal': _class_all('isdecimal'), 'isnumeric': _class_all('isnumeric'),
    'ljust': _pad('l'), 'rjust': _pad('r'), 'splitlines': m_splitlines,
    'format': m_format, 'format_map': m_format_map, 'translate': m_translate, 'encode': m_encode,
}


def call_method(s, name, args, kw):
    """str method `name` where s or an argument is symbolic."""
    fn = METHODS.get(name)
    if isinstance(s, LazyStr):
        s = s.text()
    if fn is not None:
        args = [a.text() if isinstance(a, LazyStr) and name != 'join' else a for a in args]
        return fn(s, *args, **kw)
    args = [a.concretize() if isinstance(a, SymStr) else a for a in args]
    s = s.concretize() if isinstance(s, SymStr) else s
    return getattr(s, name)(*args, **kw)
