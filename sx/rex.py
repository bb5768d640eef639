"""Regular expressions over symbolic strings: a backtracking matcher over the stdlib's own parse tree."""
import re
try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:      # pragma: no cover
    import sre_parse
    import sre_constants as sre

from sx.values import E, SymStr, SymIntStr, Sym, b_and, b_or, b_not, c_eq, chars_of, mk_str, is_str, c_in_runs, _CLASSES, _runs, s_concat
from sx.engine import Unsupported

_WORD = _runs(lambda c: chr(c).isalnum() or c == ord('_'))
_CAT = {sre.CATEGORY_DIGIT: _CLASSES['isdecimal'], sre.CATEGORY_SPACE: _CLASSES['isspace'], sre.CATEGORY_WORD: _WORD}
_NCAT = {sre.CATEGORY_NOT_DIGIT: sre.CATEGORY_DIGIT, sre.CATEGORY_NOT_SPACE: sre.CATEGORY_SPACE,
         sre.CATEGORY_NOT_WORD: sre.CATEGORY_WORD}


def _dec(t):
    return t if isinstance(t, bool) else E().branch(t)


def _cat(c, av):
    if av in _CAT:
        return c_in_runs(c, _CAT[av])
    if av in _NCAT:
        return b_not(c_in_runs(c, _CAT[_NCAT[av]]))
    raise Unsupported('regex category %s' % av)


def _in(c, items, icase):
    neg = False
    out = []
    for op, av in items:
        if op is sre.NEGATE:
            neg = True
        elif op is sre.LITERAL:
            out.append(c_eq(c, av))
        elif op is sre.RANGE:
            out.append(c_in_runs(c, [(av[0], av[1], 1)]))
        elif op is sre.CATEGORY:
            out.append(_cat(c, av))
        else:
            raise Unsupported('regex set %s' % op)
    t = b_or(*out)
    return b_not(t) if neg else t


class Matcher(object):
    def __init__(self, pattern, text):
        self.pattern = pattern
        self.flags = pattern.flags
        if self.flags & (re.IGNORECASE | re.LOCALE | re.ASCII):
            raise Unsupported('regex flags')
        self.tree = sre_parse.parse(pattern.pattern, pattern.flags & ~re.DEBUG)
        self.text = text
        self.chars = chars_of(text)

    def seq(self, nodes, k, i, groups, cont):
        if k == len(nodes):
            return cont(i, groups)
        op, av = nodes[k]

        def nxt(j, g):
            return self.seq(nodes, k + 1, j, g, cont)
        n = len(self.chars)
        if op is sre.LITERAL:
            return i < n and _dec(c_eq(self.chars[i], av)) and nxt(i + 1, groups)
        if op is sre.NOT_LITERAL:
            return i < n and _dec(b_not(c_eq(self.chars[i], av))) and nxt(i + 1, groups)
        if op is sre.ANY:
            return i < n and (self.flags & re.DOTALL or _dec(b_not(c_eq(self.chars[i], 10)))) and nxt(i + 1, groups)
        if op is sre.IN:
            return i < n and _dec(_in(self.chars[i], av, False)) and nxt(i + 1, groups)
        if op is sre.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, groups, nxt)
                if r:
                    return r
            return False
        if op is sre.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise Unsupported('inline regex flags')

            def end(j, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                return nxt(j, g)
            return self.seq(list(sub), 0, i, groups, end)
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT, sre.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if op is sre.POSSESSIVE_REPEAT:
                cnt, g = 0, groups
                while hi is sre.MAXREPEAT or cnt < hi:
                    r = self.seq(sub, 0, i, g, lambda j, g2: ('m', j, g2))
                    if not r or r[1] == i:
                        break
                    i, g, cnt = r[1], r[2], cnt + 1
                return cnt >= lo and nxt(i, g)

            def rep(cnt, j, g):
                more = hi is sre.MAXREPEAT or cnt < hi

                def again(j2, g2):
                    if j2 == j and cnt >= lo:
                        return False
                    return rep(cnt + 1, j2, g2)
                if op is sre.MAX_REPEAT:
                    if more:
                        r = self.seq(sub, 0, j, g, again)
                        if r:
                            return r
                    return cnt >= lo and nxt(j, g)
                if cnt >= lo:
                    r = nxt(j, g)
                    if r:
                        return r
                return more and self.seq(sub, 0, j, g, again)
            return rep(0, i, groups)
        if op is sre.AT:
            if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
                if av is sre.AT_BEGINNING and self.flags & re.MULTILINE:
                    ok = i == 0 or _dec(c_eq(self.chars[i - 1], 10))
                else:
                    ok = i == 0
            elif av is sre.AT_END:
                if self.flags & re.MULTILINE:
                    ok = i == n or _dec(c_eq(self.chars[i], 10))
                else:
                    ok = i == n or (i == n - 1 and _dec(c_eq(self.chars[i], 10)))
            elif av is sre.AT_END_STRING:
                ok = i == n
            elif av in (sre.AT_BOUNDARY, sre.AT_NON_BOUNDARY):
                a = i > 0 and _dec(c_in_runs(self.chars[i - 1], _WORD))
                b = i < n and _dec(c_in_runs(self.chars[i], _WORD))
                ok = (a != b) == (av is sre.AT_BOUNDARY)
            else:
                raise Unsupported('regex anchor %s' % av)
            return ok and nxt(i, groups)
        if op in (sre.ASSERT, sre.ASSERT_NOT):
            direction, sub = av
            if direction > 0:
                r = self.seq(list(sub), 0, i, groups, lambda j, g: ('m', j, g))
            else:
                lo, hi = sub.getwidth()
                r = False
                for w in range(lo, min(hi, i) + 1):
                    r = self.seq(list(sub), 0, i - w, groups, lambda j, g: j == i and ('m', j, g))
                    if r:
                        break
            if op is sre.ASSERT:
                return bool(r) and nxt(i, r[2])
            return not r and nxt(i, groups)
        if op is sre.GROUPREF:
            if av not in groups:
                return False
            a, b = groups[av]
            w = self.chars[a:b]
            if i + len(w) > n or not _dec(b_and(*[c_eq(x, y) for x, y in zip(w, self.chars[i:i + len(w)])])):
                return False
            return nxt(i + len(w), groups)
        if op is sre.ATOMIC_GROUP:
            r = self.seq(list(av), 0, i, groups, lambda j, g: ('m', j, g))
            return r and nxt(r[1], r[2])
        raise Unsupported('regex op %s' % op)

    def at(self, i, full=False):
        n = len(self.chars)
        return self.seq(list(self.tree), 0, i, {}, lambda j, g: (not full or j == n) and ('m', j, g))

    def search(self, start=0):
        for i in range(start, len(self.chars) + 1):
            r = self.at(i)
            if r:
                return Match(self, i, r[1], r[2])
        return None

    def iter(self):
        pos, n = 0, len(self.chars)
        last_empty_ok = True
        while pos <= n:
            found = None
            for i in range(pos, n + 1):
                r = self.at(i)
                if r and r[1] == i and not last_empty_ok and i == pos:
                    # empty match adjacent to the previous one is not allowed at the same place
                    r = self.seq(list(self.tree), 0, i, {}, lambda j, g, i=i: j > i and ('m', j, g))
                if r:
                    found = Match(self, i, r[1], r[2])
                    break
                last_empty_ok = True
            if found is None:
                return
            yield found
            pos = found._end
            last_empty_ok = found._end != found._start


class Match(object):
    def __init__(self, m, start, end, groups):
        self._m = m
        self._start, self._end, self._groups = start, end, groups
        self.string = m.text
        self.re = m.pattern

    def _span(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g == 0:
            return (self._start, self._end)
        if g > self.re.groups:
            raise IndexError('no such group')
        return self._groups.get(g, (-1, -1))

    def _get(self, g, default=None):
        a, b = self._span(g)
        return default if a < 0 else mk_str(self._m.chars[a:b])

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._get(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = lambda self, g: self._get(g)

    def groups(self, default=None):
        return tuple(self._get(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(v, default) for k, v in self.re.groupindex.items()}

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def span(self, g=0):
        return self._span(g)

    @property
    def lastindex(self):
        return max(self._groups, default=None)

    def expand(self, template):
        return _expand(self, template)


def _expand(match, repl):
    if isinstance(repl, Sym):
        raise Unsupported('symbolic replacement template')
    if '\\' not in repl:
        return repl
    parts = sre_parse.parse_template(repl, match.re)
    out = []
    for p in parts:
        out.append(match._get(p, '') if isinstance(p, int) else p)
    return s_concat(out) if out else ''


def pattern_method(pattern, name, args, kw):
    """Handles pattern.<name>(...) when the subject (or replacement) is symbolic."""
    from sx import hooks
    if name in ('sub', 'subn'):
        names = ('repl', 'string', 'count')
        vals = dict(zip(names, args))
        vals.update(kw)
        repl, text, count = vals['repl'], vals['string'], int(vals.get('count', 0))
        m = Matcher(pattern, text)
        out, pos, n = [], 0, 0
        for match in m.iter():
            if count and n >= count:
                break
            out.append(mk_str(m.chars[pos:match._start]))
            out.append(hooks.call(repl, match) if callable(repl) else _expand(match, repl))
            pos = match._end
            n += 1
        out.append(mk_str(m.chars[pos:]))
        r = s_concat(out)
        return (r, n) if name == 'subn' else r
    text = kw.get('string', args[0] if args else None)
    m = Matcher(pattern, text)
    if len(args) > 1 or set(kw) - {'string', 'maxsplit'}:
        if name == 'split':
            pass
        elif name in ('match', 'search', 'fullmatch') and len(args) == 2:
            start = int(args[1])
            if name == 'search':
                return m.search(start)
            r = m.at(start, full=name == 'fullmatch')
            return Match(m, start, r[1], r[2]) if r else None
        else:
            raise Unsupported('regex %s with bounds' % name)
    if name == 'findall':
        out = []
        for match in m.iter():
            if pattern.groups == 0:
                out.append(match.group())
            elif pattern.groups == 1:
                out.append(match._get(1, ''))
            else:
                out.append(match.groups(''))
        return out
    if name == 'finditer':
        return m.iter()
    if name == 'search':
        return m.search()
    if name in ('match', 'fullmatch'):
        r = m.at(0, full=name == 'fullmatch')
        return Match(m, 0, r[1], r[2]) if r else None
    if name == 'split':
        maxsplit = int(kw.get('maxsplit', args[1] if len(args) > 1 else 0))
        out, pos, n = [], 0, 0
        for match in m.iter():
            if maxsplit and n >= maxsplit:
                break
            out.append(mk_str(m.chars[pos:match._start]))
            out.extend(match.groups())
            pos = match._end
            n += 1
        out.append(mk_str(m.chars[pos:]))
        return out
    raise Unsupported('regex method %s' % name)
