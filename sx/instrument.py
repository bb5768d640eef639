"""Import hook: loads modules from source with the operations above spliced into their AST."""
import ast
import copy
import importlib.abc
import importlib.util
import os
import sys

from sx import hooks

NAME = '__sx__'
SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'exec', 'eval', 'dir'}


QUANTIFIERS = {'all', 'any', 'sum', 'set', 'frozenset'}
PLAIN = (ast.Name, ast.Constant, ast.Attribute, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Not, ast.Tuple, ast.Subscript,
         ast.expr_context, ast.boolop, ast.cmpop)


def _lambda(args, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


def _hook(name):
    return ast.Attribute(value=ast.Name(id=NAME, ctx=ast.Load()), attr=name, ctx=ast.Load())


def _call(name, args):
    return ast.Call(func=_hook(name), args=args, keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.scope = []
        self.temporaries = 0

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def _function(self, node):
        self.scope.append(node.name)
        qual = '%s.%s' % (self.module, '.'.join(self.scope))
        self.generic_visit(node)
        self.scope.pop()
        enter = ast.Expr(value=_call('enter', [ast.Constant(value=qual)]))
        body = node.body
        at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
            isinstance(body[0].value.value, str) else 0
        body.insert(at, enter)
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(value=_call('tick', [])))
        return node

    def _quantified(self, node):
        """all/any/sum/set/frozenset over one generator whose parts call nothing: decided without a fork per element."""
        if not (isinstance(node.func, ast.Name) and node.func.id in QUANTIFIERS and len(node.args) == 1 and not node.keywords):
            return None
        return self._generator(node.func, node.args[0])

    def _generator(self, func, gen):
        if not (isinstance(gen, ast.GeneratorExp) and len(gen.generators) == 1):
            return None
        g = gen.generators[0]
        if g.is_async or not isinstance(g.target, ast.Name):
            return None
        if not all(isinstance(n, PLAIN) for part in [gen.elt] + g.ifs for n in ast.walk(part)):
            return None
        if isinstance(gen.elt, ast.Constant) and not g.ifs:
            return None
        parts = [self.visit(copy.deepcopy(p)) for p in [gen.elt] + g.ifs]
        one = [ast.arg(arg=g.target.id)]
        it = self.visit(copy.deepcopy(g.iter))
        plain = ast.GeneratorExp(elt=self.visit(gen.elt), generators=[ast.comprehension(
            target=g.target, iter=ast.Name(id='_sx_it', ctx=ast.Load()), ifs=[self.visit(c) for c in g.ifs], is_async=0)])
        return _call('quantified', [
            func, it, _lambda(one, ast.Tuple(elts=parts, ctx=ast.Load())), _lambda([ast.arg(arg='_sx_it')], plain)])

    def visit_Call(self, node):
        quantified = self._quantified(node)
        if quantified is not None:
            return quantified
        direct = isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS
        self.generic_visit(node)
        if direct:
            return node
        return ast.Call(func=_hook('call'), args=[node.func] + node.args, keywords=node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _call('getitem', [node.value, self._slice(node.slice)])
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=_hook('mkslice'), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, left, right = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return _call('contains_sw', [left, right])
            if isinstance(op, ast.NotIn):
                return _call('not_contains_sw', [left, right])
            if isinstance(op, ast.Is):
                return _call('is_', [left, right])
            if isinstance(op, ast.IsNot):
                return _call('is_not', [left, right])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call('mod', [node.left, node.right])
        if isinstance(node.op, (ast.Sub, ast.BitAnd)) and not isinstance(node.left, ast.Constant) and not isinstance(node.right, ast.Constant):
            return _call('sub' if isinstance(node.op, ast.Sub) else 'and_', [node.left, node.right])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign(targets=[node.target],
                              value=_call('mod', [ast.Name(id=node.target.id, ctx=ast.Load()), node.value]))
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for p in node.values:
            if isinstance(p, ast.Constant):
                parts.append(p)
            else:
                conv = ast.Constant(value=None if p.conversion == -1 else chr(p.conversion))
                spec = self.visit(p.format_spec) if p.format_spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[self.visit(p.value), conv, spec], ctx=ast.Load()))
        return _call('fstring', [ast.List(elts=parts, ctx=ast.Load())])

    def visit_Dict(self, node):
        self.generic_visit(node)
        args = []
        for k, val in zip(node.keys, node.values):
            args.append(ast.Tuple(elts=[val] if k is None else [k, val], ctx=ast.Load()))
        return _call('mkdict', args)

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call('mkset', [ast.List(elts=node.elts, ctx=ast.Load())])

    def visit_SetComp(self, node):
        quantified = self._generator(ast.Name(id='set', ctx=ast.Load()), ast.GeneratorExp(elt=node.elt, generators=node.generators))
        if quantified is not None:
            return quantified
        self.generic_visit(node)
        return _call('mkset', [ast.GeneratorExp(elt=node.elt, generators=node.generators)])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call('mkdict_pairs', [ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                                                       generators=node.generators)])

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.type = ast.Name(id='Exception', ctx=ast.Load())
        return node

    def visit_Match(self, node):
        """match is the chain of tests it stands for."""
        subject = self._temporary()
        out = []
        for case in node.cases:
            test = self._pattern(case.pattern, subject)
            if case.guard is not None:
                test = self._both([test, self.visit(case.guard)])
            body = []
            for statement in case.body:
                got = self.visit(statement)
                body.extend(got if isinstance(got, list) else [got])
            out.append((test, body))
        chain = []
        for test, body in reversed(out):
            chain = [ast.If(test=test, body=body, orelse=chain)]
        return [ast.Assign(targets=[ast.Name(id=subject, ctx=ast.Store())], value=self.visit(node.subject))] + chain

    def _temporary(self):
        self.temporaries += 1
        return '_sx_match%d' % self.temporaries

    def _both(self, tests):
        tests = [t for t in tests if not (isinstance(t, ast.Constant) and t.value is True)]
        return ast.Constant(value=True) if not tests else tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.And(), values=tests)

    def _bind(self, name, value):
        return _call('bind', [ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=value)])

    def _parts(self, value, patterns):
        """Parts of the subject by their own patterns; the value is None when there are none."""
        parts = self._temporary()
        load = ast.Name(id=parts, ctx=ast.Load())
        tests = [self._bind(parts, value), _call('is_not', [load, ast.Constant(value=None)])]
        for i, p in enumerate(patterns):
            if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                continue
            part = self._temporary()
            tests.append(self._bind(part, ast.Subscript(value=ast.Name(id=parts, ctx=ast.Load()), slice=ast.Constant(value=i), ctx=ast.Load())))
            tests.append(self._pattern(p, part))
        return self._both(tests)

    def _pattern(self, p, subject):
        load = ast.Name(id=subject, ctx=ast.Load())
        if isinstance(p, ast.MatchValue):
            return ast.Compare(left=load, ops=[ast.Eq()], comparators=[self.visit(p.value)])
        if isinstance(p, ast.MatchSingleton):
            return _call('is_', [load, ast.Constant(value=p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(op=ast.Or(), values=[self._pattern(x, subject) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            tests = [] if p.pattern is None else [self._pattern(p.pattern, subject)]
            return self._both(tests + ([] if p.name is None else [self._bind(p.name, load)]))
        if isinstance(p, ast.MatchStar):
            return ast.Constant(value=True) if p.name is None else self._bind(p.name, load)
        if isinstance(p, ast.MatchSequence):
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            return self._parts(_call('match_sequence', [load, ast.Constant(value=len(p.patterns)), ast.Constant(value=star[0] if star else None)]), p.patterns)
        if isinstance(p, ast.MatchMapping):
            keys = ast.List(elts=[self.visit(k) for k in p.keys], ctx=ast.Load())
            rest = [] if p.rest is None else [ast.MatchAs(pattern=None, name=p.rest)]
            return self._parts(_call('match_mapping', [load, keys, ast.Constant(value=bool(rest))]), list(p.patterns) + rest)
        if isinstance(p, ast.MatchClass):
            value = _call('match_class', [load, self.visit(p.cls), ast.Constant(value=len(p.patterns)), ast.Constant(value=tuple(p.kwd_attrs))])
            return self._parts(value, list(p.patterns) + list(p.kwd_patterns))
        raise SyntaxError('pattern %r' % p)

    def visit_AnnAssign(self, node):
        node.annotation = ast.Constant(value=None)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node


def contains_sw(item, container):
    return hooks.contains(container, item)


def not_contains_sw(item, container):
    return hooks.not_contains(container, item)


class Api(object):
    pass


API = Api()
for _n in ('call', 'getitem', 'is_', 'is_not', 'mod', 'sub', 'and_', 'fstring', 'mkdict', 'mkset', 'mkdict_pairs', 'enter', 'tick', 'quantified', 'bind', 'match_sequence', 'match_mapping', 'match_class'):
    setattr(API, _n, getattr(hooks, _n))
API.contains_sw = contains_sw
API.not_contains_sw = not_contains_sw
API.mkslice = slice


def compile_source(source, filename, module):
    tree = ast.parse(source, filename)
    tree = Rewriter(module).visit(tree)
    ast.fix_missing_locations(tree)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        import warnings
        with open(self.path, encoding='utf-8') as f:
            source = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = compile_source(source, self.path, module.__name__)
        hooks.INSTRUMENTED.add(module.__name__)
        module.__dict__[NAME] = API
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """roots: {top-level package: directory holding it}"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            file = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, file, loader=Loader(file), submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=Loader(base + '.py'))
        return None


def install(roots):
    for name in [m for m in sys.modules if m.split('.')[0] in roots]:
        del sys.modules[name]
    sys.meta_path.insert(0, Finder(roots))
