"""Mechanical instrumentation of the real source (AST -> AST), done anew on every run.

What changes: loop heads and comprehensions report to the engine, displays/containers are created through the engine,
`*x` in calls may carry an unbounded sequence, `*args/**kwargs` parameters may be symbolic, string literals of f-strings
are built through the engine.  Nothing is dropped except docstrings, annotations and `if TYPE_CHECKING` style overloads
(which have no effect at run time).
"""
import ast

DV = 'dv__'


def name(n):
    return ast.Name(n, ast.Load())


def dv(attr):
    return ast.Attribute(name(DV), attr, ast.Load())


def const(v):
    return ast.Constant(v)


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.functions = []

    def id(self, node):
        return const(f'{self.mod}:{node.lineno}:{node.col_offset}')

    # ---- functions
    def _func(self, node):
        self.functions.append(node.name)
        node.returns = None
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs + [node.args.vararg, node.args.kwarg]:
            if a is not None:
                a.annotation = None
        self.generic_visit(node)
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            node.body = node.body[1:] or [ast.Pass()]
        pre = []
        if node.args.vararg and node.args.kwarg:
            t = ast.Tuple([ast.Name(node.args.vararg.arg, ast.Store()), ast.Name(node.args.kwarg.arg, ast.Store())], ast.Store())
            pre.append(ast.Assign([t], ast.Call(dv('varargs'), [name(node.args.vararg.arg), name(node.args.kwarg.arg)], [])))
        elif node.args.vararg:
            pre.append(ast.Assign([ast.Name(node.args.vararg.arg, ast.Store())],
                                  ast.Call(dv('varargs1'), [name(node.args.vararg.arg)], [])))
        node.body = pre + node.body
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        body, node.body = node.body, []
        self.generic_visit(node)
        for x in body:
            if isinstance(x, ast.AnnAssign):    # dataclasses, NamedTuple etc. need to know the names
                x.annotation = const('object')
                if x.value is not None:
                    x.value = self.visit(x.value)
                node.body.append(x)
            else:
                node.body.append(self.visit(x))
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.Pass()
        return ast.Assign([node.target], node.value)

    # ---- loops
    def visit_While(self, node):
        i = self.id(node)
        self.generic_visit(node)
        node.test = ast.BoolOp(ast.And(), [ast.Call(dv('head'), [i], []), node.test])
        return node

    def visit_For(self, node):
        i = self.id(node)
        self.generic_visit(node)
        node.iter = ast.Call(dv('it'), [i, node.iter], [])
        return node

    def visit_AsyncFor(self, node):
        i = self.id(node)
        self.generic_visit(node)
        node.iter = ast.Call(dv('ait'), [i, node.iter], [])
        return node

    # ---- displays and comprehensions
    def _plain(self, node):
        for x in ast.walk(node):
            if isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
                return False
        return not any(g.is_async for g in node.generators)

    def _comp(self, node, kind, elt):
        i = self.id(node)
        if len(node.generators) != 1 or not self._plain(node):
            self.generic_visit(node)
            if kind == 'gen':
                return node
            return ast.Call(dv(f'mk_{kind}'), [node], [])
        g = node.generators[0]
        it = self.visit(g.iter)
        inner = ast.ListComp(self.visit(elt), [ast.comprehension(g.target, ast.Tuple([name('dv__e')], ast.Load()),
                                                                 [self.visit(c) for c in g.ifs], 0)])
        lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg('dv__e')], kwonlyargs=[], kw_defaults=[], defaults=[]), inner)
        return ast.Call(dv('comp'), [const(kind), i, it, lam], [])

    def visit_ListComp(self, node):
        return self._comp(node, 'list', node.elt)

    def visit_SetComp(self, node):
        return self._comp(node, 'set', node.elt)

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen', node.elt)

    def visit_DictComp(self, node):
        return self._comp(node, 'dict', ast.Tuple([node.key, node.value], ast.Load()))

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(dv('mk_list'), [node], []), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(dv('mk_set'), [ast.List(node.elts, ast.Load())], []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs, parts = [], []
        for k, v in zip(node.keys, node.values):
            if k is None:
                if pairs:
                    parts.append(ast.List(pairs, ast.Load()))
                pairs = []
                parts.append(v)
            else:
                pairs.append(ast.Tuple([k, v], ast.Load()))
        if pairs:
            parts.append(ast.List(pairs, ast.Load()))
        return ast.copy_location(ast.Call(dv('mk_dict'), parts, []), node)

    # ---- calls
    def visit_Call(self, node):
        self.generic_visit(node)
        if any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
            args = [ast.Call(dv('star'), [a.value], []) if isinstance(a, ast.Starred) else a for a in node.args]
            kws = []
            for k in node.keywords:
                if k.arg is None:
                    args.append(ast.Call(dv('dstar'), [k.value], []))
                else:
                    kws.append(k)
            return ast.copy_location(ast.Call(dv('call'), [node.func] + args, kws), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(ast.Tuple([v.value, const(v.conversion), const(bool(v.format_spec))], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(dv('fstr'), parts, []), node)


def instrument(src, path, modname):
    tree = ast.parse(src, path)
    t = T(modname)
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True), t.functions
