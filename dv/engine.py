"""Deductive engine: path-wise verification-condition generation over the real, mechanically instrumented code.

The code under /repo/aiuti is parsed on every run, instrumented (instrument.py) and executed by CPython itself on
*symbolic* arguments and *contract models* of its dependencies.  Every operation whose outcome depends on unknown data
asks the current Run: `branch` (z3 decides which outcomes are feasible under the path condition), `choose` (finite case
split of a contract), `check` (a proof obligation; z3 has to refute its negation).  All combinations are explored by
re-execution.

Loops and suspension points are cut points: the abstract state (all frames, all reachable model objects, path condition
over live symbols) is computed in canonical form; a state covered by one that was already met there (same shape, path
condition implied -- a z3 query) is not continued.  When exploration ends, the set of states met at a cut point is an
invariant of that point: it holds on entry and every path from it leads back into it.  Numeric symbols owned by model
objects are forgotten at cut points except for the declared invariants (`Widen`), unbounded collections are represented
by focus elements and runs of others (focus.py), so the sets are finite and nothing is bounded.
"""
import ast, dis, gc, hashlib, marshal, os, sys, types, time, functools, collections, itertools, weakref
import z3

ENGINE_FILES = set()


class PathEnd(BaseException):
    """This path needs no further exploration."""


class Unsupported(BaseException):
    """The code does something the engine has no contract for (never lost, even if the code catches it)."""

    def __init__(self, msg):
        super().__init__(msg)
        r = _cur
        if r is not None and not r.dead:
            r.dead = True
            r.unsup = f'{msg} [{" < ".join(r._where()[:4])}]'


def collect():
    """Garbage collection in the middle of a path: whatever is finalized must not take part in it."""
    global _cur
    r = _cur
    d = _cur = Run(r.eng, [])
    d.dead = True
    try:
        gc.collect()
    finally:
        _cur = r


class Limit(Exception):
    pass


_cur = None


def cur():
    return _cur


class Obligation:
    __slots__ = ('name', 'props', 'ok', 'z3', 'bad', 'unknown', 'time')

    def __init__(self, name):
        self.name, self.ok, self.z3, self.bad, self.unknown, self.time = name, 0, 0, [], 0, 0.0


class Report:
    """Everything one verification task produced."""

    def __init__(self, name):
        self.name = name
        self.obl = {}
        self.undecided = []
        self.paths = self.cuts = self.covered = self.queries = 0
        self.solver_time = 0.0
        self.reached = set()
        self.functions = set()

    def ob(self, name):
        if name not in self.obl:
            self.obl[name] = Obligation(name)
        return self.obl[name]


class Run:
    def __init__(self, eng, prefix, node=None):
        self.eng, self.prefix, self.trail, self.pos = eng, prefix, [], 0
        self.stop_at = None
        self.node = node            # abstract state this path continues from
        self.env = False            # a step since then is one nobody may count on
        self.pending = ()           # what has to happen some time (world's names)
        self.pc = []
        self.solver = None
        self.dead = False
        self.trace = []
        self.nsym = 0
        self.world = None
        self.frames_base = None
        self.active = []
        self.fresh_ids = 0
        self.cutno = 0
        self.unsup = None
        self.syms = []

    # ---------------------------------------------------------------- basic
    def _dv_state(self):
        return ()

    def alive(self):
        if self.dead:
            raise PathEnd

    def end(self):
        self.dead = True
        raise PathEnd

    def note(self, *a):
        if not self.dead:
            self.trace.append(' '.join(map(str, a)))

    def path(self):
        return [x if isinstance(x, str) else f'{x[0]} is {x[1]}' for x in self.trace[-60:]]

    def fresh(self, name, sort='Int'):
        self.nsym += 1
        n = f'{name}!{self.nsym}'
        return {'Int': z3.Int, 'Real': z3.Real, 'Bool': z3.Bool, 'String': z3.String}[sort](n)

    def _solve(self, extra):
        s = z3.Solver()
        s.set('timeout', self.eng.z3_timeout)
        s.add(*self.pc)
        s.add(*extra)
        t = time.perf_counter()
        r = s.check()
        self.eng.report.solver_time += time.perf_counter() - t
        self.eng.report.queries += 1
        return r, s

    def choose(self, n, label=''):
        """Case split over n alternatives allowed by a contract."""
        self.alive()
        if n <= 1:
            return 0
        if self.pos == self.stop_at:
            self.end()
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
            self.eng.todo.extend((self.trail + [i], self.node) for i in range(n - 1, 0, -1))
        self.pos += 1
        self.trail.append(c)
        if label:
            self.note(f'{label}={c}' if not isinstance(label, (list, tuple)) else label[c])
        return c

    def decide(self, fn):
        """Something about the state, computed once (when the path is first explored)."""
        self.alive()
        c = self.prefix[self.pos] if self.pos < len(self.prefix) else int(bool(fn()))
        self.pos += 1
        self.trail.append(c)
        return bool(c)

    def pick(self, options, label=''):
        options = list(options)
        return options[self.choose(len(options), [f'{label}: {o}' for o in options] if label else '')]

    def branch(self, cond, label=''):
        """Truth value of a symbolic condition on this path."""
        self.alive()
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(c)
            if c < 2:
                self.pc.append(cond if c == 0 else z3.Not(cond))
            v = c in (0, 2)
        else:
            if any(p.eq(cond) for p in self.pc):
                rt, rf = z3.sat, z3.unsat
            else:
                rt, _ = self._solve([cond])
                rf, _ = self._solve([z3.Not(cond)])
            if z3.unknown in (rt, rf):
                raise Unsupported(f'solver gave up on branch {cond}')
            if rt == z3.unsat and rf == z3.unsat:
                self.end()
            # 0/1: split, 2/3: forced true/false
            if rf == z3.unsat:
                c = 2
            elif rt == z3.unsat:
                c = 3
            else:
                c = 0
                self.eng.todo.append((self.trail + [1], self.node))
            self.pos += 1
            self.trail.append(c)
            if c == 0:
                self.pc.append(cond)
            v = c in (0, 2)
        self.trace.append((label or cond, v))
        return v

    def known(self, cond):
        """Does the path condition imply cond?"""
        key = (tuple(sorted(p.get_id() for p in self.pc)), cond.get_id())
        c = self.eng.known.get(key)
        if c is None:
            r, _ = self._solve([z3.Not(cond)])
            c = self.eng.known[key] = (r == z3.unsat, list(self.pc), cond)
        return c[0]

    def assume(self, cond):
        self.alive()
        if cond is True:
            return
        if cond is False:
            self.end()
        self.pc.append(cond)
        if self.pos >= len(self.prefix):
            r, _ = self._solve([])
            if r == z3.unsat:
                self.end()

    # ---------------------------------------------------------------- obligations
    def check(self, name, cond=True, msg=''):
        """Proof obligation: cond holds whenever this point is reached."""
        self.alive()
        if isinstance(cond, SymBool):
            cond = cond.z
        if self.eng.props and not self.eng.props.intersection(name.split('.')[0].split('+')):
            return
        o = self.eng.report.ob(name)
        if self.pos < len(self.prefix):     # already discharged on the path this one was split from
            if cond is False:
                self.end()
            return
        if isinstance(cond, bool) or cond is None:
            if cond:
                o.ok += 1
            else:
                self._refuted(o, msg, None)
            return
        t = time.perf_counter()
        r, s = self._solve([z3.Not(cond)])
        o.time += time.perf_counter() - t
        o.z3 += 1
        if r == z3.unsat:
            o.ok += 1
        elif r == z3.sat:
            self._refuted(o, msg or str(cond), s.model())
        else:
            o.unknown += 1
            self.eng.report.undecided.append(f'{name}: solver gave up on {cond}')

    def fail(self, name, msg=''):
        self.check(name, False, msg)

    def _refuted(self, o, msg, model):
        if len(o.bad) < 3:
            o.bad.append({'message': msg, 'path': self.path(), 'model': str(model) if model is not None else None,
                          'where': self._where()})
        else:
            o.bad.append(None)
        self.end()

    def _where(self):
        out = []
        f = sys._getframe(2)
        while f is not None and f is not self.frames_base:
            if f.f_code.co_filename.startswith(self.eng.root):
                out.append(f'{f.f_code.co_filename[len(self.eng.root) + 1:]}:{f.f_lineno} {f.f_code.co_name}')
            f = f.f_back
        return out

    # ---------------------------------------------------------------- cut points
    def cut(self, where, extra=(), frame=None):
        """Cut point: stop here if the state is covered by one met before at this point."""
        self.alive()
        if getattr(self.world, 'nested', False):
            return
        self.cutno += 1
        if self.world is not None:
            w = getattr(self.world, 'widen', None)
            if w is not None:
                w(self)
        if self.pos < len(self.prefix):
            self.env = False
            return
        frames = []
        f = frame or sys._getframe(1)
        while f is not None and f is not self.frames_base:
            if f.f_code.co_filename not in ENGINE_FILES:
                frames.append(f)
            f = f.f_back
        self._cut(where, frames, extra)

    def mid_cut(self, extra=()):
        """Cut point inside an operation of a contract model, called anywhere in the code.  The state has the frames of
        the model as well.  Only where no intermediate value of an expression is pending; returns False otherwise."""
        self.alive()
        self.cutno += 1
        frames, n = [], 0
        f = sys._getframe(1)
        while f is not None and f is not self.frames_base:
            frames.append(f)
            if f.f_code.co_filename not in ENGINE_FILES:
                if n and any(x.f_code.co_name not in ('call', 'throw', 'send') for x in frames[n:-1]) or not clean(f):
                    return False
                n = len(frames)
            f = f.f_back
        if self.pos < len(self.prefix):
            self.env = False
            return True
        self._cut('mid', frames[:n], tuple(self.active) + tuple(extra))
        return True

    def _cut(self, where, frames, extra):
        c = Canon(self)
        try:
            key = c.state(where, frames, (self.world,) + tuple(extra))
        except RecursionError:
            raise Unsupported('state too deep')
        try:
            key = hashlib.blake2b(marshal.dumps(key, 2), digest_size=20).digest()
        except ValueError:
            key = hashlib.blake2b(repr(key).encode(), digest_size=20).digest()
        live = {s.get_id() for s in c.symvars}
        pcs = self._live_pc(live, c)
        self.eng.report.cuts += 1
        seen = self.eng.visited.setdefault((where, key), [])
        mine = frozenset(pcs)
        for old, oldexprs, node in seen:
            if old == mine or old < mine and not self.pending:
                self.eng.report.covered += 1
                self.edge(node)
                self.node = -1
                self.end()
        for old, oldexprs, node in seen:
            if not self.pending and oldexprs is not None and self._implied(oldexprs, c):
                self.eng.report.covered += 1
                self.edge(node)
                self.node = -1
                self.end()
        node = len(self.eng.nodes)
        self.eng.nodes.append((tuple(self.pending), self.trail[:] if self.pending else None))
        self.edge(node)
        self.node, self.env = node, False
        seen.append((mine, self._abstract(c, pcs), node))
        if len(seen) > (400 if self.pending else 40):
            raise Unsupported(f'no invariant found at {where} (path conditions do not converge)')
        if len(self.eng.visited) > self.eng.max_states:
            raise Limit(f'more than {self.eng.max_states} abstract states')

    def edge(self, node):
        """Liveness bookkeeping: this path leads from its last abstract state to that one (None: to its end)."""
        if self.node is not None and self.node >= 0 and not self.env:
            self.eng.edges.setdefault(node, set()).add(self.node)

    def _live_pc(self, live, c):
        """Constraints over the symbols still reachable, in canonical names."""
        out = set()
        self._pc_exprs = []
        # transitive closure: constraints sharing symbols with live ones
        todo = [(p, {v.get_id(): v for v in z3vars(p)}) for p in self.pc]
        livekeys = set(c.names)
        changed = True
        chosen = []
        rest = todo
        while changed:
            changed = False
            nrest = []
            for p, vs in rest:
                names = {vname(v) for v in vs.values()}
                if names & livekeys or not names:
                    for n in names:
                        if n not in livekeys:
                            livekeys.add(n)
                            c.name(n)
                            changed = True
                    chosen.append(p)
                else:
                    nrest.append((p, vs))
            rest = nrest
        for p in chosen:
            s = c.rename(p)
            out.add(s)
            self._pc_exprs.append(p)
        return out

    def _abstract(self, c, pcs):
        return c.renamed_exprs(self._pc_exprs)

    def _implied(self, old, c):
        """PC => old constraints (old in canonical names; same shape, so names correspond)."""
        back = c.back()
        goal = []
        for p in old:
            for v in z3vars(p):
                if vname(v) not in back:
                    return False
            goal.append(z3.substitute(p, *[(v, back[vname(v)]) for v in z3vars(p)]))
        if not goal:
            return True
        r, _ = self._solve([z3.Not(z3.And(*goal))])
        return r == z3.unsat


_clean = {}
_trees = {}


def _simple(n):
    """Expression that is a function of local names (which are part of the state)."""
    if isinstance(n, ast.Attribute):
        return _simple(n.value)
    return isinstance(n, (ast.Name, ast.Constant))


def clean(f):
    """No intermediate value of an enclosing expression is pending while frame f waits at its current instruction."""
    code, i = f.f_code, f.f_lasti
    k = (code, i)
    if k in _clean:
        return _clean[k]
    fn = code.co_filename
    if fn not in _trees:
        try:
            with open(fn) as h:
                t = ast.parse(h.read())
        except OSError:
            t = ast.Module([], [])
        par = {}
        for n in ast.walk(t):
            for ch in ast.iter_child_nodes(n):
                par[ch] = n
        byp = {}
        for n in ast.walk(t):
            if hasattr(n, 'lineno'):
                byp.setdefault((n.lineno, n.end_lineno, n.col_offset, n.end_col_offset), []).append(n)
        _trees[fn] = par, byp
    par, byp = _trees[fn]
    pos = next(itertools.islice(code.co_positions(), i // 2, None))
    ok = False
    ns = byp.get(pos)
    if ns:
        ok, n = True, ns[-1]
        while n in par and not isinstance(n, (ast.stmt, ast.Lambda, ast.comprehension)):
            p = par[n]
            if isinstance(p, (ast.BoolOp, ast.IfExp, ast.stmt, ast.withitem, ast.NamedExpr, ast.Lambda)):
                if isinstance(p, ast.AugAssign) and n is p.value and not isinstance(p.target, ast.Name):
                    ok = False
            else:
                for ch in ast.iter_child_nodes(p):
                    if ch is n:
                        break
                    if isinstance(ch, ast.expr) and not _simple(ch):
                        ok = False
            n = p
    _clean[k] = ok
    return ok


def pending(o, f):
    """Values on the evaluation stack of a suspended coroutine or generator (and the exception it is handling)."""
    loc = f.f_locals
    drop = [loc, f.f_code, f.f_globals, f.f_builtins, f, o.__name__, o.__qualname__, *loc.values()]
    out = []
    for x in gc.get_referents(o):
        for i, d in enumerate(drop):
            if d is x:
                del drop[i]
                break
        else:
            if not (isinstance(x, types.FunctionType) and x.__code__ is f.f_code or isinstance(x, (types.CellType, types.FrameType))):
                out.append(x)
    if out and out[-1] is None:     # exception state: none
        out.pop()
    return out


_live = {}
_END = {'RETURN_VALUE', 'RETURN_CONST', 'RAISE_VARARGS', 'RERAISE', 'JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT',
        'RETURN_GENERATOR_', 'INTERPRETER_EXIT'}


def live_locals(f):
    """Local names the rest of frame f may still read."""
    code = f.f_code
    lv = _live.get(code)
    if lv is None:
        ins = list(dis.get_instructions(code))
        at = {i.offset: n for n, i in enumerate(ins)}
        exc = dis._parse_exception_table(code)
        succ = []
        for n, i in enumerate(ins):
            s = []
            if i.opname not in _END and n + 1 < len(ins):
                s.append(n + 1)
            if i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
                s.append(at[i.argval])
            s += [at[e.target] for e in exc if e.start <= i.offset < e.end]
            succ.append(s)
        lin = [frozenset()] * len(ins)
        out = [frozenset()] * len(ins)
        ch = True
        while ch:
            ch = False
            for n in range(len(ins) - 1, -1, -1):
                i = ins[n]
                o = frozenset().union(*[lin[x] for x in succ[n]]) if succ[n] else frozenset()
                if i.opname in ('STORE_FAST', 'DELETE_FAST'):
                    l = o - {i.argval}
                elif 'FAST' in i.opname:
                    l = o | ({i.argval} if isinstance(i.argval, str) else set(i.argval))
                else:
                    l = o
                if o != out[n] or l != lin[n]:
                    out[n], lin[n], ch = o, l, True
        lv = _live[code] = ({i.offset: out[n] for n, i in enumerate(ins)}, frozenset(code.co_cellvars + code.co_freevars))
    if f.f_lasti < 0:
        return None
    o = lv[0].get(f.f_lasti)
    return None if o is None else o | lv[1]


_zv = {}


_vn = {}


def vname(v):
    i = v.get_id()
    c = _vn.get(i)
    if c is None:
        c = _vn[i] = (v, str(v))
    return c[1]


def z3vars(e):
    i = e.get_id()
    c = _zv.get(i)
    if c is None:
        if len(_zv) > 100000:
            _zv.clear()
        c = _zv[i] = (e, _z3vars(e))
    return c[1]


def _z3vars(e):
    out, seen, todo = {}, set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[i] = x
        else:
            todo.extend(x.children())
    return list(out.values())


# ------------------------------------------------------------------------------------------------ canonical states

SKIP = (types.ModuleType, type, types.BuiltinFunctionType, types.WrapperDescriptorType, types.MethodDescriptorType,
        types.MethodWrapperType)


_kind = {}
_PRIM = (bool, int, float, str, bytes, complex)


def classify(t):
    if t in (type(None), type(Ellipsis), type(NotImplemented)):
        return 0
    if t in _PRIM:
        return 1
    if issubclass(t, (SymBool, SymNum, SymStr)):
        return 2
    if issubclass(t, z3.ExprRef):
        return 3
    if issubclass(t, type):
        return 4
    if issubclass(t, SKIP):
        return 5
    if getattr(t, '_dv_state', None) is not None:
        return 6
    if t in (tuple, list, collections.deque):
        return 7
    return 8


_ren = {}


class Canon:
    """Canonical form of the reachable state: objects are numbered in order of discovery."""

    def __init__(self, run):
        self.run = run
        self.drop_dead = getattr(run.world, 'drop_dead', False)
        self.ids = {}
        self.keep = []
        self.names = {}         # z3 variable name -> canonical name
        self.symvars = []
        self.syms = []
        self.sorts = {}

    def name(self, n):
        if n not in self.names:
            self.names[n] = f'v{len(self.names)}'
        return self.names[n]

    def state(self, where, frames, roots):
        out = [where]
        for f in frames:
            out.append(self.frame(f, top=f is frames[0]))
        for r in roots:
            out.append(self.obj(r))
        return tuple(out)

    def frame(self, f, top=False):
        loc = []
        live = live_locals(f) if self.drop_dead else None
        for k, v in sorted(f.f_locals.items()):
            if k.startswith('dv__') or live is not None and k not in live:
                continue
            loc.append((k, self.obj(v)))
        return ('frame', f.f_code.co_qualname, f.f_code.co_firstlineno, f.f_lasti, tuple(loc))

    def z3(self, e):
        for v in sorted(z3vars(e), key=lambda v: vname(v)):
            pass
        vs = z3vars_ordered(e) if not z3.is_const(e) else z3vars(e)
        for v in vs:
            self.name(vname(v))
            self.sorts[vname(v)] = v
            self.symvars.append(v)
        return ('z3', self.rename(e))

    def rename(self, e):
        vs = z3vars(e)
        if not vs:
            return e.sexpr()
        for v in vs:
            self.sorts[vname(v)] = v
        k = (e.get_id(), tuple([self.name(vname(v)) for v in vs]), 0)
        c = _ren.get(k)
        if c is None:
            x = z3.substitute(e, *[(v, z3.Const(n, v.sort())) for v, n in zip(vs, k[1])])
            c = _ren[k] = (e, z3.simplify(x).sexpr())
        return c[1]

    def renamed_exprs(self, es):
        out = []
        for e in es:
            vs = z3vars(e)
            k = (e.get_id(), tuple([self.name(vname(v)) for v in vs]), 1)
            c = _ren.get(k)
            if c is None:
                c = _ren[k] = (e, z3.substitute(e, *[(v, z3.Const(n, v.sort())) for v, n in zip(vs, k[1])]) if vs else e)
            out.append(c[1])
        return out

    def back(self):
        return {c: self.sorts[n] for n, c in self.names.items() if n in self.sorts}

    def obj(self, o):
        t = type(o)
        k = _kind.get(t)
        if k is None:
            k = _kind[t] = classify(t)
        if k == 1:
            return (t.__name__, o)
        if k == 0:
            return str(o)
        if k == 2:
            return self.z3(o.z)
        if k == 3:
            return self.z3(o)
        if k == 4:
            return ('type', o.__module__, o.__qualname__, o.__dict__.get('_dv_cls'))
        if k == 5:
            return ('id', getattr(o, '__qualname__', None) or getattr(o, '__name__', None),
                    self.obj(o.__self__) if t is types.BuiltinFunctionType and o.__self__ is not None
                    and not isinstance(o.__self__, types.ModuleType) else None)
        i = id(o)
        if i in self.ids:
            return ('ref', self.ids[i])
        self.ids[i] = n = len(self.ids)
        self.keep.append(o)
        obj = self.obj
        if k == 6:
            return (n, t.__name__, tuple([obj(x) for x in t._dv_state(o)]))
        if k == 7:
            return (n, t.__name__, tuple([obj(x) for x in o]))
        if t is dict or isinstance(o, types.MappingProxyType):
            return (n, 'dict', tuple((self.obj(k), self.obj(v)) for k, v in o.items()))
        if t in (set, frozenset):
            return (n, t.__name__, tuple(sorted((self.obj(x) for x in o), key=repr)))
        if t is types.FunctionType:
            cells = []
            for nm, c in zip(o.__code__.co_freevars, o.__closure__ or ()):
                try:
                    cells.append((nm, self.obj(c.cell_contents)))
                except ValueError:
                    cells.append((nm, 'empty'))
            return (n, 'func', o.__code__.co_qualname, o.__code__.co_firstlineno, tuple(cells),
                    self.obj(o.__defaults__), self.obj(o.__kwdefaults__))
        if t is types.CellType:
            try:
                return (n, 'cell', self.obj(o.cell_contents))
            except ValueError:
                return (n, 'cell', 'empty')
        if t is types.MethodType:
            return (n, 'method', self.obj(o.__func__), self.obj(o.__self__))
        if t is functools.partial:
            return (n, 'partial', self.obj(o.func), self.obj(o.args), self.obj(o.keywords))
        for a, fr in (('cr_frame', 'coro'), ('gi_frame', 'gen'), ('ag_frame', 'agen')):
            if hasattr(o, a) and t in (types.CoroutineType, types.GeneratorType, types.AsyncGeneratorType):
                f = getattr(o, a)
                # (peeking at the stack of a running frame is not safe)
                w = getattr(o, a[:3] + ('await' if a != 'gi_frame' else 'yieldfrom'), None) if not getattr(
                    o, a[:3] + 'running') and f is not None and f.f_lasti >= 0 else None
                st = ()
                if f is not None and not getattr(o, a[:3] + 'running') and f.f_lasti >= 0:
                    st = tuple(self.obj(x) for x in pending(o, f))
                return (n, fr, self.frame(f) if f is not None else 'done', self.obj(w) if w is not None else None, st)
        if isinstance(o, BaseException):
            return (n, t.__name__, tuple(self.obj(x) for x in o.args), tuple(
                (k, self.obj(v)) for k, v in sorted(o.__dict__.items())))
        d = getattr(o, '__dict__', None)
        if d is not None:
            return (n, t.__qualname__, tuple((k, self.obj(v)) for k, v in sorted(d.items())))
        if t is object:
            return (n, 'object')
        sl = [s for k in t.__mro__ for s in getattr(k, '__slots__', ())]
        if sl:
            return (n, t.__qualname__, tuple((s, self.obj(getattr(o, s, None))) for s in sl if s != '__weakref__'))
        return (n, t.__qualname__, 'opaque')


def z3vars_ordered(e):
    out, seen = [], set()

    def go(x):
        i = x.get_id()
        if i in seen:
            return
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        for c in x.children():
            go(c)
    go(e)
    return out


# ------------------------------------------------------------------------------------------------ symbolic scalars

class SymBool:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return cur().branch(self.z)

    def __repr__(self):
        return f'<{self.z}>'

    def __eq__(self, o):
        return SymBool(self.z == (o.z if isinstance(o, SymBool) else bool(o)))

    def __ne__(self, o):
        return SymBool(self.z != (o.z if isinstance(o, SymBool) else bool(o)))

    __hash__ = None


def num(x):
    if isinstance(x, SymNum):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported(f'float {x} in symbolic arithmetic')
        return z3.RealVal(str(x))
    if isinstance(x, z3.ExprRef):
        return x
    return NotImplemented


def _arith(name, cmp=False, refl=False):
    def op(self, o):
        b = num(o)
        if b is NotImplemented:
            return NotImplemented
        a = self.z
        if refl:
            a, b = b, a
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'lt': lambda: a < b, 'le': lambda: a <= b,
             'gt': lambda: a > b, 'ge': lambda: a >= b, 'eq': lambda: a == b, 'ne': lambda: a != b,
             'truediv': lambda: z3.ToReal(a) / b if a.is_int() else a / b}[name]()
        return SymBool(r) if cmp else SymNum(r)
    return op


def live_syms(run):
    """Symbolic numbers the program still holds."""
    out = [s for s in (w() for w in run.syms) if s is not None]
    run.syms = [w for w in run.syms if w() is not None]
    return out


class SymNum:
    """Mathematical integer or real."""
    __slots__ = ('z', '__weakref__')

    def __init__(self, z):
        self.z = z
        if _cur is not None:
            _cur.syms.append(weakref.ref(self))

    def __deepcopy__(self, memo):
        return SymNum(self.z)

    for _n in ('add', 'sub', 'mul', 'truediv'):
        locals()[f'__{_n}__'] = _arith(_n)
        locals()[f'__r{_n}__'] = _arith(_n, refl=True)
    for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        locals()[f'__{_n}__'] = _arith(_n, cmp=True)
    del _n

    def __neg__(self):
        return SymNum(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.z >= 0, self.z, -self.z))

    def __bool__(self):
        return cur().branch(self.z != 0)

    def __repr__(self):
        return f'<{self.z}>'

    def __format__(self, spec):
        return repr(self)

    def __index__(self):
        raise Unsupported('symbolic number used as an index')

    def __hash__(self):
        raise Unsupported('symbolic number hashed')

    def __float__(self):
        raise Unsupported('float() of a symbolic number')


class SymStr:
    """Placeholder; strings live in focus_str."""
    __slots__ = ('z',)


# ------------------------------------------------------------------------------------------------ exploration

class Engine:
    def __init__(self, name, root, max_paths=20000, max_time=120, z3_timeout=10000, max_states=200000, props=()):
        self.props = set(props)
        self.report = Report(name)
        self.root = root
        self.todo = []
        self.nodes, self.edges = [], {}
        self.visited = {}
        self.bfs = False
        self.stop = bool(props) or bool(os.environ.get('DV_STOP'))
        self.memo = {}
        self.known = {}
        self.max_paths, self.max_time, self.z3_timeout, self.max_states = max_paths, max_time, z3_timeout, max_states

    def explore(self, body):
        """body(run) executes one path; explores all of them."""
        global _cur
        t0 = time.perf_counter()
        gc.collect()
        gc.freeze()
        gc.disable()
        sys.unraisablehook = lambda *a: None
        self.todo = collections.deque([([], None)])
        rep = self.report
        while self.todo:
            prefix, node = self.todo.popleft() if self.bfs else self.todo.pop()
            run = Run(self, prefix, node)
            _cur = run
            _kind.clear()           # (holds classes of the last path)
            try:
                run.frames_base = sys._getframe(0)
                body(run)
            except (PathEnd, Unsupported):
                pass
            except Limit as e:
                rep.undecided.append(str(e))
                break
            except RecursionError as e:
                rep.undecided.append(f'recursion: {_tb(e, self.root)}')
            except BaseException as e:
                if not run.dead:
                    if isinstance(e, KeyboardInterrupt):
                        raise
                    rep.undecided.append(f'engine: {type(e).__name__}: {e} at {_tb(e, self.root)}')
                    if len(rep.undecided) > 25:
                        break
            run.dead = True
            run.world = None
            run.edge(None)
            if run.unsup is not None:
                rep.undecided.append(run.unsup)
                if len(rep.undecided) > 25:
                    break
            rep.paths += 1
            if self.stop and sum(len(o.bad) for o in rep.obl.values()) >= 5:
                rep.undecided.append('stopped: refuted')
                break
            if rep.paths % 40 == 0:
                gc.collect()
                gc.freeze()
            if rep.paths > self.max_paths or time.perf_counter() - t0 > self.max_time:
                rep.undecided.append(f'budget: {rep.paths} paths, {len(self.todo)} left, {time.perf_counter() - t0:.0f}s')
                break
        if not rep.undecided:
            self.liveness(body)
        return rep

    def liveness(self, body):
        """From every abstract state in which something is pending, steps that can be counted on lead to one in which it
        is not."""
        global _cur
        names = {n for p, _ in self.nodes for n in p}
        for name in sorted(names):
            if self.props and not self.props.intersection(name.split('.')[0].split('+')):
                continue
            good = {None} | {i for i, (p, _) in enumerate(self.nodes) if name not in p}
            todo = list(good)
            while todo:
                for i in self.edges.get(todo.pop(), ()):
                    if i not in good:
                        good.add(i)
                        todo.append(i)
            o = self.report.ob(name)
            bad = [i for i in range(len(self.nodes)) if i not in good]
            o.ok += len(self.nodes) - len(bad)
            for i in bad[:2]:
                run = Run(self, self.nodes[i][1] + [0] * 60, None)
                _cur = run
                _kind.clear()
                run.stop_at = len(self.nodes[i][1])
                run.frames_base = sys._getframe(0)
                try:
                    body(run)
                except BaseException:
                    pass
                run.dead = True
                o.bad.append({'message': 'no steps that can be counted on lead out of this state', 'path': run.path(), 'model': None, 'where': []})
            o.bad += [None] * (len(bad) - len(bad[:2]))


def _tb(e, root):
    out = []
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        out.append(f'{fn.rsplit("/", 1)[-1]}:{tb.tb_lineno}')
        tb = tb.tb_next
    return ' > '.join(out[-7:])


ENGINE_FILES.add(__file__)
