"""Symbolic interpreter / verification-condition generator for the Python subset
used by CADMium.  It interprets the AST of the functions as they stand in /repo."""
import ast, os, sys, types, inspect, dataclasses, math, warnings, builtins, operator
from fractions import Fraction
import numpy as np
from .terms import *
from . import terms as T
from . import solve
from .solve import Ctx
from .values import *

REPO = os.environ.get('PYVC_REPO', '/repo')
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs') + os.sep


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Truncated(Exception):
    """while-loop bound reached on this path"""


_astcache = {}


def module_ast(path):
    r = _astcache.get(path)
    if r is None:
        src = open(path).read()
        tree = ast.parse(src, path)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = min(d.lineno for d in n.decorator_list)
                idx.setdefault((getattr(n, 'name', '<lambda>'), ln), n)
        r = (tree, idx)
        _astcache[path] = r
    return r


def is_repo_fn(f):
    return isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith((REPO + os.sep, STUBS))


def is_repo_cls(c):
    return isinstance(c, type) and (c.__module__ or '').split('.')[0] == 'CADMium'


def fn_node(f):
    tree, idx = module_ast(f.__code__.co_filename)
    n = idx.get((f.__code__.co_name, f.__code__.co_firstlineno))
    if n is None:
        raise Unsupported(f'no source for {f.__qualname__}')
    return n


def qual(f):
    return f'{f.__module__}:{f.__qualname__}'


def subst_atoms(p, a):
    """p with the atom a replaced by zero"""
    return mkpoly({m: c for m, c in p.t.items() if all(b is not a for b, e in m)})


class Interp:
    def __init__(self, contracts=None):
        self.contracts = contracts or {}
        self.ctx = Ctx()
        self.decisions = []
        self.dpos = 0
        self.trail = []           # (cond, value)
        self.merge = 0
        self.loopdepth = 0
        self.obligations = []     # (name, ctx, B or callable result)
        self.externals = set()
        self.inlined = set()
        self.used_contracts = set()
        self.while_bound = 2
        self.assumed = set()
        self.callstack = []
        self.loops = 0
        self.skip_contract = None
        from . import npmodel
        self.np = npmodel

    # ------------------------------------------------------------ decisions
    def decide(self, b):
        """concrete truth value of b on this path (forks)"""
        if isinstance(b, bool):
            return b
        d = self.ctx.decide(b)
        if d is not None:
            return d
        b2 = self.normal(b)
        if b2 is not b:
            d = self.ctx.decide(b2)
            if d is not None:
                return d
            b = b2
        if self.merge or self.loopdepth:
            raise NeedFork(b)
        return self.fork(b)

    def normal(self, b):
        """the condition with index ranges applied inside sums and maxima"""
        if b.op in ('le', 'lt', 'eq') and any(a.kind in ('sum', 'big', 'ext') for a in solve.atoms_of(b.args[0])):
            p = solve.simplify_binders(b.args[0], self.ctx)
            if p is not b.args[0]:
                return {'le': le, 'lt': lt, 'eq': eq}[b.op](p, ZERO)
        if b.op == 'not':
            x = self.normal(b.args[0])
            return b if x is b.args[0] else bnot(x)
        return b

    def fork(self, b):
        if isinstance(b, bool):
            return b
        if self.dpos < len(self.decisions):
            v = self.decisions[self.dpos]
        else:
            v = True
            self.decisions.append(True)
        self.dpos += 1
        self.trail.append((b, v))
        self.ctx = self.ctx.with_(b if v else bnot(b))
        return v

    def require(self, b, what):
        """obligation: b must hold here"""
        if isinstance(b, bool):
            b = mkbool(b)
        ok = self.ctx.prove(b)
        self.obligations.append((what, ok, b, self.ctx))
        return ok

    def truth(self, v):
        """python truth value as bool or B"""
        if isinstance(v, SB):
            return v.b
        if isinstance(v, SV):
            return bnot(eq0(v.p))
        if isinstance(v, Arr):
            if all(s.intval() == 1 for s in v.shape):
                x = v.get(*[ZERO for _ in v.shape])
                return x if isinstance(x, B) else bnot(eq0(x))
            if len(v.shape) == 0:
                x = v.get()
                return x if isinstance(x, B) else bnot(eq0(x))
            ns = [s.intval() for s in v.shape]
            raise PyExc('ValueError', 'truth value of an array is ambiguous')
        if isinstance(v, (PList, PDict)):
            return len(v.st) > 0
        if isinstance(v, (Poison,)):
            raise Unsupported(v.why)
        if isinstance(v, OpaqueStr):
            raise Unsupported('truth of opaque string')
        if isinstance(v, (Obj, OArr)):
            return True
        return bool(v)

    # ------------------------------------------------------------ functions
    def call_fn(self, f, args, kwargs=None):
        """call a python function object of the repository (contract if there is one)"""
        kwargs = kwargs or {}
        q = qual(f)
        if q in self.contracts and q != self.skip_contract:
            self.used_contracts.add(q)
            node = fn_node(f)
            ba = self.bind(node, f.__name__, args, kwargs, self.fn_defaults(f), f.__kwdefaults__ or {})
            return self.apply_contract(q, ba)
        if len(self.callstack) > 60:
            raise Unsupported('call depth')
        node = fn_node(f)
        self.inlined.add(q)
        return self.run_body(node, f.__name__, args, kwargs, f.__globals__, self.fn_defaults(f), f.__kwdefaults__ or {}, self.closure_of(f))

    def closure_of(self, f):
        if not f.__closure__:
            return None
        fr = Frame(f.__name__ + '.closure')
        for n, c in zip(f.__code__.co_freevars, f.__closure__):
            try:
                fr.st[n] = self.lift(c.cell_contents)
            except ValueError:
                pass
        return fr

    def fn_defaults(self, f):
        return [self.lift_default(d) for d in (f.__defaults__ or ())]

    def apply_contract(self, q, ba):
        """the contract's own parameter names, or (parameters renamed in the code) the same positions"""
        f = self.contracts[q]
        import inspect
        ps = [p for p in inspect.signature(f).parameters][1:]
        if set(ba) <= set(ps):
            return f(self, **ba)
        if len(ba) > len(ps):
            raise Unsupported(f'{q} takes parameters its contract does not know')
        try:
            fo = self.order_of(q)
        except LookupError:
            fo = list(ba)
        return f(self, *[ba[n] for n in fo if n in ba])

    def order_of(self, q):
        from .framework import resolve
        import inspect
        return list(inspect.signature(resolve(q)).parameters)

    def lift_default(self, d):
        return self.lift(d)

    def bind(self, node, name, args, kwargs, defaults, kwdefaults):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyExc('TypeError', f'{name}() takes {len(pos)} positional arguments but {len(args)} were given')
            out[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            out[n] = v
        extra = {}
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in out:
                raise PyExc('TypeError', f'{name}() got multiple values for argument {k!r}')
            if k in pos or k in kwo:
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc('TypeError', f'{name}() got an unexpected keyword argument {k!r}')
        if a.kwarg is not None:
            out[a.kwarg.arg] = PDict(extra)
        nd = len(defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[n] = defaults[j]
                else:
                    raise PyExc('TypeError', f"{name}() missing a required positional argument: '{n}'")
        for n in kwo:
            if n not in out:
                if n in kwdefaults:
                    out[n] = self.lift(kwdefaults[n])
                else:
                    raise PyExc('TypeError', f"{name}() missing keyword argument '{n}'")
        return out

    def run_body(self, node, name, args, kwargs, glb, defaults=(), kwdefaults=None, closure=None):
        solve.check_deadline()
        fr = Frame(name, closure)
        fr.st.update(self.bind(node, name, args, kwargs, defaults, kwdefaults or {}))
        fr.glb = glb
        fr.node = node
        fr.globals_decl = set()
        fr.nonlocal_decl = set()
        fr.locals_set = self.local_names(node)
        self.callstack.append(name)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
                raise Unsupported('generator function')
            try:
                self.block(node.body, fr)
            except Ret as r:
                return r.v
            return None
        finally:
            self.callstack.pop()

    _ln = {}

    def local_names(self, node):
        r = self._ln.get(node)
        if r is None:
            r = set()
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                r.add(x.arg)
            if a.vararg:
                r.add(a.vararg.arg)
            if a.kwarg:
                r.add(a.kwarg.arg)

            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        r.add(c.name)
                        continue
                    if isinstance(c, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                        for w in ast.walk(c):
                            if isinstance(w, ast.NamedExpr):
                                r.add(w.target.id)
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        r.add(c.id)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for al in c.names:
                            r.add((al.asname or al.name).split('.')[0])
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        r.add(c.name)
                    walk(c)
            if not isinstance(node, ast.Lambda):
                walk(node)
            self._ln[node] = r
        return r

    # ------------------------------------------------------------ lifting
    def lift(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
            return v
        if isinstance(v, float):
            if v == math.pi:
                return SV(PI, 'float')
            if v != v or v in (math.inf, -math.inf):
                return SV(sym({'inf': 'INF', '-inf': 'NINF'}.get(str(v), 'NAN'), 'real'), 'float')
            return SV(C(frac(v)), 'float')
        if isinstance(v, np.generic):
            return self.lift(v.item()) if not isinstance(v, np.bool_) else SB(mkbool(bool(v)), True)
        if isinstance(v, np.ndarray):
            return self.np.from_numpy(v)
        if isinstance(v, list):
            return PList([self.lift(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.lift(x) for x in v)
        if isinstance(v, dict):
            return PDict({k: self.lift(x) for k, x in v.items()})
        return v

    # ------------------------------------------------------------ names
    def load_name(self, n, fr):
        if n in fr.st:
            v = fr.st[n]
            if isinstance(v, MaybeUnbound):
                if self.decide(v.cond):
                    return v.val
                raise PyExc('UnboundLocalError', n)
            if isinstance(v, Poison):
                raise Unsupported(f'{n}: {v.why}')
            return v
        if n in fr.locals_set and n not in fr.globals_decl and n not in fr.nonlocal_decl and not getattr(fr, 'comp', False):
            raise PyExc('UnboundLocalError', n)
        c = fr.closure
        while c is not None:
            if n in c.st:
                v = c.st[n]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                if isinstance(v, MaybeUnbound):
                    if self.decide(v.cond):
                        return v.val
                    raise PyExc('NameError', n)
                return v
            c = c.closure
        if n in fr.glb:
            return self.lift(fr.glb[n])
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise PyExc('NameError', n)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, fr)

    def ev_Constant(self, e, fr):
        return self.lift(e.value) if not isinstance(e.value, (bytes, complex)) and e.value is not Ellipsis else e.value

    def ev_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def ev_JoinedStr(self, e, fr):
        return '<fstring>'

    def ev_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def ev_List(self, e, fr):
        return PList(self.elts(e.elts, fr))

    def ev_Set(self, e, fr):
        return frozenset(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def ev_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr).st)
            else:
                d[self.hashkey(self.ev(k, fr))] = self.ev(v, fr)
        return PDict(d)

    def hashkey(self, k):
        if isinstance(k, SV):
            i = k.p.intval()
            if i is None:
                raise Unsupported('symbolic dict key')
            return i
        if isinstance(k, tuple):
            return tuple(self.hashkey(x) for x in k)
        return k

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else SB(bnot(t))
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(op, ast.USub):
            if isinstance(v, (Arr,)):
                return self.np.elementwise(self, lambda x: -x, [v])
            if isinstance(v, int):
                return -v
            return SV(-num(v), kindof(v))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, Arr) and v.dtype == 'b':
                return self.np.elementwise(self, lambda x: bnot(x), [v], dtype='b')
            if isinstance(v, SB):
                return SB(bnot(v.b), v.np)
            if isinstance(v, int):
                return ~v
        raise Unsupported('unary operator')

    def ev_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        return self.np.binop(self, op, a, b)

    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        vals = e.values
        cond = TRUE if isand else FALSE
        for i, x in enumerate(vals):
            last = i == len(vals) - 1
            if cond is TRUE and isand or cond is FALSE and not isand:
                v = self.ev(x, fr)
                t = self.truth(v)
                if last and acc is None:
                    return v
            else:
                # symbolic so far: evaluate the rest under the assumption
                v, t = self.guarded_eval(x, fr, cond if isand else bnot(cond))
            if isinstance(t, bool):
                if isand and not t:
                    if cond is TRUE:
                        return v
                    return SB(FALSE)
                if not isand and t:
                    if cond is FALSE:
                        return v
                    return SB(TRUE)
                continue
            acc = t
            cond = band(cond, t) if isand else bor(cond, t)
            if isand and cond is FALSE:
                return SB(FALSE)
            if not isand and cond is TRUE:
                return SB(TRUE)
        return SB(cond)

    def guarded_eval(self, x, fr, guard):
        c = self.ctx
        self.ctx = c.with_(guard)
        try:
            if not self.ctx.feasible():
                return None, (True)
            snap = None
            try:
                v = self.ev(x, fr)
            except PyExc:
                # may raise only when the guard holds: fork on the guard
                self.ctx = c
                if self.decide(guard):
                    v = self.ev(x, fr)
                    return v, self.truth(v)
                return None, TRUE
            return v, self.truth(v)
        finally:
            extra = [b for b in self.ctx.a if b not in c.aset and b is not guard and b not in (guard.args if guard.op == 'and' else ())]
            # keep forks taken meanwhile
            if self.ctx is not c:
                n = c
                for cond, val in self.trail:
                    n = n.with_(cond if val else bnot(cond)) if (cond if val else bnot(cond)) not in c.aset else n
                self.ctx = n if n is not c else c

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if res is None:
                res = r
            else:
                t1, t2 = self.truth(res), self.truth(r)
                if isinstance(t1, bool):
                    res = r if t1 else res
                else:
                    res = SB(band(t1, t2 if not isinstance(t2, bool) else mkbool(t2)))
            left = right
        return res

    def compare(self, op, a, b):
        return self.np.compare(self, op, a, b)

    def ev_IfExp(self, e, fr):
        t = self.truth(self.ev(e.test, fr))
        if not isinstance(t, bool):
            d = self.ctx.decide(t)
            t = d if d is not None else t
        if isinstance(t, bool):
            return self.ev(e.body if t else e.orelse, fr)
        # try to merge
        try:
            c = self.ctx
            self.merge += 1
            try:
                self.ctx = c.with_(t)
                a = self.ev(e.body, fr)
                self.ctx = c.with_(bnot(t))
                b = self.ev(e.orelse, fr)
            finally:
                self.merge -= 1
                self.ctx = c
            return self.merge_value(t, a, b)
        except (NeedFork, PyExc, Unsupported):
            pass
        return self.ev(e.body if self.decide(t) else e.orelse, fr)

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        fr.st[e.target.id] = v
        if self.loop_stores is not None:
            self.loop_stores.add((id(fr), e.target.id))
        return v

    def ev_Lambda(self, e, fr):
        return Closure(e, fr, fr.glb, defaults=[self.ev(d, fr) for d in e.args.defaults])

    def ev_Starred(self, e, fr):
        raise Unsupported('starred')

    def ev_Attribute(self, e, fr):
        v = self.ev(e.value, fr)
        return self.getattr(v, e.attr)

    def ev_Slice(self, e, fr):
        return slice(self.ev(e.lower, fr) if e.lower else None,
                     self.ev(e.upper, fr) if e.upper else None,
                     self.ev(e.step, fr) if e.step else None)

    def ev_Subscript(self, e, fr):
        v = self.ev(e.value, fr)
        i = self.ev(e.slice, fr)
        return self.getitem(v, i)

    def ev_ListComp(self, e, fr):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.ev(e.generators[0].iter, fr)
            sy = self.symiter(it)
            if sy is not None:
                return self.symcomp(e, e.generators[0], *sy, self.compframe(fr))
            return PList(self.comp(e, fr, lambda f: self.ev(e.elt, f), it))
        return PList(self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, fr):
        return frozenset(self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def ev_DictComp(self, e, fr):
        d = {}
        for k, v in self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f))):
            d[self.hashkey(k)] = v
        return PDict(d)

    def compframe(self, fr):
        sub = Frame(fr.fname, fr)
        sub.glb = fr.glb
        sub.locals_set = fr.locals_set
        sub.globals_decl = fr.globals_decl
        sub.nonlocal_decl = fr.nonlocal_decl
        sub.comp = True
        return sub

    def comp(self, e, fr, body, first=None):
        out = []
        sub = self.compframe(fr)

        def rec(k):
            if k == len(e.generators):
                out.append(body(sub))
                return
            g = e.generators[k]
            for v in self.iterate(first if first is not None and not k else self.ev(g.iter, sub if k else fr)):
                self.assign(g.target, v, sub)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, sub))
                    if not isinstance(t, bool):
                        t = self.decide(t)
                    if not t:
                        ok = False
                        break
                if ok:
                    rec(k + 1)
        rec(0)
        return out

    # ------------------------------------------------------------ attribute / item access
    def getattr(self, v, name):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, Obj):
            if name in v.st:
                r = v.st[name]
                if isinstance(r, Poison):
                    raise Unsupported(f'{name}: {r.why}')
                if isinstance(r, MaybeUnbound):
                    if self.decide(r.cond):
                        return r.val
                    raise PyExc('AttributeError', name)
                return r
            if name == '__class__':
                return v.cls
            if name == '__dict__':
                return PDict(dict(v.st))
            for k in v.cls.__mro__:
                if name in k.__dict__:
                    r = k.__dict__[name]
                    if name in ('dict', 'copy') and k.__module__.startswith('pydantic'):
                        return Bound(v, name)
                    if isinstance(r, types.FunctionType):
                        return BoundFn(v, r)
                    if isinstance(r, property):
                        return self.call_fn(r.fget, [v])
                    if isinstance(r, staticmethod):
                        return r.__func__
                    if isinstance(r, classmethod):
                        return BoundFn(v.cls, r.__func__)
                    return self.lift(r)
            if hasattr(v.cls, name) and name in ('dict',) and v.cls.__mro__:
                return Bound(v, name)
            if getattr(v.cls, '__name__', '') == 'Opaque_any':
                raise Unsupported(f'attribute {name} of unmodelled object')
            raise PyExc('AttributeError', f'{v.cls.__name__} object has no attribute {name!r}')
        if isinstance(v, (Arr, OArr, PList, PDict, SV, SB, OpaqueStr, str, tuple, frozenset)) or isnum(v):
            return self.np.getattr_(self, v, name)
        if isinstance(v, types.ModuleType):
            if name == 'pi' and v.__name__ in ('numpy', 'math', 'scipy.constants'):
                return SV(PI, 'float')
            if not hasattr(v, name):
                raise PyExc('AttributeError', f'module {v.__name__} has no attribute {name}')
            return self.lift(getattr(v, name))
        if isinstance(v, Opaque) and name in getattr(v, 'attrs', ()):
            return v.attrs[name]
        if isinstance(v, Opaque):
            return Bound(v, name)
        if isinstance(v, (BoundFn, Bound, Closure)):
            raise Unsupported(f'attribute {name} of a function')
        if isinstance(v, types.GeneratorType):
            raise Unsupported('generator')
        try:
            return self.lift(getattr(v, name))
        except AttributeError as ex:
            raise PyExc('AttributeError', str(ex))

    def setattr(self, v, name, x):
        if isinstance(v, Obj):
            v.st[name] = x
            return
        if isinstance(v, Arr) and name == 'shape':
            raise Unsupported('shape assignment')
        if isinstance(v, type) and is_repo_cls(v):
            o = self.class_ns(v)
            o.st[name] = x
            return
        if isinstance(v, Opaque):
            return
        if v is None:
            raise PyExc('AttributeError', f"'NoneType' object has no attribute {name!r}")
        raise Unsupported(f'setattr on {type(v).__name__}')

    _classns = {}

    def class_ns(self, c):
        o = self._classns.get(c)
        if o is None:
            o = Obj(c, {}, 'class ' + c.__name__)
            self._classns[c] = o
        return o

    def getitem(self, v, i):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, (Arr, OArr)):
            return self.np.getitem(self, v, i)
        if isinstance(v, (tuple, str)) or isinstance(v, PList):
            seq = v.st if isinstance(v, PList) else v
            if isinstance(i, slice):
                def cv(x):
                    if x is None or isinstance(x, int):
                        return x
                    k = num(x).intval()
                    if k is None:
                        raise Unsupported('symbolic list slice')
                    return k
                r = seq[slice(cv(i.start), cv(i.stop), cv(i.step))]
                return PList(r) if isinstance(v, PList) else r
            if isinstance(i, SV) and i.kind != 'int':
                raise PyExc('TypeError', 'list indices must be integers')
            k = num(i).intval()
            if k is None:
                raise Unsupported('symbolic list index')
            if not -len(seq) <= k < len(seq):
                raise PyExc('IndexError', 'list index out of range')
            return seq[k]
        if isinstance(v, PDict):
            k = self.hashkey(i)
            if k not in v.st:
                raise PyExc('KeyError', str(k))
            return v.st[k]
        if v is None:
            raise PyExc('TypeError', "'NoneType' object is not subscriptable")
        if isinstance(v, (SV, int, SB)):
            raise PyExc('TypeError', 'number is not subscriptable')
        if isinstance(v, Obj):
            for k in v.cls.__mro__:
                if '__getitem__' in k.__dict__:
                    return self.call_fn(k.__dict__['__getitem__'], [v, i])
            raise PyExc('TypeError', f'{v.cls.__name__} object is not subscriptable')
        raise Unsupported(f'getitem on {type(v).__name__}')

    def setitem(self, v, i, x):
        if isinstance(v, (Arr, OArr)):
            return self.np.setitem(self, v, i, x)
        if isinstance(v, PList):
            k = num(i).intval() if not isinstance(i, slice) else None
            if k is None:
                raise Unsupported('symbolic list store')
            if not -len(v.st) <= k < len(v.st):
                raise PyExc('IndexError', 'list assignment index out of range')
            v.st[k] = x
            return
        if isinstance(v, PDict):
            v.st[self.hashkey(i)] = x
            return
        if v is None:
            raise PyExc('TypeError', "'NoneType' object does not support item assignment")
        raise Unsupported(f'setitem on {type(v).__name__}')

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        """concrete iteration"""
        if isinstance(v, (tuple, frozenset)):
            return list(v)
        if isinstance(v, PList):
            return list(v.st)
        if isinstance(v, PDict):
            return list(v.st.keys())
        if isinstance(v, range):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SymRange):
            n = v.n.intval()
            if n is None:
                d = self.small_int(v.n)
                if d is not None:
                    n = d
            if n is not None:
                return [self.mkint(v.lo + k) for k in range(max(n, 0))]
            raise Unsupported('iteration over a symbolic range in this position')
        if isinstance(v, Arr):
            n = v.shape[0].intval()
            if n is None:
                raise Unsupported('iteration over a symbolic array in this position')
            return [self.getitem(v, k) for k in range(n)]
        if isinstance(v, OArr):
            return [self.getitem(v, k) for k in range(v.shape[0])]
        if isinstance(v, (dict, list)) or hasattr(v, '__iter__') and not isinstance(v, (Opaque, Obj)):
            return [self.lift(x) for x in v]
        if v is None or isinstance(v, (int, SV)):
            raise PyExc('TypeError', 'object is not iterable')
        raise Unsupported(f'iteration over {type(v).__name__}')

    def small_int(self, p):
        """concrete value of p entailed by the context, if small"""
        p2 = solve.simplify(subst(p, solve.solve_eqs(self.ctx)), self.ctx)
        if p2.intval() is None and len(p2.t) <= 2:      # floor of a number known to lie in [0, 1)
            fl = [a for m in p2.t for a, e in m if a.kind == 'fn' and a.name == 'floor' and e == 1 and len(m) == 1]
            for a in fl:
                x = a.args[0]
                if self.ctx.prove(le(ZERO, x)) and self.ctx.prove(lt(x, ONE)):
                    p2 = subst_atoms(p2, a)
        return p2.intval()

    def mkint(self, p):
        k = p.intval()
        return k if k is not None else SV(p, 'int')

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, fr):
        # super() is not used in the repository
        f = self.ev(e.func, fr)
        if f is print:
            return None
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                kw.update(v.st if isinstance(v, PDict) else dict(v))
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        solve.check_deadline()
        if isinstance(f, BoundFn):
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, Closure):
            return self.run_body(f.node, f.name, args, kw, f.glb, f.defaults, f.kwdefaults, f.frame)
        if isinstance(f, Bound):
            return self.np.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        if isinstance(f, types.FunctionType) and f in self.np.MODELS:
            return self.np.MODELS[f](self, *args, **kw)
        if is_repo_fn(f):
            return self.call_fn(f, args, kw)
        if isinstance(f, type) and is_repo_cls(f):
            return self.instantiate(f, args, kw)
        try:
            m = self.np.MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, *args, **kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ('exc', f.__name__, f)
        if isinstance(f, Obj):
            for k in f.cls.__mro__:
                if '__call__' in k.__dict__:
                    return self.call_fn(k.__dict__['__call__'], [f] + list(args), kw)
            raise PyExc('TypeError', 'object is not callable')
        if f is None or isinstance(f, (int, str, SV, tuple)):
            raise PyExc('TypeError', f'{type(f).__name__} object is not callable')
        return self.np.fallback(self, f, args, kw)

    def instantiate(self, cls, args, kw):
        from pydantic import BaseModel
        q = f'{cls.__module__}:{cls.__qualname__}'
        if q in self.contracts and q != self.skip_contract:
            self.used_contracts.add(q)
            return self.contracts[q](self, *args, **kw)
        if issubclass(cls, BaseModel):
            return self.np.pydantic_new(self, cls, kw)
        if issubclass(cls, BaseException):
            return ('exc', cls.__name__, cls)
        o = Obj(cls)
        if dataclasses.is_dataclass(cls) and '__init__' in cls.__dict__:
            flds = dataclasses.fields(cls)
            for i, fl in enumerate(flds):
                if i < len(args):
                    o.st[fl.name] = args[i]
                elif fl.name in kw:
                    o.st[fl.name] = kw[fl.name]
                elif fl.default is not dataclasses.MISSING:
                    o.st[fl.name] = self.lift(fl.default)
                elif fl.default_factory is not dataclasses.MISSING:
                    o.st[fl.name] = self.call(fl.default_factory, [])
                else:
                    raise PyExc('TypeError', f'missing argument {fl.name}')
            return o
        for k in cls.__mro__:
            if '__init__' in k.__dict__ and is_repo_fn(k.__dict__['__init__']):
                self.call_fn(k.__dict__['__init__'], [o] + list(args), kw)
                return o
        if args or kw:
            raise PyExc('TypeError', f'{cls.__name__}() takes no arguments')
        return o

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        try:
            return m(s, fr)
        except Unsupported as u:
            if not getattr(u, 'loc', None):
                u.loc = f'{fr.fname}:{s.lineno}'
                u.args = (f'{u.args[0]} [{fr.fname}:{s.lineno}]',)
            raise
        except PyExc as u:
            if not getattr(u, 'loc', None):
                u.loc = f'{fr.fname}:{s.lineno}'
            raise

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value else None)

    def st_Break(self, s, fr):
        raise Brk()

    def st_Continue(self, s, fr):
        raise Cnt()

    def st_Global(self, s, fr):
        fr.globals_decl |= set(s.names)

    def st_Nonlocal(self, s, fr):
        fr.nonlocal_decl |= set(s.names)

    def st_Import(self, s, fr):
        import importlib
        for a in s.names:
            try:
                m = importlib.import_module(a.name)
            except ImportError:
                raise PyExc('ImportError', a.name)
            fr.st[a.asname or a.name.split('.')[0]] = m if a.asname else sys.modules[a.name.split('.')[0]]

    def st_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.glb.get('__package__')
        m = importlib.import_module('.' * s.level + (s.module or ''), pkg)
        for a in s.names:
            if not hasattr(m, a.name):
                raise PyExc('ImportError', a.name)
            fr.st[a.asname or a.name] = self.lift(getattr(m, a.name))

    def st_FunctionDef(self, s, fr):
        fr.st[s.name] = Closure(s, fr, fr.glb, s.name, [self.ev(d, fr) for d in s.args.defaults],
                                {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})

    def st_Assert(self, s, fr):
        t = self.truth(self.ev(s.test, fr))
        if not isinstance(t, bool):
            t = self.decide(t)
        if not t:
            raise PyExc('AssertionError')

    def st_Raise(self, s, fr):
        if s.exc is None:
            raise Unsupported('bare raise')
        v = self.ev(s.exc, fr)
        if isinstance(v, tuple) and v and v[0] == 'exc':
            raise PyExc(v[1], cls=v[2])
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v.__name__, cls=v)
        raise Unsupported('raise of a value')

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.st:
                    raise PyExc('NameError', t.id)
                del fr.st[t.id]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if not isinstance(o, Obj) or t.attr not in o.st:
                    raise PyExc('AttributeError', t.attr)
                del o.st[t.attr]
            else:
                raise Unsupported('del')

    def st_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if not isinstance(v, Opaque):
                raise Unsupported('with statement')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(s.body, fr)

    def st_Try(self, s, fr):
        try:
            self.block(s.body, fr)
        except PyExc as ex:
            for h in s.handlers:
                if h.type is None or self.exc_match(ex, self.ev(h.type, fr)):
                    if h.name:
                        fr.st[h.name] = Opaque('exception')
                    self.block(h.body, fr)
                    break
            else:
                self.block(s.finalbody, fr)
                raise
        else:
            self.block(s.orelse, fr)
        self.block(s.finalbody, fr)

    def exc_match(self, ex, t):
        ts = t if isinstance(t, tuple) else (t,)
        cls = ex.cls or getattr(builtins, ex.name, None)
        for x in ts:
            if isinstance(x, type) and cls is not None and issubclass(cls, x):
                return True
            if getattr(x, '__name__', None) == ex.name:
                return True
        return False

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                raise Unsupported('global assignment')
            if t.id in fr.nonlocal_decl:
                c = fr.closure
                while c is not None and t.id not in c.st:
                    c = c.closure
                if c is None:
                    raise Unsupported('nonlocal')
                c.st[t.id] = v
            else:
                fr.st[t.id] = v
                if self.loop_stores is not None:
                    self.loop_stores.add((id(fr), t.id))
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                k = st[0]
                after = len(t.elts) - k - 1
                if len(vs) < len(t.elts) - 1:
                    raise PyExc('ValueError', 'not enough values to unpack')
                parts = vs[:k] + [PList(vs[k:len(vs) - after])] + vs[len(vs) - after:]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
                return
            if len(vs) != len(t.elts):
                raise PyExc('ValueError', 'unpack mismatch')
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        else:
            raise Unsupported('assignment target')

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            self.assign(t, self.iop(s.op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(s.op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            old = self.getitem(o, i)
            v = self.ev(s.value, fr)
            r = self.iop(s.op, old, v)
            self.setitem(o, i, r)
        else:
            raise Unsupported('augmented target')

    def iop(self, op, a, b):
        return self.np.iop(self, op, a, b)

    # ------------------------------------------------------------ if with merging
    def st_If(self, s, fr):
        t = self.truth(self.ev(s.test, fr))
        if not isinstance(t, bool):
            d = self.ctx.decide(t)
            if d is not None:
                t = d
        if isinstance(t, bool):
            self.block(s.body if t else s.orelse, fr)
            return
        if self.try_merge(t, s.body, s.orelse, fr):
            return
        if self.decide(t):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def try_merge(self, t, body, orelse, fr):
        snap = snapshot()
        ctx0, nob, ntr = self.ctx, len(self.obligations), len(self.trail)
        self.merge += 1
        try:
            self.ctx = ctx0.with_(t)
            self.block(body, fr)
            s1 = snapmap()
            restore(snap)
            self.ctx = ctx0.with_(bnot(t))
            self.block(orelse, fr)
            s2 = snapmap()
            self.ctx = ctx0
            merged = self.merge_states(t, dict(snap), s1, s2)
        except (Ret, Brk, Cnt, PyExc, NeedFork, Unsupported) as ex:
            restore(snap)
            del self.obligations[nob:]
            self.ctx = ctx0
            self.last_merge_error = ex
            return False
        finally:
            self.merge -= 1
            self.ctx = ctx0
        restore(s2)
        restore(merged)
        return True

    def merge_states(self, t, s0, s1, s2):
        out = {}
        for o in set(s1) | set(s2):
            a, b = s1.get(o), s2.get(o)
            if o not in s0:
                # created in one branch only
                if a is not None and b is None:
                    out[o] = a
                continue
            if a is b or a == b and isinstance(a, (int, str)):
                continue
            if isinstance(o, Arr):
                if a is None and b is None:
                    continue
                if a is not b:
                    out[o] = self.merge_content(t, a, b)
            elif isinstance(o, (Obj, Frame, PDict, OArr)):
                d = {}
                for k in list(dict.fromkeys(list(a) + list(b))):
                    if k in a and k in b:
                        d[k] = a[k] if a[k] is b[k] else self.merge_value(t, a[k], b[k], poison=isinstance(o, Frame))
                    elif isinstance(o, (Frame, Obj)):
                        v = a.get(k, b.get(k))
                        c = t if k in a else bnot(t)
                        if isinstance(v, MaybeUnbound):
                            v = MaybeUnbound(band(v.cond, c), v.val)
                        else:
                            v = MaybeUnbound(c, v)
                        d[k] = v
                    else:
                        raise Unsupported('merge of dictionaries with different keys')
                out[o] = d
            elif isinstance(o, PList):
                if len(a) != len(b):
                    raise Unsupported('merge of lists of different length')
                out[o] = [x if x is y else self.merge_value(t, x, y) for x, y in zip(a, b)]
        return out

    def merge_content(self, t, a, b):
        if a is None or b is None or len(a.shape) != len(b.shape):
            raise Unsupported('merge of arrays of different rank')
        for x, y in zip(a.shape, b.shape):
            if x is not y and not self.ctx.prove(eq(x, y)):
                raise Unsupported('merge of arrays of different shape')
        if a.kind != b.kind or a.dtype == 'o':
            raise Unsupported('merge of arrays of different kind')
        if a.dtype == 'b' and b.dtype == 'b':
            g = lambda *i: bite(t, a.get(*i), b.get(*i))
        else:
            g = lambda *i: ite(t, a.get(*i), b.get(*i))
        return ArrC(a.shape, g, a.dtype if a.dtype == b.dtype else 'f', a.kind)

    def merge_value(self, t, a, b, poison=False):
        if a is b:
            return a
        if isinstance(a, MaybeUnbound) or isinstance(b, MaybeUnbound):
            ca, va = (a.cond, a.val) if isinstance(a, MaybeUnbound) else (TRUE, a)
            cb, vb = (b.cond, b.val) if isinstance(b, MaybeUnbound) else (TRUE, b)
            return MaybeUnbound(bite(t, ca, cb), self.merge_value(t, va, vb, poison))
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            if isinstance(a, bool) and isinstance(b, bool) and a == b:
                return a
            x = mkbool(a) if isinstance(a, bool) else a.b
            y = mkbool(b) if isinstance(b, bool) else b.b
            return SB(bite(t, x, y))
        if isnum(a) and isnum(b):
            if type(a) is int and type(b) is int and a == b:
                return a
            if kindof(a) != kindof(b) and not poison:
                # int/float distinction matters for indexing only; keep the float kind
                pass
            k = kindof(a) if kindof(a) == kindof(b) else 'float'
            return SV(ite(t, num(a), num(b)), k)
        if isinstance(a, Arr) and isinstance(b, Arr):
            r = Arr(self.merge_content(t, a.c, b.c))
            r.frozen = True
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_value(t, x, y) for x, y in zip(a, b))
        if isinstance(a, PList) and isinstance(b, PList) and len(a.st) == len(b.st):
            return PList([self.merge_value(t, x, y) for x, y in zip(a.st, b.st)])
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if poison:
            return Poison('branches assign values that cannot be merged')
        raise Unsupported('merge of unlike values')

    # ------------------------------------------------------------ loops
    loop_recs = ()
    loop_stores = None
    loop_next = None            # index of the next loop record when running code under the loop rule

    def checkpoint(self, *vals):
        """in replays, contracts replace the state reached so far (and the given values) by its numbers"""
        return vals

    def spec_while(self, vars, cond, step, inv=None):
        """a loop of a contract: while cond(): step()"""
        if self.loop_next is None or getattr(self, 'while_unlimited', False) or self.merge or self.loopdepth:
            n = 0
            while self.decide(cond()):
                n += 1
                if n > self.while_bound and not getattr(self, 'while_unlimited', False):
                    raise Truncated()
                step()
            return
        from . import loops, framework
        loops.spec_loop(self, framework, vars, cond, step, inv)

    def counting(self, s):
        """while i < bound: ...; i += 1  ->  (i, bound, strict) where nothing else changes i or the names of the bound"""
        t, last = s.test, s.body[-1]
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r, op = t.left, t.comparators[0], type(t.ops[0])
        if op in (ast.Gt, ast.GtE):
            l, r, op = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
        if op not in (ast.Lt, ast.LtE) or not isinstance(l, ast.Name):
            return None
        inc = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and last.target or \
            isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) and ast.dump(last.value.left) == ast.dump(l) and last.targets[0]
        one = last.value if isinstance(last, ast.AugAssign) else last.value.right if inc else None
        if not isinstance(inc, ast.Name) or inc.id != l.id or not (isinstance(one, ast.Constant) and one.value == 1):
            return None
        names = {n.id for n in ast.walk(r) if isinstance(n, ast.Name)} | {l.id}
        for x in s.body[:-1]:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names or isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.FunctionDef, ast.Lambda)):
                    return None
        attrs = {n.attr for n in ast.walk(r) if isinstance(n, ast.Attribute)}
        if l.id in {n.id for n in ast.walk(r) if isinstance(n, ast.Name)} or any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in attrs for x in s.body for n in ast.walk(x)):
            return None
        return l.id, r, op is ast.Lt

    def count_loop(self, s, fr, name, bound, strict):
        lo, hi = fr.st.get(name), self.ev(bound, fr)
        if name not in fr.st or not isnum(lo) or not isnum(hi) or kindof(lo) != 'int' or isinstance(hi, (bool, SB)):
            return False
        h = num(hi)
        if kindof(hi) != 'int':
            h = -floor(-h) if strict else floor(h)
        if not strict:
            h = h + 1
        lo = num(lo)
        n = h - lo
        if not self.ctx.prove(le(ZERO, n)):
            n = ite(le(ZERO, n), n, ZERO)
        f = ast.copy_location(ast.For(target=ast.Name(id=name, ctx=ast.Store()), iter=bound, body=s.body[:-1] or [ast.Pass()], orelse=[]), s)
        ast.fix_missing_locations(f)
        self.for_sym(f, fr, n, lambda i: self.mkint(lo + i))
        fr.st[name] = self.mkint(lo + n)
        return True

    def leading_breaks(self, body):
        """(conditions, rest) of a loop body that starts with `if C: break` statements"""
        cs = []
        while body and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break):
            cs.append(body[0].test)
            body = body[1:]
        return cs, body

    def hoist(self, s, test, cs, body):
        test = ast.BoolOp(op=ast.And(), values=[test] + [ast.UnaryOp(op=ast.Not(), operand=c) for c in cs])
        w = ast.copy_location(ast.While(test=test, body=body or [ast.Pass()], orelse=[]), s)
        ast.fix_missing_locations(w)
        return w

    def for_as_while(self, s, fr, lo, n):
        """for x in range(..): if C: break; ...   as   while k < end and not C[x := k]: x = k; k += 1; ..."""
        cs, body = self.leading_breaks(s.body)
        if not cs or s.orelse or not isinstance(s.target, ast.Name):
            return None
        k, h = f'__{s.target.id}_{s.lineno}', f'__end_{s.lineno}'

        class Sub(ast.NodeTransformer):
            def visit_Name(self, x):
                return ast.copy_location(ast.Name(id=k, ctx=ast.Load()), x) if x.id == s.target.id else x
        import copy
        cs = [Sub().visit(copy.deepcopy(c)) for c in cs]
        name = lambda x, st=False: ast.Name(id=x, ctx=ast.Store() if st else ast.Load())
        body = [ast.Assign(targets=[name(s.target.id, True)], value=name(k)), ast.AugAssign(target=name(k, True), op=ast.Add(), value=ast.Constant(value=1))] + body
        for x in body[:2]:
            ast.copy_location(x, s)
            for y in ast.walk(x):
                ast.copy_location(y, s)
        fr.st[k], fr.st[h] = self.mkint(lo), self.mkint(lo + n)
        return self.hoist(s, ast.Compare(left=name(k), ops=[ast.Lt()], comparators=[name(h)]), cs, body)

    def st_While(self, s, fr):
        if not s.orelse:
            cs, body = self.leading_breaks(s.body)
            if cs:
                s = self.hoist(s, s.test, cs, body)
        if self.loop_next is not None and self.loop_next < len(self.loop_recs) and not self.merge and not self.loopdepth:
            from . import loops, framework
            rec = self.loop_recs[self.loop_next]
            self.loop_next += 1
            return loops.code_loop(self, framework, s, fr, rec)
        n = 0
        counted = self.counting(s)
        while True:
            t = self.truth(self.ev(s.test, fr))
            if not isinstance(t, bool):
                if counted is not None and not getattr(self, 'while_unlimited', False) and self.ctx.decide(t) is None and self.count_loop(s, fr, *counted):
                    return
                t = self.decide(t)
            if not t:
                self.block(s.orelse, fr)
                return
            n += 1
            if n > self.while_bound and not getattr(self, 'while_unlimited', False):
                raise Truncated()
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cnt:
                continue

    def symiter(self, it):
        """(length, element at a symbolic index) of an iterable whose length is not a number, else None"""
        if isinstance(it, SymRange):
            if it.n.intval() is not None or self.small_int(it.n) is not None:
                return None
            return it.n, lambda i: self.mkint(it.lo + i)
        if isinstance(it, SymSeq):
            return it.n, it.at
        if isinstance(it, Arr) and it.shape and it.shape[0].intval() is None:
            return it.shape[0], lambda i: self.getitem(it, SV(P(i), 'int'))
        if isinstance(it, tuple) and it and it[0] == 'enumsym':
            _, base, start = it
            b = self.symiter(base)
            if b is None:
                raise Unsupported('enumeration of a list whose length became known')
            return b[0], lambda i: (self.mkint(i + start), b[1](i))
        if isinstance(it, tuple) and it and it[0] == 'zipsym':
            bs = [self.symiter(x) for x in it[1]]
            if any(b is None for b in bs):
                raise Unsupported('zip of lists whose length became known')
            n = bs[0][0]
            for b in bs[1:]:
                if n is not b[0] and not self.ctx.prove(eq(n, b[0])):
                    raise Unsupported('zip of different symbolic lengths')
            return n, lambda i: tuple(b[1](i) for b in bs)
        return None

    def symcomp(self, e, g, n, elem, sub):
        """[elt for target in iterable] of symbolic length; the element may not change anything"""
        if not self.ctx.prove(le(ZERO, n)):
            n = ite(le(ZERO, n), n, ZERO)
        i = fresh('it', 'int', (ZERO, n))
        ia = atom_of(i)
        while True:
            snap0, c, need = snapmap(), self.ctx, None
            self.ctx = c.with_(le(ZERO, i), lt(i, n))
            self.loopdepth += 1
            try:
                self.assign(g.target, elem(i), sub)
                v = self.ev(e.elt, sub)
            except NeedFork as nf:
                need = nf.cond
                if ia in need.fv:
                    raise Unsupported(f'branch inside a list of symbolic length: {show_bool(need)[:160]}')
            except PyExc as ex:
                need = ex
            finally:
                self.loopdepth -= 1
                self.ctx = c
            if need is None:
                break
            restore(snap0)
            cond = lt(ZERO, n) if isinstance(need, PyExc) else need
            t = True if self.ctx.prove(cond) else None
            if t is None:
                if self.merge or self.loopdepth:
                    raise NeedFork(cond)
                t = self.fork(cond)
            if isinstance(need, PyExc):
                if t:
                    raise need
                return PList([])
        cells = {}
        self._diff(snap0, {o: st for o, st in snapmap().items() if o is not sub}, cells)
        if cells or not SymSeq.fits(v):
            raise Unsupported('list of symbolic length with side effects or of objects')
        return SymSeq(n, ia, v)

    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)
        sy = self.symiter(it)
        if sy is not None:
            if isinstance(it, SymRange):
                w = self.for_as_while(s, fr, it.lo, it.n)
                if w is not None:
                    return self.st_While(w, fr)
            return self.for_sym(s, fr, *sy)
        seq = self.iterate(it)
        for v in seq:
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cnt:
                continue
        self.block(s.orelse, fr)

    # symbolic loop ------------------------------------------------------
    def for_sym(self, s, fr, n, elem):
        """for i in range(n): body  with symbolic n: infer and check an inductive closed form"""
        if s.orelse:
            raise Unsupported('for-else over a symbolic range')
        self.loops += 1
        if not self.ctx.prove(le(ZERO, n)):
            if self.ctx.prove(le(n, ZERO)):
                return
            n = ite(le(ZERO, n), n, ZERO)
        if self.ctx.prove(eq(n, ZERO)):
            return
        i = fresh('it', 'int', (ZERO, n))
        ia = atom_of(i)
        while True:
            try:
                return self._for_sym(s, fr, n, elem, i, ia)
            except NeedFork as nf:
                if ia in nf.cond.fv or any(a.name.startswith(('hv!', 'it!', 'o!', 'jj!')) for a in nf.cond.fv) or _has_havoc(nf.cond):
                    raise Unsupported(f'loop-dependent branch that cannot be merged: {show_bool(nf.cond)[:160]} ({getattr(self, "last_merge_error", None)})')
                if self.merge or self.loopdepth:
                    raise
                self.fork(nf.cond)

    def _run_iter(self, s, fr, elem, i, n):
        """one iteration at symbolic index i from the current state; returns snapshot map"""
        c = self.ctx
        self.ctx = c.with_(le(ZERO, i), lt(i, n))
        self.loopdepth += 1
        try:
            self.assign(s.target, elem(i), fr)
            try:
                self.block(s.body, fr)
            except Cnt:
                pass
            except Brk:
                raise Unsupported('break in a symbolic loop')
            except Ret:
                raise Unsupported('return in a symbolic loop')
            except PyExc as ex:
                raise PyExcInLoop(ex)
        finally:
            self.loopdepth -= 1
            self.ctx = c
        return snapmap()

    def _for_sym(self, s, fr, n, elem, i, ia):
        snap0 = snapmap()
        nob = len(self.obligations)
        ctx0 = self.ctx
        try:
            S1 = self._run_iter(s, fr, elem, i, n)
        except PyExcInLoop as ex:
            restore(snap0)
            if not self.ctx.prove(lt(ZERO, n)):
                if self.loopdepth or self.merge:
                    raise NeedFork(lt(ZERO, n))
                if not self.fork(lt(ZERO, n)):
                    return
            raise ex.ex
        except BaseException:
            restore(snap0)
            raise
        restore(snap0)
        cells = {}
        self._diff(snap0, S1, cells)
        havoc = {}
        for _ in range(6):
            # havoc
            restore(snap0)
            known = dict(cells)
            hv = self._havoc(snap0, S1, known)
            H = snapmap()
            del self.obligations[nob:]
            try:
                S2 = self._run_iter(s, fr, elem, i, n)
            except PyExcInLoop as ex:
                restore(snap0)
                raise Unsupported(f'an arbitrary iteration may raise {ex.ex}')
            except BaseException:
                restore(snap0)
                raise
            self._diff(H, S2, cells)
            if len(cells) == len(known):
                break
        else:
            restore(snap0)
            raise Unsupported('loop modifies an unstable set of cells')
        # closed forms
        closed = self._closed_forms(snap0, hv, S2, cells, ia, n)
        # check preservation
        restore(snap0)
        self._install(snap0, closed, P(ia), n, S2)
        del self.obligations[nob:]
        S3 = self._run_iter(s, fr, elem, i, n)
        body_obl = self.obligations[nob:]
        del self.obligations[nob:]
        for key, cf in list(closed.items()):
            if cf[0] in ('temp', 'poison'):
                continue
            ok = self._check_cell(key, cf, S3, ia, n)
            self.obligations.append((f'loop invariant preserved: {_cellname(key)}', ok, None, self.ctx))
            if not ok:
                restore(snap0)
                raise Unsupported(f'no inductive closed form for {_cellname(key)}')
        self.obligations.extend(body_obl)
        restore(snap0)
        self._install(snap0, closed, n, n, S2, final=True, ia=ia)

    # cells: ('v', obj, key) value cells of Frame/Obj/PDict/OArr/PList ; ('a', arr)
    def _diff(self, A, Bs, cells):
        for o, b in Bs.items():
            if o not in A:
                continue
            a = A[o]
            if a is b:
                continue
            if isinstance(o, Arr):
                cells[('a', o)] = True
            elif isinstance(b, dict):
                for k in b:
                    if k not in a or a[k] is not b[k]:
                        if k in a and _same(a[k], b[k]):
                            continue
                        cells[('v', o, k)] = True
                for k in a:
                    if k not in b:
                        cells[('v', o, k)] = True
            elif isinstance(b, list):
                if len(a) != len(b):
                    cells[('l', o)] = True
                else:
                    for k in range(len(b)):
                        if a[k] is not b[k] and not _same(a[k], b[k]):
                            cells[('v', o, k)] = True

    def _havoc(self, S0, S1, cells):
        """replace modified cells by arbitrary values; returns {cell: havoc value}"""
        hv = {}
        for key in cells:
            if key[0] == 'l':
                key[1].st = _PoisonList('list grown in a symbolic loop')
                hv[key] = ('poison',)
                continue
            if key[0] == 'a':
                o = key[1]
                c0 = S0[o]
                if c0 is None or c0.dtype == 'o':
                    hv[key] = ('poison',)
                    continue
                T._count[0] += 1
                name = f'hv!{T._count[0]}'
                if c0.dtype == 'b':
                    g = lambda *i, nm=name: batom(nm, *i)
                else:
                    g = lambda *i, nm=name, so='int' if c0.dtype == 'i' else 'real': app(nm, i, so)
                o.st = ArrC(c0.shape, g, c0.dtype, c0.kind)
                hv[key] = ('arr', name, c0)
                continue
            _, o, k = key
            old = S0[o].get(k, _MISSING) if isinstance(S0[o], dict) else S0[o][k]
            new = S1[o].get(k, _MISSING) if isinstance(S1[o], dict) else S1[o][k]
            if old is _MISSING:
                o.st.pop(k, None)
                hv[key] = ('temp',)
            elif isnum(old) and isnum(new) and not isinstance(old, (bool, SB)):
                kind = kindof(old) if kindof(old) == kindof(new) else 'float'
                so = 'int' if kind == 'int' else 'real'
                x = fresh('hv', so)
                o.st[k] = SV(x, kind)
                hv[key] = ('num', atom_of(x), num(old), kind)
            elif isinstance(old, Arr) and isinstance(new, Arr) and len(old.shape) == len(new.shape) and old.dtype in 'fi' \
                    and all(a is b or self.ctx.prove(eq(a, b)) for a, b in zip(old.shape, new.shape)):
                T._count[0] += 1
                name = f'hv!{T._count[0]}'
                c0 = old.c
                dt = 'i' if (c0.dtype == 'i' and new.dtype == 'i') else 'f'
                g = lambda *i, nm=name, so='int' if dt == 'i' else 'real': app(nm, i, so)
                o.st[k] = Arr.of(c0.shape, g, dt, new.kind)
                hv[key] = ('arr', name, c0)
            else:
                o.st[k] = Poison(f'loop-carried value of {k}')
                hv[key] = ('temp',)
        return hv

    def _newval(self, key, S):
        if key[0] == 'a':
            return S[key[1]]
        st = S[key[1]]
        return st.get(key[2], _MISSING) if isinstance(st, dict) else st[key[2]]

    def _closed_forms(self, S0, hv, S2, cells, ia, n):
        """{cell: ('num', f(i)->Poly, kind) | ('arr', shape, vars, f(i,idx), ..) | ('temp',) | ('poison',)}"""
        closed = {}
        # sets of havoc names
        names = {}
        for key, h in hv.items():
            if h[0] == 'num':
                names[('s', h[1])] = key
            elif h[0] == 'arr':
                names[('f', h[1])] = key
        pending = [k for k in hv if hv[k][0] in ('num', 'arr')]
        for k in hv:
            if hv[k][0] not in ('num', 'arr'):
                closed[k] = hv[k]
        new = {}
        for k in pending:
            h = hv[k]
            v = self._newval(k, S2)
            try:
                if h[0] == 'num':
                    new[k] = ((), num(v))
                else:
                    c = v if isinstance(v, ArrC) else v.c
                    vs = [fresh('jj', 'int', (ZERO, d)) for d in h[2].shape]
                    old = self.ctx
                    self.ctx = old.with_(le(ZERO, P(ia)), lt(P(ia), n), *[band(le(ZERO, x), lt(x, d)) for x, d in zip(vs, h[2].shape)])
                    try:
                        p = c.get(*vs)
                        if isinstance(p, B):
                            p = iv(p)
                        p = solve.simplify(p, self.ctx)
                    finally:
                        self.ctx = old
                    new[k] = (tuple(vs), p)
            except Unsupported as u:
                closed[k] = ('poison', str(u))
        progress = True
        resolved = {}
        todo = [k for k in pending if k in new]
        for rnd in range(len(todo) + 1):
            rest = []
            for k in todo:
                vs, p = new[k]
                p = self._subst_resolved(p, hv, resolved, P(ia))
                deps = _havoc_names(p)
                own = ('s', hv[k][1]) if hv[k][0] == 'num' else ('f', hv[k][1])
                others = {d for d in deps if d != own and d in names}
                if others:
                    rest.append(k)
                    continue
                cf = self._closed_one(k, hv[k], vs, p, ia, n)
                if cf is None:
                    closed[k] = ('poison', 'no closed form')
                    resolved[k] = None
                else:
                    resolved[k] = cf
                    closed[k] = cf
            if len(rest) == len(todo):
                break
            todo = rest
            if not todo:
                break
        for k in todo:
            if k not in closed:
                closed[k] = ('poison', 'loop-carried dependency')
        return closed

    def _subst_resolved(self, p, hv, resolved, i):
        rs = {hv[k][1]: resolved[k] for k in resolved if resolved[k] is not None}
        if not rs:
            return p

        def f(a):
            if a.kind == 'sym' and a in rs:
                return rs[a][1](i)
            if a.kind == 'app' and a.name in rs:
                args = [T.map_atoms(x, f) for x in a.args]
                return rs[a.name][3](i, args)
            return None
        return T.map_atoms(p, f)

    def _closed_one(self, key, h, vs, p, ia, n):
        i = P(ia)
        if h[0] == 'num':
            own = P(h[1])
            init = h[2]
            d = p - own
            if h[1] not in d.fv:
                return ('num', lambda k: init + sum_(k, lambda q: subst(d, {ia: q})), h[3])
            if h[1] not in p.fv:
                return ('num', lambda k: ite(lt(ZERO, k), subst(p, {ia: k - 1}), init), h[3])
            # conditional last value / max
            return None
        name, c0 = h[1], h[2]
        own = app(name, vs, 'int' if c0.dtype == 'i' else 'real')
        oa = atom_of(own)
        vat = [atom_of(v) for v in vs]
        d = p - own

        def mentions(q):
            return any(a.kind == 'app' and a.name == name for a in atoms_of(q))

        def inst(q, idx):
            return subst(q, {v: P(x) for v, x in zip(vat, idx)})
        init = lambda idx: c0.get(*idx)
        if not mentions(d):
            dd = d
            return ('arr', c0, vat, lambda k, idx: init(idx) + sum_(k, lambda q: subst(inst(dd, idx), {ia: q})))
        if not mentions(p):
            return ('arr', c0, vat, lambda k, idx: ite(lt(ZERO, P(k)), subst(inst(p, idx), {ia: P(k) - 1}), init(idx)))
        # pointwise write
        for a in sorted(atoms_of(p, under_binders=False), key=lambda a: a.id):
            if a.kind != 'iv' or a.bvs or a.args[0].op != 'eq' or ia not in a.fv:
                continue
            lc = T._lin_coeff(a.args[0].args[0], ia)
            if lc is None or abs(lc[0]) != 1:
                continue
            e = scale(lc[1], -1 / lc[0])       # i = e(vs)
            off = map_atoms(p, lambda x: ZERO if x is a else None)
            offd = off - own
            c2 = self.ctx.with_(le(ZERO, i), lt(i, n), ne(i, e), *[band(le(ZERO, P(v)), lt(P(v), s)) for v, s in zip(vat, c0.shape)])
            ok, _ = solve.prove_zero(offd, c2)
            if not ok:
                continue
            on = map_atoms(p, lambda x: ONE if x is a else None)
            on = subst(on, {ia: e})
            # substitute reads of the own array: must be not-yet-written positions

            bad = []

            def f(x):
                if x.kind == 'app' and x.name == name:
                    args = [T.map_atoms(y, f) for y in x.args]
                    w = subst(e, {v: q for v, q in zip(vat, args)})     # iteration that writes it
                    # read happens at iteration e(vs)
                    cond = bor(le(e, w), lt(w, ZERO))
                    asm = self.ctx.with_(le(ZERO, e), lt(e, n), *[band(le(ZERO, P(v)), lt(P(v), s)) for v, s in zip(vat, c0.shape)])
                    if w is e or asm.prove(cond):
                        return init(args)
                    # bound variables from enclosing binders: e does not depend on them when w is e
                    bad.append(x)
                    return ZERO
                return None
            on2 = T.map_atoms(on, f)
            if bad:
                continue
            g = on2
            return ('arr', c0, vat, lambda k, idx: ite(band(le(ZERO, inst(e, idx)), lt(inst(e, idx), P(k))), inst(g, idx), init(idx)))
        return None

    def _install(self, S0, closed, k, n, S2, final=False, ia=None):
        for key, cf in closed.items():
            if cf[0] == 'num':
                _set_cell(key, SV(cf[1](k), cf[2]))
            elif cf[0] == 'arr':
                c0 = cf[1]
                new = self._newval(key, S2)
                nc = new if isinstance(new, ArrC) else new.c
                g = (lambda *idx, f=cf[3]: f(k, idx))
                c = ArrC(c0.shape, g, 'i' if (c0.dtype == 'i' and nc.dtype == 'i') else 'f', nc.kind)
                if key[0] == 'a':
                    key[1].st = c
                else:
                    _set_cell(key, Arr(c))
            elif not final:
                if key[0] == 'v':
                    if key[1] in S0 and isinstance(S0[key[1]], dict) and key[2] not in S0[key[1]]:
                        key[1].st.pop(key[2], None)
                    else:
                        _set_cell(key, Poison('loop-carried value'))
                elif key[0] == 'a':
                    key[1].st = _poison_content(key[1].st or S0[key[1]])
                elif key[0] == 'l':
                    key[1].st = _PoisonList('list grown in a symbolic loop')
            else:
                # after the loop: temporaries hold their value of the last iteration
                if key[0] == 'v':
                    v = self._newval(key, S2)
                    v = _last_iter(v, ia, n, closed)
                    pos = lt(ZERO, n)
                    had = isinstance(S0[key[1]], dict) and key[2] in S0[key[1]]
                    if v is None or had:
                        _set_cell(key, Poison(f'value of {key[2]} after a symbolic loop'))
                    elif self.ctx.prove(pos):
                        _set_cell(key, v)
                    else:
                        _set_cell(key, MaybeUnbound(pos, v))
                elif key[0] == 'a':
                    key[1].st = _poison_content(S0[key[1]])
                elif key[0] == 'l':
                    key[1].st = _PoisonList('list grown in a symbolic loop')

    def _check_cell(self, key, cf, S3, ia, n):
        i = P(ia)
        v = self._newval(key, S3)
        base = self.ctx.with_(le(ZERO, i), lt(i, n))
        if cf[0] == 'num':
            ok, _ = solve.prove_zero(num(v) - cf[1](i + 1), base)
            return ok
        c = v if isinstance(v, ArrC) else v.c
        c0 = cf[1]
        if len(c.shape) != len(c0.shape):
            return False
        vs = [fresh('jj', 'int', (ZERO, d)) for d in c0.shape]
        c2 = base.with_(*[band(le(ZERO, x), lt(x, d)) for x, d in zip(vs, c0.shape)])
        old = self.ctx
        self.ctx = c2
        try:
            p = c.get(*vs)
        finally:
            self.ctx = old
        if isinstance(p, B):
            p = iv(p)
        ok, _ = solve.prove_zero(p - cf[3](i + 1, vs), c2)
        return ok


class PyExcInLoop(Exception):
    def __init__(self, ex):
        self.ex = ex


class _PoisonList(list):
    def __init__(self, why):
        list.__init__(self)
        self.why = why

    def _bad(self, *a, **k):
        raise Unsupported(self.why)
    __iter__ = __len__ = __getitem__ = _bad

    def append(self, x):
        pass


_MISSING = object()


def _same(a, b):
    if isinstance(a, (int, str)) and type(a) is type(b):
        return a == b
    if isinstance(a, SV) and isinstance(b, SV):
        return a.p is b.p and a.kind == b.kind
    if isinstance(a, SB) and isinstance(b, SB):
        return a.b is b.b
    return False


def _cellname(key):
    if key[0] == 'v':
        o = key[1]
        return f'{getattr(o, "fname", getattr(o, "name", "obj"))}.{key[2]}'
    return 'array ' + repr(key[1])


def _set_cell(key, v):
    key[1].st[key[2]] = v


def _poison_content(c):
    def g(*i):
        raise Unsupported('array modified by a loop without closed form')
    return ArrC(c.shape, g, c.dtype, c.kind)


def _has_havoc(b):
    return any(a.kind == 'app' and a.name.startswith('hv!') or a.kind == 'sym' and a.name.startswith('hv!') for a in atoms_of(b))


def _havoc_names(p):
    out = set()
    for a in atoms_of(p):
        if a.kind == 'sym' and a.name.startswith('hv!'):
            out.add(('s', a))
        elif a.kind == 'app' and a.name.startswith('hv!'):
            out.add(('f', a.name))
    return out


def _last_iter(v, ia, n, closed):
    """value of a loop-body temporary in the last iteration, if independent of loop-carried state"""
    if isinstance(v, SV):
        if _has_havoc_p(v.p):
            return None
        return SV(subst(v.p, {ia: n - 1}), v.kind)
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, Arr):
        try:
            c = v.c
        except Unsupported:
            return None

        def g(*idx):
            p = c.get(*idx)
            if isinstance(p, B):
                raise Unsupported('boolean temporary after a loop')
            if _has_havoc_p(p):
                raise Unsupported('loop temporary depends on loop-carried state')
            return subst(p, {ia: n - 1})
        return Arr.of([subst(s, {ia: n - 1}) for s in c.shape], g, c.dtype, c.kind)
    return None


def _has_havoc_p(p):
    return bool(_havoc_names(p))
