"""Contracts, cases, verification of function bodies against contracts, replay, reporting."""
import os, sys, json, time, types, traceback, random, signal, io, contextlib, warnings, importlib, hashlib
from fractions import Fraction
import numpy as np
import scipy.sparse
from .terms import *
from . import terms as T
from . import solve
from .solve import Ctx
from .values import *
from . import interp as IM
from . import loops
from .interp import Interp, Truncated, PyExcInLoop, REPO
from . import numeval
from .numeval import Valuation, Ev, EvalError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def install_stubs():
    """make CADMium importable (pylibxc is not installed) and import it from REPO"""
    if 'pylibxc' not in sys.modules:
        from . import pylibxc_stub
        sys.modules['pylibxc'] = pylibxc_stub
    import scipy.optimize
    from .stubs import lsq
    scipy.optimize.least_squares = lsq.least_squares
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import CADMium
    f = os.path.abspath(CADMium.__file__)
    assert f.startswith(os.path.abspath(REPO) + os.sep), f


def resolve(qual):
    """module:qualname -> function object (raises LookupError)"""
    mod, qn = qual.split(':')
    try:
        m = importlib.import_module(mod)
    except ImportError as ex:
        raise LookupError(f'{qual}: {ex}')
    o = m
    for part in qn.split('.'):
        if isinstance(o, type):
            if part not in o.__dict__:
                raise LookupError(f'{qual} not found')
            o = o.__dict__[part]
        else:
            if not hasattr(o, part):
                # a package attribute may shadow the module of the same name
                m2 = sys.modules.get(mod)
                raise LookupError(f'{qual} not found')
            o = getattr(o, part)
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    return o


# ------------------------------------------------------------------ registry
CONTRACTS = {}          # qual -> summary
CASES = {}              # qual -> [Case]
LEMMAS = {}             # name -> function(L)
DOC = {}


def contract(qual):
    def d(f):
        CONTRACTS[qual] = f
        DOC[qual] = (f.__doc__ or '').strip()
        return f
    return d


class Case:
    def __init__(self, qual, name, build, sample=None, opts=None):
        self.qual, self.name, self.build, self.sample = qual, name, build, sample
        self.opts = opts or {}

    @property
    def id(self):
        return f'{self.qual}[{self.name}]'


def case(qual, name='', sample=None, **opts):
    def d(f):
        CASES.setdefault(qual, []).append(Case(qual, name or f.__name__, f, sample, opts))
        return f
    return d


def lemma(name):
    def d(f):
        LEMMAS[name] = f
        return f
    return d


ANY = Opaque('any')


class Kit:
    """case builder"""

    def __init__(self, I):
        self.I = I
        self.ints = []
        self.post_real = []
        self.extra_requires = []
        self.scripts = []

    def int(self, name, lo=None, hi=None):
        p = sym(name, 'int')
        self.ints.append(name)
        if lo is not None:
            self.assume(le(C(lo) if isinstance(lo, int) else lo, p))
        if hi is not None:
            self.assume(le(p, C(hi) if isinstance(hi, int) else hi))
        return p

    def iv(self, name, lo=None, hi=None):
        return self.I.mkint(self.int(name, lo, hi))

    def real(self, name, pos=False, nonneg=False):
        p = sym(name, 'real')
        if pos:
            self.assume(lt(ZERO, p))
            atom_of(p).nonneg = True
        if nonneg:
            self.assume(le(ZERO, p))
            atom_of(p).nonneg = True
        return SV(p, 'float')

    def flag(self, name):
        return SB(bvar(name))

    def arr(self, name, shape, dtype='f', nonneg=False, kind='nd'):
        so = 'int' if dtype == 'i' else 'real'
        if dtype == 'b':
            return Arr.of(shape, lambda *i: batom(name, *i), 'b', kind)
        return Arr.of(shape, lambda *i: app(name, i, so, nonneg) if i else sym(name, so), dtype, kind)

    def obj(self, cls, **attrs):
        return Obj(cls, attrs)

    def assume(self, b):
        self.I.ctx.add(b)

    def script(self, qual, contract, py, where=None):
        """replays only: the callee is replaced by the Python function py in the code and by its description in the contract"""
        self.scripts.append((qual, contract, py, where or qual))

    def override(self, qual, summary):
        """use another (weaker) contract of a callee in this proof; replays use the full one"""
        if not isinstance(self.I, OracleInterp):
            self.I.contracts = dict(self.I.contracts)
            self.I.contracts[qual] = summary


# ------------------------------------------------------------------ capture / compare
def capture(v, memo=None):
    if memo is None:
        memo = {}
    if isinstance(v, Poison):
        return ('poison', v.why)
    if isinstance(v, MaybeUnbound):
        return ('maybe', v.cond, capture(v.val, memo))
    if isinstance(v, SB):
        return ('bool', v.b)
    if isinstance(v, bool):
        return ('bool', mkbool(v))
    if isinstance(v, np.generic):
        v = v.item()
        return capture(v, memo)
    if isinstance(v, (int, float, Fraction)):
        return ('num', P(v) if not isinstance(v, float) or v == v else sym('NAN', 'real'), 'float' if isinstance(v, float) else 'int')
    if isinstance(v, SV):
        return ('num', v.p, v.kind)
    if isinstance(v, Arr):
        try:
            return ('arr', v.c)
        except Unsupported as u:
            return ('poison', str(u))
    if v is None or isinstance(v, (str, OpaqueStr, range)):
        return ('const', v)
    if isinstance(v, Opaque):
        return ('any',) if v is ANY else ('opaque', v)
    if isinstance(v, (types.FunctionType, type, IM.types.ModuleType, BoundFn, Bound, Closure)):
        return ('fn', v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Obj):
        d = {}
        n = ('obj', v, d)
        memo[id(v)] = n
        for k, x in v.st.items():
            d[k] = capture(x, memo)
        return n
    if isinstance(v, OArr):
        d = {}
        n = ('oarr', v.shape, d)
        memo[id(v)] = n
        for k, x in v.st.items():
            d[k] = capture(x, memo)
        return n
    if isinstance(v, PDict):
        d = {}
        n = ('dict', d)
        memo[id(v)] = n
        for k, x in v.st.items():
            d[k] = capture(x, memo)
        return n
    if isinstance(v, PList):
        d = []
        n = ('list', d)
        memo[id(v)] = n
        try:
            d.extend(capture(x, memo) for x in v.st)
        except Unsupported as u:
            return ('poison', str(u))
        return n
    if isinstance(v, tuple):
        return ('tuple', [capture(x, memo) for x in v])
    if isinstance(v, np.ndarray):
        return ('arr', IM.np and __import__('pyvc.npmodel', fromlist=['x']).from_numpy(v).c)
    return ('other', v)


class Obligation:
    __slots__ = ('name', 'ok', 'why', 'ctx', 'secs')

    def __init__(self, name, ok, why='', ctx=None):
        self.name, self.ok, self.why, self.ctx = name, ok, why, ctx


class Comparer:
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.ignore = ()
        self.obl = []
        self.seen = set()

    def ob(self, path, ok, why=''):
        self.obl.append(Obligation(f'{self.name}: {path}', ok, why, self.ctx))

    def zero(self, path, p, ctx, budget=None):
        if p is ZERO:
            self.ob(path, True)
            return True
        t = time.time()
        try:
            ok, w = solve.prove_zero(p, ctx)
        except solve.Timeout:
            self.ob(path, False, 'prover time limit')
            return False
        why = ''
        if not ok:
            c, r = w
            extra = [b for b in c.a if b not in ctx.aset]
            why = f'residual {show(r, int(__import__("os").environ.get("W","600")))} under {"; ".join(show_bool(b)[:150] for b in extra[:6])}'
        self.ob(path, ok, why)
        return ok

    def cmp(self, s, b, path):
        if s[0] == 'any':
            return
        if s[0] in ('poison', 'maybe') or b[0] in ('poison', 'maybe'):
            if s[0] == 'poison' and b[0] == 'poison' and s[1] == b[1] and s[1].startswith(loops.SOME):
                return
            if s[0] == 'maybe' and b[0] == 'maybe' and s[1] is b[1]:
                return self.cmp(s[2], b[2], path)
            self.ob(path, False, f'unverifiable value: {(b if b[0] in ("poison", "maybe") else s)[1]}')
            return
        if s[0] in ('num', 'bool') and b[0] in ('num', 'bool'):
            if s[0] == 'bool' and b[0] == 'bool':
                if s[1] is b[1]:
                    self.ob(path, True)
                    return
            return self.zero(path, (s[1] if s[0] == 'num' else iv(s[1])) - (b[1] if b[0] == 'num' else iv(b[1])), self.ctx)
        # 0-d / size-1 tolerance: numbers and 0-d arrays are interchangeable
        if s[0] == 'num' and b[0] == 'arr' and not b[1].shape:
            return self.zero(path, s[1] - asp(b[1].get()), self.ctx)
        if s[0] == 'arr' and b[0] == 'num' and not s[1].shape:
            return self.zero(path, asp(s[1].get()) - b[1], self.ctx)
        if s[0] != b[0]:
            self.ob(path, False, f'kind of value differs: specified {desc(s)}, got {desc(b)}')
            return
        k = s[0]
        if k == 'arr':
            return self.cmparr(s[1], b[1], path)
        if k == 'const':
            self.ob(path, s[1] == b[1], f'{s[1]!r} != {b[1]!r}')
            return
        if k in ('list', 'tuple'):
            if len(s[1]) != len(b[1]):
                self.ob(path, False, f'length {len(s[1])} != {len(b[1])}')
                return
            for i, (x, y) in enumerate(zip(s[1], b[1])):
                self.cmp(x, y, f'{path}[{i}]')
            return
        if k == 'dict':
            for q in s[1]:
                if q not in b[1]:
                    self.ob(f'{path}[{q!r}]', False, 'missing key')
                else:
                    self.cmp(s[1][q], b[1][q], f'{path}[{q!r}]')
            return
        if k == 'oarr':
            if tuple(s[1]) != tuple(b[1]):
                self.ob(path, False, f'shape {s[1]} != {b[1]}')
                return
            for q in s[2]:
                self.cmp(s[2][q], b[2].get(q, ('const', None)), f'{path}{list(q)}')
            return
        if k == 'obj':
            key = (id(s[2]), id(b[2]))
            if key in self.seen:
                return
            self.seen.add(key)
            if s[1].cls is not b[1].cls:
                self.ob(path, False, f'class {s[1].cls} != {b[1].cls}')
                return
            for q in s[2]:
                if q in self.ignore:
                    continue
                if q not in b[2]:
                    self.ob(f'{path}.{q}', False, 'attribute not set')
                else:
                    self.cmp(s[2][q], b[2][q], f'{path}.{q}')
            return
        if k in ('fn', 'other', 'opaque'):
            x, y = s[1], b[1]
            same = x is y or (isinstance(x, BoundFn) and isinstance(y, BoundFn) and x.fn is y.fn) or (k == 'opaque' and x.what == y.what)
            self.ob(path, same, f'{x!r} is not {y!r}')
            return
        self.ob(path, False, f'uncomparable {k}')

    def cmparr(self, s, b, path):
        if s is b:
            return
        if s.stale or b.stale:
            self.ob(path, False, 'possibly aliased array')
            return
        if len(s.shape) != len(b.shape):
            self.ob(path + '.shape', False, f'rank {len(s.shape)} != {len(b.shape)}')
            return
        sub = {}
        for i, (x, y) in enumerate(zip(s.shape, b.shape)):
            if x is not y and not self.ctx.prove(eq(x, y)):
                self.ob(path + '.shape', False, f'axis {i}: {show(x)} != {show(y)}')
                return
        if (s.kind == 'sp') != (b.kind == 'sp'):
            self.ob(path + '.kind', False, f'{s.kind} != {b.kind}')
            return
        vs, extra = [], []
        for d in s.shape:
            fs = factors(d)
            if fs is None:
                vs.append(fresh('ix', 'int', (ZERO, d)))
            else:       # every index of a product dimension is a + Na r
                x, y = fs
                u, v = fresh('ia', 'int', (ZERO, x)), fresh('ir', 'int', (ZERO, y))
                extra += [le(ZERO, u), lt(u, x), le(ZERO, v), lt(v, y)]
                vs.append(u + x * v)
        # constant small dimensions are expanded by case split
        from itertools import product
        dims = []
        for v, d in zip(vs, s.shape):
            k = d.intval()
            dims.append([C(i) for i in range(k)] if k is not None and k <= 4 else [v])
        old = solve.GLOBAL.a, solve.GLOBAL.aset
        for idx in product(*dims):
            ctx = self.ctx.with_(*extra, *[band(le(ZERO, v), lt(v, d)) for v, d in zip(idx, s.shape) if v.const() is None])
            solve.GLOBAL.a, solve.GLOBAL.aset = ctx.a, ctx.aset
            nm = path + ''.join('[' + (show(i) if i.const() is not None else ':') + ']' for i in idx)
            try:
                x, y = s.get(*idx), b.get(*idx)
                self.zero(nm, asp(x) - asp(y), ctx)
            except Unsupported as u:
                self.ob(nm, False, f'unsupported: {u}')
            except solve.Timeout:
                self.ob(nm, False, 'time limit')
            finally:
                solve.GLOBAL.a, solve.GLOBAL.aset = old


def factors(d):
    """(Na, other) when d is Na * other"""
    if len(d.t) != 1:
        return None
    (m, c), = d.t.items()
    if c != 1 or len(m) != 2 or any(e != 1 or a.kind != 'sym' or a.sort != 'int' for a, e in m):
        return None
    for k in (0, 1):
        if m[k][0].name == 'Na':
            return P(m[k][0]), P(m[1 - k][0])
    return None


def asp(x):
    return iv(x) if isinstance(x, B) else x


def desc(n):
    if n[0] == 'const':
        return repr(n[1])
    if n[0] == 'arr':
        return f'array of rank {len(n[1].shape)}'
    return n[0]


# ------------------------------------------------------------------ verification of one case
class Result:
    def __init__(self, id_):
        self.id = id_
        self.obligations = []
        self.unsupported = []
        self.paths = 0
        self.truncated = 0
        self.externals = set()
        self.inlined = set()
        self.used = set()
        self.loops = 0
        self.secs = 0
        self.sat = 0
        self.norule = None
        self.hints = None
        self.rule_loops = 0

    @property
    def failed(self):
        return [o for o in self.obligations if not o.ok]


def new_interp(skip=None):
    HeapObj.reg = []
    I = Interp(CONTRACTS)
    I.skip_contract = skip
    return I


def run_outcome(f):
    try:
        return ('ret', f())
    except PyExc as ex:
        return ('exc', ex)
    except PyExcInLoop as ex:
        return ('exc', ex.ex)


def live_objs(snap):
    return [o for o, _ in snap]


def bind_args(I, fnobj, args, kwargs):
    node = IM.fn_node(fnobj)
    return I.bind(node, fnobj.__name__, args, kwargs, I.fn_defaults(fnobj), fnobj.__kwdefaults__ or {})


MISSING = object()


def with_history(I, cs, fnobj, args, kwargs):
    """a state in which the function was called before: every attribute that was unset and that a first call (its contract) sets
    holds an arbitrary value of the same shape and type.  Returns how many there are; no other part of the state changes."""
    pre = snapshot()
    n = len(HeapObj.reg)
    keep = list(I.obligations), dict(I.contracts)
    found = []
    try:
        ba = bind_args(I, fnobj, args, kwargs)
        out = run_outcome(lambda: I.apply_contract(cs.qual, ba))
        if out[0] == 'ret':
            for i, (o, s) in enumerate(pre):
                if isinstance(o, Obj):
                    for a, v in o.st.items():
                        if s.get(a) is None:
                            if isinstance(v, Arr):
                                found.append((o, a, f'old!{i}!{a}', tuple(v.shape), v.dtype, v.kind))
                            elif isinstance(v, SV) and v.kind == 'float':
                                found.append((o, a, f'old!{i}!{a}', None, None, None))
    finally:
        restore(pre)
        del HeapObj.reg[n:]
        I.obligations, I.contracts = keep
    k = Kit(I)
    for o, a, name, shape, dtype, kind in found:
        o.st[a] = k.real(name) if shape is None else k.arr(name, shape, dtype, kind=kind)
    return len(found)


def add_history():
    """every case again, from a state left by an earlier call"""
    for q, l in CASES.items():
        for c in list(l):
            if not any(c.opts.get(x) for x in ('loop', 'bounded', 'once', 'again')):
                l.append(Case(q, c.name + ', again', c.build, c.sample, {**c.opts, 'again': True}))


def verify_case(cs, deadline=None, while_bound=2, max_paths=400):
    """all obligations of one case; loops stated by the contract are proved without a bound where the loop rule applies, otherwise unrolled"""
    if not cs.opts.get('loop'):
        return _verify_case(cs, deadline, while_bound, max_paths, False)
    t0 = time.time()
    deadline = max(deadline or 120, cs.opts.get('limit', 0))
    left = lambda: max(t0 + deadline - time.time(), 10)
    mode, hints = 'share', frozenset()
    for _ in range(8):          # each time with what the last attempt found out about the loop
        r = _verify_case(cs, left() * 0.8, while_bound, max_paths, mode, hints)
        if r.norule and r.norule.startswith('values that agree'):
            mode = 'separate'
        elif r.norule and r.hints:
            hints |= r.hints    # arrays that may be the same memory from some iteration on; variables that agree in the first iteration only
        else:
            break
    if r.norule or r.unsupported:
        why = r.norule or r.unsupported[0]
        r = _verify_case(cs, left(), while_bound, max_paths, False)
        r.norule = why
    r.secs = time.time() - t0
    return r


def _verify_case(cs, deadline, while_bound, max_paths, rule, hints=frozenset()):
    res = Result(cs.id)
    t0 = time.time()
    solve._DEADLINE[0] = time.time() + (deadline or 120)
    try:
        fnobj = resolve(cs.qual)
    except LookupError as ex:
        res.unsupported.append(f'missing function: {ex}')
        return res
    if not isinstance(fnobj, types.FunctionType):
        res.unsupported.append(f'{cs.qual} is not a function')
        return res
    todo, slow, extra, left = [[]], set(), cs.opts.get('left', {}), {}
    try:
        while todo:
            dec = todo.pop()
            I = new_interp(cs.qual)
            I.while_bound = cs.opts.get('while_bound', while_bound)
            I.decisions = list(dec)
            k = Kit(I)
            r = cs.build(k)
            args, kwargs = r if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict) and isinstance(r[0], list) else (r, {})
            spec = body = None
            if cs.opts.get('again'):
                try:
                    old = with_history(I, cs, fnobj, args, kwargs)
                except (Unsupported, NeedFork, Truncated, RecursionError) as ex:
                    old, res.history = 0, f'{type(ex).__name__}: {ex}'
                if not old and not extra:
                    for j in range(len(dec), min(len(I.decisions), I.dpos)):
                        todo.append(I.decisions[:j] + [not I.decisions[j]])
                    res.paths += 1
                    continue
            if extra:
                reg = list(HeapObj.reg)
                for (i, a), (shape, dtype, kind, v) in extra.items():
                    if i < len(reg) and isinstance(reg[i], Obj) and a not in reg[i].st:
                        reg[i].st[a] = v if kind is None else Arr.of(shape, v, dtype, kind) if v is not None else k.arr(f'left!{i}!{a}', shape, dtype, kind=kind) if dtype else k.real(f'left!{i}!{a}')
            pre = snapshot()
            roots = live_objs(pre)
            I.base_ctx = I.ctx.copy()       # the precondition
            trunc = stopped = False
            if rule:
                I.loop_share = rule == 'share'
                I.loop_recs, I.loop_next, I.loop_roots, I.loop_obl, I.loop_tag, I.loop_ignore = [], 0, roots, [], cs.id, cs.opts.get('ignore', ())
                I.loop_hints, I.loop_slow = hints, slow
            try:
                ba = bind_args(I, fnobj, args, kwargs)
                try:
                    spec = run_outcome(lambda: I.apply_contract(cs.qual, ba))
                except loops.SpecStop:
                    spec = ('step', None)
                if spec[0] == 'ret':
                    memo = {}
                    spec_res = capture(spec[1], memo)
                    spec_state = [(o, capture(o, memo)) for o in roots if not isinstance(o, Frame)]
                restore(pre)
                I.body_phase = True
                body = run_outcome(lambda: I.run_body(IM.fn_node(fnobj), fnobj.__name__, args, kwargs, fnobj.__globals__, I.fn_defaults(fnobj), fnobj.__kwdefaults__ or {}, I.closure_of(fnobj)))
                memo = {}
                if body[0] == 'ret' and spec[0] == 'ret' and not extra:
                    for i, (o, sn) in enumerate((o, dict(spec_state).get(o)) for o in roots if isinstance(o, Obj)):
                        for a in o.st:
                            if a not in sn[2] and (isinstance(o.st[a], (Arr, SV, str, bool, int, float)) or o.st[a] is None):
                                left[roots.index(o), a] = leftover(o.st[a], roots, pre)
                if body[0] == 'ret':
                    body_res = capture(body[1], memo)
                    body_state = {id(o): capture(o, memo) for o in roots if not isinstance(o, Frame)}
            except Truncated:
                trunc = True
            except loops.NoRule as ex:
                res.norule = str(ex)
                res.hints = getattr(ex, 'hints', None)
                break
            except loops.StepDone:
                stopped = True
            except Unsupported as u:
                res.unsupported.append(str(u))
            except RecursionError:
                res.unsupported.append('recursion limit')
            except NeedFork as nf:
                res.unsupported.append(f'unmergeable branch {nf}')
            # queue the other side of new decisions
            for j in range(len(dec), min(len(I.decisions), I.dpos)):
                todo.append(I.decisions[:j] + [not I.decisions[j]])
            res.externals |= I.externals
            res.inlined |= I.inlined
            res.used |= I.used_contracts
            res.loops += I.loops
            res.paths += 1
            if res.paths > max_paths:
                res.unsupported.append('too many paths')
                break
            if trunc:
                res.truncated += 1
                continue
            if res.unsupported:
                break
            ctx = I.ctx
            feas = solve.z3check(ctx.a)
            if feas == 'unsat':
                continue
            if feas == 'sat':
                res.sat += 1
            tag = cs.id
            if I.trail:
                tag += ' {' + ', '.join(('' if v else '!') + show_bool(b)[:40] for b, v in I.trail[:4]) + '}'
            for what, ok, b, c in I.obligations:
                res.obligations.append(Obligation(f'{tag}: {what}', bool(ok), '' if ok else f'{show_bool(b) if b is not None else what}', c))
            if rule:
                res.obligations.extend(I.loop_obl)
                res.rule_loops = max(res.rule_loops, len(I.loop_recs))
                if not stopped and I.loop_next != len(I.loop_recs):
                    res.norule = 'the code has no loop where the contract has one'
                    break
                if stopped:
                    continue
            cmpr = Comparer(ctx, tag)
            cmpr.ignore = cs.opts.get('ignore', ())
            if spec[0] == 'exc' or body[0] == 'exc':
                if spec[0] == body[0]:
                    same = spec[1].name == body[1].name or spec[1].name == '*'
                    cmpr.ob('raises', same, f'specified {spec[1]}, got {body[1]}')
                elif body[0] == 'exc':
                    cmpr.ob('terminates normally', False, f'raises {body[1]} at {getattr(body[1], "loc", "?")}')
                else:
                    cmpr.ob('raises', False, f'specified exception {spec[1]} is not raised')
            else:
                cmpr.cmp(spec_res, body_res, 'result')
                for o, sn in spec_state:
                    cmpr.cmp(sn, body_state[id(o)], objname(o, roots))
                ens = cs.opts.get('ensures')
                if ens is not None:
                    ens(cmpr, args, body[1])
            res.obligations.extend(cmpr.obl)
            if cmpr.obl == [] and not I.obligations:
                res.obligations.append(Obligation(f'{tag}: frame', True))
    except solve.Timeout:
        res.unsupported.append('time limit')
    finally:
        solve._DEADLINE[0] = None
        solve.GLOBAL.a, solve.GLOBAL.aset = [], set()
    if cs.opts.get('again') and not res.obligations and not res.unsupported:
        res.obligations.append(Obligation(f'{cs.id}: no attribute that was unset is set by a call', True))
        res.sat = max(res.sat, 1)
    if left and not rule and not res.unsupported:       # the code keeps something of its own: once more with anything there
        r = _verify_case(Case(cs.qual, cs.name + ', kept values', cs.build, cs.sample, {**cs.opts, 'left': left}), deadline, while_bound, max_paths, rule, hints)
        res.obligations += r.obligations
        res.unsupported += r.unsupported
        res.paths += r.paths
    res.secs = time.time() - t0
    return res


def leftover(v, roots, pre):
    """what a later call finds in an attribute of the code's own: anything; but what depends on the grid only, which never changes, stays"""
    if isinstance(v, Arr) or isinstance(v, SV) and v.kind == 'float':
        grid, other = set(), set()
        for o, st in pre:
            if isinstance(o, Obj):
                to = grid if o.cls.__name__ == 'Psgrid' else other
                for x in st.values():
                    to |= data_names(x)
            elif isinstance(o, Arr):
                other |= data_names(o)
        kept = data_names(v)
        if any(isinstance(o, Obj) and o.cls.__name__ == 'Psgrid' for o in roots) and not kept & (other - grid):
            if isinstance(v, SV):
                return None, None, None, v
            c = v.c
            return tuple(v.shape), v.dtype, v.kind, lambda *i: c.get(*i)
        return (tuple(v.shape), v.dtype, v.kind, None) if isinstance(v, Arr) else (None, None, 'num', None)
    return None, None, None, v


def data_names(v):
    try:
        p = num_poly(v)
    except Unsupported:
        return set()
    return set() if p is None else {a.name for a in atoms_of(p, lambda a: a.kind in ('sym', 'app'))} - {f'ix!{i}' for i in range(4)}


def num_poly(v):
    if isinstance(v, SV):
        return v.p
    if isinstance(v, Arr) and len(v.shape) < 4 and v.dtype != 'b':
        return asp(v.c.get(*(sym(f'ix!{i}', 'int') for i in range(len(v.shape)))))
    return None


def objname(o, roots):
    if isinstance(o, Obj):
        return o.name
    return f'argument {type(o).__name__}'


# ------------------------------------------------------------------ lemmas
class LemmaKit(Kit):
    def __init__(self, name):
        super().__init__(new_interp())
        self.name = name
        self.obl = []

    def call(self, qual, *args, **kw):
        """value given by the contract of qual"""
        self.I.used_contracts.add(qual)
        fnobj = resolve(qual)
        ba = bind_args(self.I, fnobj, list(args), kw)
        return self.I.apply_contract(qual, ba)

    def equal(self, what, a, b):
        c = Comparer(self.I.ctx, f'lemma {self.name}')
        c.cmp(capture(a), capture(b), what)
        self.obl.extend(c.obl)

    def zero(self, what, p, *assume):
        c = Comparer(self.I.ctx, f'lemma {self.name}')
        c.zero(what, num(p) if not isinstance(p, Poly) else p, self.I.ctx.with_(*assume))
        self.obl.extend(c.obl)

    def holds(self, what, b, *assume):
        ok = self.I.ctx.with_(*assume).prove(b)
        self.obl.append(Obligation(f'lemma {self.name}: {what}', ok, show_bool(b)))


def verify_lemma(name, deadline=None):
    res = Result('lemma ' + name)
    t0 = time.time()
    solve._DEADLINE[0] = time.time() + (deadline or 120)
    try:
        L = LemmaKit(name)
        L.I.decisions = []
        LEMMAS[name](L)
        res.obligations = L.obl
        res.used = L.I.used_contracts
        res.externals = L.I.externals
        res.paths = 1
        if solve.z3check(L.I.ctx.a) == 'sat':
            res.sat = 1
        if L.I.trail:
            res.unsupported.append('lemma forked')
    except Unsupported as u:
        res.unsupported.append(str(u))
    except PyExc as u:
        res.unsupported.append(str(u))
    except LookupError as u:
        res.unsupported.append(str(u))
    except solve.Timeout:
        res.unsupported.append('time limit')
    finally:
        solve._DEADLINE[0] = None
        solve.GLOBAL.a, solve.GLOBAL.aset = [], set()
    res.secs = time.time() - t0
    return res


# ------------------------------------------------------------------ concrete replay
_mz = __import__('itertools').count()


class OracleInterp(Interp):
    """decides branches with a valuation"""
    val = None
    while_unlimited = True

    def decide(self, b):
        if isinstance(b, bool):
            return b
        d = self.ctx.decide(b) if len(b.fv) and not self.quick else (True if b is TRUE else False if b is FALSE else None)
        if d is None:
            if self.loopdepth or self.merge:
                raise NeedFork(b)
            d = bool(np.asarray(Ev(self.val).boolean(b, {}, 0, {})))
            self.trail.append((b, d))
            self.ctx = self.ctx.with_(b if d else bnot(b))
        return d
    quick = False

    def spec_while(self, vars, cond, step, inv=None):
        """run the loop of the contract numerically; the state is replaced by its values after every step"""
        old, self.quick = self.quick, True
        try:
            while self.decide(cond()):
                step()
                self.materialize(vars)
        finally:
            self.quick = old

    def checkpoint(self, *vals):
        if getattr(self, 'known', None) is not None:
            d = dict(enumerate(vals))
            self.materialize(d, True)
            vals = tuple(d.values())
        return vals

    def materialize(self, vars, sparse=False):
        ev = Ev(self.val)
        seen, sp = set(), False

        def mat(v):
            if isinstance(v, SV):
                if v.p.const() is not None:
                    return v
                x = ev.scalar(v.p)
                nm = f'mz_{next(_mz)}'
                self.val.syms[nm] = int(round(x)) if v.kind == 'int' else float(x)
                return SV(sym(nm, 'int' if v.kind == 'int' else 'real'), v.kind)
            if isinstance(v, (Obj, OArr, PDict, PList, Arr)):
                if id(v) in seen:
                    return v
                seen.add(id(v))
            if isinstance(v, Arr):
                if v.base is not None:
                    mat(v.root())
                    return v
                c = v.st
                if id(c) in self.known or c.dtype not in 'fi' or not c.shape or c.stale or c.kind == 'sp' and not sp:
                    return v
                x = np.asarray(ev.content(c))
                nm = f'mz_{next(_mz)}'
                self.val.fns[nm] = lambda *i: x[tuple(np.clip(np.asarray(j, dtype=int), 0, d - 1) for j, d in zip(i, x.shape))]
                so = 'int' if c.dtype == 'i' else 'real'
                n = ArrC(tuple(C(d) for d in x.shape), lambda *i: app(nm, i, so), c.dtype, c.kind)
                self.known[id(n)] = n
                v.st = n
            elif isinstance(v, (Obj, OArr, PDict)):
                for q, x in list(v.st.items()):
                    v.st[q] = mat(x)
            elif isinstance(v, PList):
                v.st[:] = [mat(x) for x in v.st]
            return v
        for o in self.roots:
            mat(o)
        sp = sparse
        for w, v in vars.items():
            vars[w] = mat(v)

    def fork(self, b):
        return self.decide(b)

    def small_int(self, p):
        k = Interp.small_int(self, p)
        if k is None:
            try:
                v = float(Ev(self.val).scalar(p))
            except (EvalError, KeyError):
                return None
            if v == int(v) and abs(v) < 30:
                k = int(v)
        return k


class Concretizer:
    def __init__(self, ev):
        self.ev = ev
        self.memo = {}

    def conv(self, v):
        if isinstance(v, (SV,)):
            x = self.ev.scalar(v.p)
            return int(round(x)) if v.kind == 'int' else float(x)
        if isinstance(v, SB):
            x = self.ev.scalar(v.b)
            return np.bool_(x) if v.np else bool(x)
        if v is None or isinstance(v, (int, str, range, float)):
            return v
        if isinstance(v, OpaqueStr):
            return 'Zz_' + v.name
        if isinstance(v, tuple):
            return tuple(self.conv(x) for x in v)
        if isinstance(v, slice):
            return v
        if isinstance(v, Arr):
            r = self.memo.get(id(v))
            if r is None:
                r = self.ev.content(v.c)
                if v.kind == 'sp':
                    r = scipy.sparse.csc_matrix(r)
                elif v.kind == 'mat':
                    r = np.matrix(r)
                self.memo[id(v)] = r
            return r
        if isinstance(v, OArr):
            r = self.memo.get(id(v))
            if r is None:
                r = np.empty(v.shape, dtype=object)
                self.memo[id(v)] = r
                for k, x in v.st.items():
                    r[k] = self.conv(x)
            return r
        if isinstance(v, PList):
            r = self.memo.get(id(v))
            if r is None:
                r = []
                self.memo[id(v)] = r
                r.extend(self.conv(x) for x in v.st)
            return r
        if isinstance(v, PDict):
            r = self.memo.get(id(v))
            if r is None:
                r = {}
                self.memo[id(v)] = r
                r.update({k: self.conv(x) for k, x in v.st.items()})
            return r
        if isinstance(v, Obj):
            r = self.memo.get(id(v))
            if r is None:
                from pydantic import BaseModel
                if issubclass(v.cls, BaseModel):
                    r = v.cls.construct()
                    self.memo[id(v)] = r
                    for k, x in v.st.items():
                        r.__dict__[k] = self.conv(x)
                    return r
                r = object.__new__(v.cls)
                self.memo[id(v)] = r
                if v.st.get('_mir') is not None:      # the abstract grid's reflection
                    n = int(self.conv(v.st['Nelem']))
                    f = self.ev.val.fns.get('mir')
                    ix = np.arange(n) if f is None else np.asarray(f(np.arange(n)), int)
                    r.__dict__['mirror'] = lambda y, ix=ix: np.asarray(y)[ix]
                for k, x in v.st.items():
                    r.__dict__[k] = self.conv(x)
            return r
        if isinstance(v, Closure):
            real = getattr(v, 'real', None)
            if real is not None:
                return real
            raise Unsupported('closure argument')
        if isinstance(v, Opaque):
            return getattr(v, 'real', None)
        if isinstance(v, BoundFn):
            return types.MethodType(v.fn, self.conv(v.obj))
        return v


class Mismatch(Exception):
    pass


class RealCompare:
    ignore = ()
    def __init__(self, ev, conc, tol):
        self.ev, self.conc, self.tol = ev, conc, tol
        self.n = 0
        self.seen = set()

    def cmp(self, s, r, path):
        k = s[0]
        if k in ('any', 'poison', 'maybe', 'opaque', 'fn', 'other'):
            return
        if k == 'num':
            self.n += 1
            if r is None or isinstance(r, (str, dict, list)):
                raise Mismatch(f'{path}: specified a number, got {type(r).__name__}')
            x = self.ev.scalar(s[1])
            try:
                ra = np.asarray(r.toarray() if scipy.sparse.issparse(r) else r, dtype=complex).reshape(-1)
            except (TypeError, ValueError):
                raise Mismatch(f'{path}: specified a number, got {r!r}'[:300])
            if ra.size != 1:
                raise Mismatch(f'{path}: specified a number, got shape {np.shape(r)}')
            y = complex(ra[0])
            self.close(x, y, path)
            return
        if k == 'bool':
            self.n += 1
            x = self.ev.scalar(s[1])
            if not isinstance(r, (bool, np.bool_)) and not (np.ndim(r) == 0 and r in (0, 1)):
                raise Mismatch(f'{path}: specified {x}, got {r!r}'[:300])
            if bool(r) != x:
                raise Mismatch(f'{path}: specified {x}, got {r!r}')
            return
        if k == 'const':
            self.n += 1
            v = s[1]
            if isinstance(v, OpaqueStr):
                v2 = 'Zz_' + v.name
                if v.lowered:
                    v2 = v2.lower()
                v = v2
            if v is None:
                if r is not None:
                    raise Mismatch(f'{path}: specified None, got {type(r).__name__}')
                return
            if not (type(v) is type(r) and v == r):
                raise Mismatch(f'{path}: specified {v!r}, got {r!r}'[:300])
            return
        if k == 'arr':
            self.n += 1
            x = self.ev.content(s[1])
            if r is None or isinstance(r, (str, dict)):
                raise Mismatch(f'{path}: specified an array, got {type(r).__name__}')
            y = r.toarray() if scipy.sparse.issparse(r) else np.asarray(r)
            if y.dtype == object:
                try:
                    y = y.astype(float)
                except Exception:
                    raise Mismatch(f'{path}: specified a numeric array, got an object array')
            if tuple(y.shape) != tuple(x.shape):
                raise Mismatch(f'{path}: specified shape {x.shape}, got {y.shape}')
            if x.dtype == bool or y.dtype == bool:
                x, y = x.astype(float), y.astype(float)
            fin = np.isfinite(x)
            d = np.abs(np.where(fin, x, 0) - np.where(fin, y, 0))
            d = np.where(np.isnan(d), np.inf, d)
            sc = self.tol * (1 + (np.abs(x[fin]).max() if fin.any() else 0))
            if d.size and d.max() > sc:
                i = np.unravel_index(np.argmax(d), d.shape)
                raise Mismatch(f'{path}{list(map(int, i))}: specified {x[i]!r}, got {y[i]!r}')
            return
        if k in ('list', 'tuple'):
            if not isinstance(r, (list, tuple, np.ndarray)) or len(r) != len(s[1]):
                raise Mismatch(f'{path}: specified a sequence of length {len(s[1])}, got {type(r).__name__}')
            for i, x in enumerate(s[1]):
                self.cmp(x, r[i], f'{path}[{i}]')
            return
        if k == 'dict':
            for q, x in s[1].items():
                if not isinstance(r, dict) or q not in r:
                    raise Mismatch(f'{path}[{q!r}]: missing')
                self.cmp(x, r[q], f'{path}[{q!r}]')
            return
        if k == 'oarr':
            if not isinstance(r, np.ndarray) or tuple(r.shape) != tuple(s[1]):
                raise Mismatch(f'{path}: specified an object array of shape {s[1]}, got {type(r).__name__} {np.shape(r)}')
            for q, x in s[2].items():
                self.cmp(x, r[q], f'{path}{list(q)}')
            return
        if k == 'obj':
            key = (id(s[2]), id(r))
            if key in self.seen:
                return
            self.seen.add(key)
            if type(r) is not s[1].cls:
                raise Mismatch(f'{path}: specified {s[1].cls.__name__}, got {type(r).__name__}')
            d = r.__dict__
            for q, x in s[2].items():
                if x[0] == 'any' or q in self.ignore:
                    continue
                if q not in d:
                    raise Mismatch(f'{path}.{q}: attribute not set')
                self.cmp(x, d[q], f'{path}.{q}')

    def close(self, x, y, path):
        if not np.isfinite(x):
            return
        if not (abs(x - y) <= self.tol * (1 + abs(x))):
            raise Mismatch(f'{path}: specified {x!r}, got {y.real if abs(y.imag) < 1e-300 else y!r}')


class _Alarm(Exception):
    pass


def _alarm(sig, frm):
    raise _Alarm()


@contextlib.contextmanager
def time_limit(s):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, s)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def real_call(fnobj, args, kwargs, limit):
    """run the real function; -> ('ret', v) | ('exc', ex) | ('hang',)"""
    buf = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), np.errstate(all='ignore'), time_limit(limit):
            warnings.simplefilter('ignore')
            return ('ret', fnobj(*args, **kwargs))
    except _Alarm:
        return ('hang',)
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt):
            raise
        return ('exc', ex)


@contextlib.contextmanager
def scripted(scripts):
    old = []
    try:
        for _, _, py, qual in scripts:
            mod, qn = qual.split(':')
            o = importlib.import_module(mod)
            for part in qn.split('.')[:-1]:
                o = getattr(o, part)
            last = qn.split('.')[-1]
            old.append((o, last, o.__dict__[last]))
            setattr(o, last, py)
        yield
    finally:
        for o, last, f in reversed(old):
            setattr(o, last, f)


def earlier_call(fnobj, args, kwargs, val, requires, conc, limit):
    """the real function is called once before, with other data of the same sizes; what it leaves behind in attributes of its own
    (or in the module) stays there for the call that is compared"""
    v = Valuation(seed=val.seed + 500009, syms=val.syms, dists=val.dists, fns=val.fns, flags=val.flags, ext=val.ext)
    ev = Ev(v)
    try:
        if not all(bool(np.asarray(ev.boolean(b, {}, 0, {}))) for b in requires):
            return
        c = Concretizer(ev)
        if not fnobj.__module__.startswith('CADMium.psgrid'):       # an object keeps its grid
            c.memo.update({i: r for i, r in conc.memo.items() if type(r).__name__ == 'Psgrid'})
        a = [c.conv(x) for x in args]
        kw = {q: c.conv(x) for q, x in kwargs.items()}
    except (EvalError, np.linalg.LinAlgError):
        return
    real_call(fnobj, a, kw, limit)
    for i, r in c.memo.items():
        x = conc.memo.get(i)
        if hasattr(r, '__dict__') and hasattr(x, '__dict__') and type(r) is type(x):
            for q, y in r.__dict__.items():
                if q not in x.__dict__:
                    x.__dict__[q] = y


def replay_case(cs, seed, tol=None, limit=60, hint=None):
    """-> ('ok', n) | ('mismatch', text, info) | ('skip', why)"""
    fnobj = resolve(cs.qual)
    rng = random.Random(seed * 7919 + 13)
    val = Valuation(seed=seed)
    HeapObj.reg = []
    I = OracleInterp(CONTRACTS)
    I.skip_contract = cs.qual
    I.val = val
    k = Kit(I)
    if cs.sample is None:
        for n in ():
            pass
    try:
        solve._DEADLINE[0] = time.time() + limit
        r = cs.build(k)
        args, kwargs = r if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict) and isinstance(r[0], list) else (r, {})
        requires = list(I.ctx.a)
        ok = False
        for attempt in range(40):
            val.__init__(seed=seed * 1000 + attempt)
            val.fns['mir'] = lambda p, val=val: val.syms['Np'] - 1 - p
            if cs.sample is not None:
                cs.sample(val, rng)
            for n in k.ints:
                if n not in val.syms:
                    val.syms[n] = rng.randint(1, 5)
            ev = Ev(val)
            if all(bool(np.asarray(ev.boolean(b, {}, 0, {}))) for b in requires):
                ok = True
                break
        if not ok:
            return ('skip', 'no valuation satisfies the preconditions')
        if cs.opts.get('again'):
            if k.scripts:
                I.contracts = {**I.contracts, **{q: c for q, c, _, _ in k.scripts}}
            roots = live_objs(snapshot())
            I.roots, I.known = roots, {id(o.st): o.st for o in roots if isinstance(o, Arr) and o.base is None}
            with_history(I, cs, fnobj, args, kwargs)
        conc = Concretizer(ev)
        rargs = [conc.conv(a) for a in args]
        rkw = {q: conc.conv(a) for q, a in kwargs.items()}
        for h in k.post_real:
            h(conc)
        pre = snapshot()
        roots = [o for o in live_objs(pre)]
        ba = bind_args(I, fnobj, args, kwargs)
        I.while_unlimited = True
        if k.scripts:
            I.contracts = {**I.contracts, **{q: c for q, c, _, _ in k.scripts}}
        I.roots, I.known = roots, {id(o.st): o.st for o in roots if isinstance(o, Arr) and o.base is None}
        spec = run_outcome(lambda: I.apply_contract(cs.qual, ba))
        memo = {}
        if spec[0] == 'ret':
            sres = capture(spec[1], memo)
            sstate = [(o, capture(o, memo)) for o in roots if isinstance(o, (Obj, Arr, OArr, PList, PDict))]
        solve._DEADLINE[0] = None
        np.random.seed(seed % 2**32)
        if cs.opts.get('again'):
            with scripted(k.scripts):
                earlier_call(fnobj, args, kwargs, val, requires, conc, limit)
        with scripted(k.scripts):
            out = real_call(fnobj, rargs, rkw, limit)
        info = {'case': cs.id, 'seed': seed, 'inputs': describe_val(val)}
        if out[0] == 'hang':
            return ('mismatch', f'does not return within {limit} s', info)
        if spec[0] == 'exc':
            if out[0] == 'exc':
                return ('ok', 1)
            return ('mismatch', f'specified to raise {spec[1].name}, returns normally', info)
        if out[0] == 'exc':
            tb = traceback.extract_tb(out[1].__traceback__)
            where = next((f'{os.path.relpath(f.filename, REPO)}:{f.lineno}' for f in reversed(tb) if f.filename.startswith(REPO)), '?')
            return ('mismatch', f'raises {type(out[1]).__name__}: {str(out[1])[:200]} at {where}', info)
        RealCompare.ignore = cs.opts.get('ignore', ())
        rc = RealCompare(ev, conc, tol or cs.opts.get('tol', 1e-6))
        try:
            rc.cmp(sres, out[1], 'result')
            for o, sn in sstate:
                if id(o) in conc.memo:
                    rc.cmp(sn, conc.memo[id(o)], objname(o, roots))
            er = cs.opts.get('ensures_real')
            if er is not None:
                er(rargs, out[1])
        except Mismatch as m:
            return ('mismatch', str(m), info)
        return ('ok', rc.n)
    except (Unsupported, NeedFork, EvalError, solve.Timeout, Truncated, np.linalg.LinAlgError) as ex:
        return ('skip', f'{type(ex).__name__}: {ex}')
    finally:
        solve._DEADLINE[0] = None
        solve.GLOBAL.a, solve.GLOBAL.aset = [], set()


def describe_val(val):
    return {'seed': val.seed, 'symbols': {k: (float(v) if not isinstance(v, int) else v) for k, v in val.syms.items() if not k.startswith(('nv!', 'o!'))},
            'flags': {k: v for k, v in val.flags.items() if isinstance(v, bool)}}
