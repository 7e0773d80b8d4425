"""Unbounded while loops: the loop of the contract and the loop of the code are run in lockstep from a generic state.

The contract states a loop by its variables, its condition and one step.  The proof has three parts, explored as paths:
  base      the states at loop entry agree, the conditions agree there, and so do the states after the first iteration;
  step      from an arbitrary state (every location the first iteration changed is replaced by a fresh value of the same kind, the same in
            both runs) in which the contract's condition holds, the code's condition holds and one iteration of each ends in equal states;
  exit      from an arbitrary such state in which the contract's condition fails, the code leaves the loop and the rest of both is compared.
Local variables of the code are paired with loop variables of the contract (or heap locations) that have equal values at entry and after
the first iteration; the step part re-establishes the pairing.  Unpaired locals are poisoned (reading one before writing it is refused)."""
import time
from .terms import *
from .values import *
from . import solve


class SpecStop(Exception):
    """the contract's run ends after one generic iteration"""


class StepDone(Exception):
    """the code's run ends after one generic iteration"""


class NoRule(Exception):
    """the loop does not fit the rule; fall back to unrolling"""


SOME = 'some value, the same in the contract and the code, of a location set in some iterations only'


class Record:
    pass


def capture_all(F, I, extra):
    memo = {}
    roots = [o for o in I.loop_roots if not isinstance(o, Frame)]
    return {o: F.capture(o, memo) for o in roots}, {w: F.capture(v, memo) for w, v in extra.items()}


def same(a, b):
    """identical captures (no proof)"""
    if a is b:
        return True
    if a[0] != b[0]:
        return False
    k = a[0]
    if k in ('num', 'bool'):
        return a[1] is b[1]
    if k == 'arr':
        return a[1] is b[1]
    if k == 'const':
        return a[1] == b[1]
    if k in ('list', 'tuple'):
        return len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    if k in ('fn', 'other', 'opaque'):
        return a[1] is b[1]
    if k == 'obj':
        return a[1] is b[1]          # its own locations are compared one by one
    if k in ('oarr', 'dict'):
        return a[-1].keys() == b[-1].keys() and all(same(a[-1][q], b[-1][q]) for q in a[-1])
    return False


def havoc(c, name, memo):
    """a fresh value of the same kind; equal captures get equal values"""
    k = c[0]
    if k == 'num':
        key = ('n', c[1]) if c[1].const() is None and memo['share'] else ('n', object())
        if key not in memo:
            memo[key] = SV(sym(f'lv_{name}_{c[2]}{number(memo)}', 'int' if c[2] == 'int' else 'real'), c[2])
        return memo[key]
    if k == 'bool':
        return SB(bvar(f'lv_{name}_b{number(memo)}'))
    if k == 'arr':
        key = ('a', id(c[1]) if memo['share'] else object())
        if key not in memo:
            a = c[1]
            so = 'int' if a.dtype == 'i' else 'real'
            nm = f'lv_{name}_{so}{len(a.shape)}_{number(memo)}'
            get = (lambda *i: batom(nm, *i)) if a.dtype == 'b' else (lambda *i: app(nm, i, so) if i else sym(nm, so))
            memo[key] = ArrC(a.shape, get, a.dtype, a.kind)
            memo[key, 'keep'] = a
        return memo[key]
    if k == 'obj':
        o = ('newobj', c[1], {q: havoc(v, q, memo) for q, v in c[2].items()})
        return o
    if k == 'oarr':
        return ('newoarr', c[1], {q: havoc(v, name, memo) for q, v in c[2].items()})
    if k in ('const', 'fn', 'any'):
        raise NoRule(f'{name} changes in the loop and is not a number or an array')
    raise NoRule(f'{name}: {k} changes in the loop')


import ast


def number(memo):
    memo['n'] += 1
    return f"{memo['loop']}.{memo['n']}"         # the same in every path: results of the prover are found again


class Unknown:
    def __init__(self, why):
        self.why = why


def build(v):
    """heap value of a havoc description (a new array object each time)"""
    if isinstance(v, Unknown):
        return Poison(v.why)
    if isinstance(v, ArrC):
        return Arr(v)
    if isinstance(v, tuple) and v and v[0] == 'newobj':
        return Obj(v[1].cls, {q: build(x) for q, x in v[2].items()}, v[1].name)
    if isinstance(v, tuple) and v and v[0] == 'newoarr':
        return OArr(v[1], {q: build(x) for q, x in v[2].items()})
    return v


def changed(a, b):
    """(container, key) -> capture afterwards, of the locations that differ"""
    out = {}
    for o, cb in b.items():
        ca = a[o]
        if isinstance(o, Obj):
            da, db = ca[2], cb[2]
        elif isinstance(o, OArr):
            da, db = ca[2], cb[2]
        elif isinstance(o, PDict):
            da, db = ca[1], cb[1]
        elif isinstance(o, PList):
            if len(ca[1]) != len(cb[1]):
                raise NoRule('a list grows in the loop')
            da, db = dict(enumerate(ca[1])), dict(enumerate(cb[1]))
        elif isinstance(o, Arr):
            if o.base is None and not same(ca, cb):
                if not isinstance(o.st, ArrC):
                    raise NoRule('an array of the precondition is written in place in the loop')
                out[o, None] = cb
            continue
        else:
            continue
        for q, v in db.items():
            if q not in da or not same(da[q], v):
                out[o, q] = v
    return out


def spec_loop(I, F, vars, cond, step, inv=None):
    """used by contracts: while cond(): step()   (vars: dict of the loop's own variables, updated in place by step)"""
    rec = Record()
    I.loop_recs.append(rec)
    rec.s0 = capture_all(F, I, vars)
    rec.enter = I.decide(cond())
    if not rec.enter:
        return
    step()
    if inv is not None and not I.ctx.prove(inv()):
        raise NoRule('the invariant does not hold after the first iteration')
    rec.s1 = capture_all(F, I, vars)
    ch = changed(rec.s0[0], rec.s1[0])
    memo = {'share': I.loop_share, 'loop': len(I.loop_recs), 'n': 0}
    rec.hv = {w: havoc(c, w, memo) for w, c in rec.s1[1].items()}
    rec.hh = {(o, q): havoc(c, str(q), memo) for (o, q), c in ch.items()}
    for t in I.loop_hints:
        if isinstance(t, tuple) and t[0] == 'unknown':       # set in some iterations only: its value must not be used before it is set
            o, q = I.loop_roots[t[1][0]], t[1][2]
            rec.hh.setdefault((o, q), Unknown(f'{SOME}: {t[1]}'))
    kept = apply_heap(rec.hh)
    for w, v in rec.hv.items():
        vars[w] = build(v)
    if inv is not None:
        I.ctx = I.ctx.with_(inv())
    rec.more = I.fork(bvar('another iteration'))
    c = cond()
    if isinstance(c, bool):
        if c != rec.more:
            I.ctx = I.ctx.with_(FALSE)
            rec.dead = True
    else:
        I.ctx = I.ctx.with_(c if rec.more else bnot(c))
    if not rec.more:
        return
    h = capture_all(F, I, vars)
    step()
    if inv is not None and not I.ctx.prove(inv()):
        raise NoRule('the invariant is not kept')
    check_kept(kept)
    rec.s2 = capture_all(F, I, vars)
    # the kinds of values are preserved, nothing else changed
    ch2 = changed(h[0], rec.s2[0])
    for loc, c in ch2.items():
        if loc not in rec.hh:
            ex = NoRule(f'{loc[1]} changes only in later iterations')
            if not isinstance(loc[0], Arr):
                ex.hints = {('unknown', keyname(I, loc))}
            raise ex
    for loc, v in rec.hh.items():
        kind_kept(I, v, rec.s2[0][loc[0]], loc[1], loc[0])
    for w, v in rec.hv.items():
        kind_kept(I, v, rec.s2[1], w, None)
    groups = {}
    for w, v in rec.hv.items():
        groups.setdefault(id(v), []).append(rec.s2[1][w])
    for (o, q), v in rec.hh.items():
        if isinstance(v, Unknown):
            continue
        groups.setdefault(id(v), []).append(caploc(rec.s2[0], o, q))
    for g in groups.values():
        if any(not same(g[0], x) for x in g[1:]):
            raise NoRule('values that agree after the first iteration do not in later ones')
    raise SpecStop()


def kind_kept(I, v, c, key, o):
    if isinstance(v, Unknown):
        return
    if not isinstance(o, Arr):
        c = (c[2] if isinstance(o, (Obj, OArr)) else c[1] if o is not None else c)[key]
    if isinstance(v, ArrC):
        ok = c[0] == 'arr' and len(c[1].shape) == len(v.shape) and all(a is b or I.ctx.prove(eq(a, b)) for a, b in zip(c[1].shape, v.shape)) and c[1].kind == v.kind
    elif isinstance(v, SV):
        ok = c[0] == 'num'
    elif isinstance(v, SB):
        ok = c[0] == 'bool'
    elif v[0] == 'newoarr':
        ok = c[0] == 'oarr' and c[1] == v[1] and c[2].keys() == v[2].keys()
    else:
        ok = c[0] == 'obj' and all(q in c[2] for q in v[2])
    if not ok:
        raise NoRule(f'{key} changes its kind or shape in the loop')


def apply_heap(hh):
    """the generic values; returns the locations that keep their (changed) array of the precondition"""
    done, kept = {}, []
    for (o, q), v in hh.items():
        if isinstance(o, Arr):
            o.st = v            # the array itself: its views follow
            continue
        x = o.st[q] if isinstance(o, PList) else o.st.get(q)
        if isinstance(x, Arr) and (x, None) in hh:
            kept.append((o, q, x))
        elif isinstance(v, ArrC):
            if id(v) not in done:
                done[id(v)] = build(v)
            o.st[q] = done[id(v)]
        else:
            o.st[q] = build(v)
    return kept


def check_kept(kept):
    for o, q, x in kept:
        if o.st[q] is not x:
            raise NoRule(f'{q} becomes another array in later iterations')


def code_loop(I, F, s, fr, rec):
    """the while statement s of the code against the record of the contract's loop"""
    cm = lambda what: F.Comparer(I.ctx, I.loop_tag + ' loop ' + what)

    def compare(what, spec):
        roots, _ = capture_all(F, I, {})
        c = cm(what)
        c.ignore = I.loop_ignore
        for o, sn in spec[0].items():
            c.cmp(sn, roots[o], F.objname(o, None))
        I.loop_obl.extend(c.obl)
        return all(o.ok for o in c.obl)

    def test(want, what):
        t = I.truth(I.ev(s.test, fr))
        if isinstance(t, bool):
            ok = t == want
        else:
            ok = I.ctx.prove(t if want else bnot(t))
            I.ctx = I.ctx.with_(t if want else bnot(t))
        I.loop_obl.append(F.Obligation(f'{I.loop_tag} loop {what}: condition {"holds" if want else "fails"}', bool(ok), f'the loop condition of the code is not equivalent to the specified one'))
        if not ok:
            raise StepDone()

    def iterate():
        from .interp import Brk, Cnt
        try:
            I.block(s.body, fr)
        except Cnt:
            pass
        except Brk:
            raise NoRule('break')
    n0 = len(I.trail)
    cap_locals = lambda: {v: F.capture(x) for v, x in fr.st.items()}
    loc0 = cap_locals()
    compare('entry', rec.s0)
    test(rec.enter, 'entry')
    if not rec.enter:
        I.block(s.orelse, fr)
        return
    b0 = capture_all(F, I, {})
    outer, I.loop_stores = I.loop_stores, set()
    iterate()
    written = {v for f, v in I.loop_stores if f == id(fr)}
    I.loop_stores = outer if outer is None else outer | I.loop_stores
    if not compare('first iteration', rec.s1):
        raise StepDone()
    loc1 = cap_locals()
    b1 = capture_all(F, I, {})
    # pair locals with loop variables or changed heap locations
    pairs, inv = {}, []

    def equal(a, b, limit=None):
        if a[0] not in ('num', 'arr', 'bool') or b[0] not in ('num', 'arr', 'bool'):
            return False
        if same(a, b):
            return True
        if limit is not None and (a[0] != b[0] or a[0] == 'num' and a[2] != b[2]):
            return False
        old, D = solve._DEADLINE[0], solve._DEADLINE
        if limit is not None:
            D[0] = min(time.time() + limit, old or 1e18)
        try:
            c = F.Comparer(I.ctx, '')
            c.cmp(a, b, '')
            return all(o.ok for o in c.obl)
        finally:
            D[0] = old

    def follows(v, c, before, after):
        return same(before, loc0[v]) and same(after, c) if v in loc0 else same(after, c)

    def follows_proved(v, c, before, after, limit):
        return (v not in loc0 or equal(before, loc0[v], limit)) and equal(after, c, limit)
    live = live_at_head(s, getattr(fr, 'node', None))
    stored = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for v, c in loc1.items():
        if v not in live:
            continue
        if (v not in stored or v not in written and v not in rec.s1[1] and ('varies', v) not in I.loop_hints) and v in loc0 and same(loc0[v], c):
            inv.append(v)
            continue
        cands = [(('var', w), rec.s0[1].get(w, ('none',)), rec.s1[1][w]) for w in sorted(rec.s1[1], key=lambda w: w != v) if w in rec.hv] + \
            [(('loc', o, q), caploc(rec.s0[0], o, q), caploc(rec.s1[0], o, q)) for (o, q), x in rec.hh.items() if isinstance(x, (ArrC, SV))]
        cands = [c for c in cands if ('unpaired', v, c[0][1:] if c[0][0] == 'var' else keyname(I, c[0][1:])) not in I.loop_hints]
        t0 = time.time()
        hit = next((p for p, x, y in cands if p == ('var', v) and follows_proved(v, c, x, y, None)), None) or next((p for p, x, y in cands if follows(v, c, x, y)), None) or \
            (None if v in I.loop_slow else next((p for p, x, y in cands if p != ('var', v) and follows_proved(v, c, x, y, 2.0)), None))
        if hit is None and time.time() - t0 > 1:
            I.loop_slow.add(v)        # other paths: do not try to prove again what this local follows
        if hit is not None:
            pairs[v] = hit
        elif v in loc0 and same(loc0[v], c) and ('varies', v) not in I.loop_hints:
            inv.append(v)
    # aliasing in the code's state after the first iteration
    al1 = aliases(I, fr, pairs)
    known = {frozenset((keyname(I, x), keyname(I, y))) for x, y in map(tuple, al1)} | I.loop_hints
    # generic state
    extra = changed(b0[0], b1[0])
    kept = apply_heap(rec.hh)
    for o, q in extra:
        if (o, q) not in rec.hh:
            if isinstance(o, Arr):
                raise NoRule('an array that is not part of the specified state is written in the loop')
            o.st[q] = Poison(f'{q} is set in the loop and not part of the specified state')
    for v in list(fr.st):
        if v in inv:
            continue
        p = pairs.get(v)
        if p is None:
            fr.st[v] = Poison(f'local variable {v} of the loop (generic iteration)')
        elif p[0] == 'var':
            fr.st[v] = build(rec.hv[p[1]])
        else:
            fr.st[v] = p[1] if isinstance(p[1], Arr) else p[1].st[p[2]]
    new = slots(I, fr, pairs)
    for xy in known:
        if not isinstance(xy, frozenset):
            continue
        a, b = (next((x for k, x in new.items() if keyname(I, k) == n), None) for n in xy)
        if isinstance(a, Arr) and isinstance(b, Arr) and a is not b and a.root() is not b.root():
            a.link_maybe(b)
    test(rec.more, 'generic state')
    if not rec.more:
        I.block(s.orelse, fr)
        return
    iterate()
    check_kept(kept)
    compare('generic iteration', rec.s2)
    c = cm('generic iteration')
    loc2 = cap_locals()
    for v, p in pairs.items():
        want = rec.s2[1][p[1]] if p[0] == 'var' else caploc(rec.s2[0], p[1], p[2])
        ok = equal(want, loc2[v])
        if p == ('var', v):
            I.loop_obl.append(F.Obligation(f'{I.loop_tag} loop generic iteration: {v}', ok, f'the loop variable {v} differs from the specified one after an iteration'))
        elif not ok:
            ex = NoRule(f'local variable {v} does not follow {p[1:]}')
            ex.hints = {('unpaired', v, p[1:] if p[0] == 'var' else keyname(I, p[1:]))}
            raise ex
    for v in inv:
        if not same(loc1[v], loc2[v]):
            ex = NoRule(f'local variable {v} changes only in later iterations')
            ex.hints = {('varies', v)}
            raise ex
    al2 = aliases(I, fr, pairs)
    grown = {frozenset((keyname(I, x), keyname(I, y))) for x, y in map(tuple, al2)} - known
    if grown:
        ex = NoRule('aliasing grows in later iterations: ' + '; '.join(' and '.join(sorted(map(str, g))) for g in grown))
        ex.hints = grown
        raise ex
    raise StepDone()


def live_at_head(s, node):
    """names that may be read before they are written when the loop is entered again or left"""
    live = set()

    def reads(x, done):
        if isinstance(x, ast.Name):
            if isinstance(x.ctx, ast.Load) and x.id not in done:
                live.add(x.id)
        elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            own = set(done)                 # their targets are their own
            for g in x.generators:
                reads(g.iter, own)
                own |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for c in g.ifs:
                    reads(c, own)
            for e in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]):
                reads(e, own)
        else:
            for n in ast.iter_child_nodes(x):
                reads(n, done)

    def stmts(b, done):
        for x in b:
            if isinstance(x, ast.Assign):
                reads(x.value, done)
                for t in x.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                            reads(n, done)
                    for n in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(n, ast.Name):
                            done.add(n.id)
            elif isinstance(x, ast.AugAssign):
                reads(x.value, done)
                for n in ast.walk(x.target):
                    if isinstance(n, ast.Name) and n.id not in done:
                        live.add(n.id)
            elif isinstance(x, ast.If):
                reads(x.test, done)
                a, b2 = set(done), set(done)
                stmts(x.body, a)
                stmts(x.orelse, b2)
                done |= a & b2
            elif isinstance(x, (ast.For, ast.While)):
                inner = set(done)
                if isinstance(x, ast.For):
                    reads(x.iter, done)
                    inner |= {n.id for n in ast.walk(x.target) if isinstance(n, ast.Name)}
                else:
                    reads(x.test, done)
                stmts(x.body, inner)
                stmts(x.orelse, set(done))
            else:
                reads(x, done)
    reads(s.test, ())
    stmts(s.body, set())
    if node is not None and s in node.body:
        stmts(node.body[node.body.index(s) + 1:], set())
    elif node is not None:
        end = s.end_lineno
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.lineno > end:
                live.add(n.id)
    return live


def caploc(caps, o, q):
    c = caps[o]
    if isinstance(o, Arr):
        return c
    d = c[2] if isinstance(o, (Obj, OArr)) else dict(enumerate(c[1])) if isinstance(o, PList) else c[1]
    return d.get(q, ('none',))


def slots(I, fr, pairs):
    out = {('local', v): x for v, x in fr.st.items()}
    for o in I.loop_roots:
        if isinstance(o, (Obj, OArr, PDict)):
            for q, x in o.st.items():
                out[o, q] = x
    return {k: x for k, x in out.items() if isinstance(x, Arr)}


def keyname(I, k):
    """of a slot, the same in every attempt"""
    return k if k[0] == 'local' else (next(i for i, o in enumerate(I.loop_roots) if o is k[0]), getattr(k[0], 'name', ''), k[1])


def aliases(I, fr, pairs):
    by = {}
    for k, x in slots(I, fr, pairs).items():
        if k[0] == 'local' and k[1] not in pairs:
            continue
        by.setdefault(id(x.root()), []).append(k)
    out = set()
    for ks in by.values():
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                out.add(frozenset((a, b)))
    return out
