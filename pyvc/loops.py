"""Loops: concrete ones run, loops of symbolic length are summarised for all iterations.

The rule for  for i in [lo, hi): BODY  (BODY executed once, for an arbitrary i, from an arbitrary state of everything
it writes):
  * a scalar (or element of a concrete array) v with  v_out = v_in + t(i), t free of loop state, has the closed form
    v(i) = v(lo) + sum_{k=lo}^{i-1} t(k);
  * an array written at locations e(i, ..):  obligations
       disjoint:  i != j  =>  e(i, ..) != e'(j, ..)
       no-read:   a location read in iteration i is not written in another iteration (parallel) / an earlier one
    then after the loop A[e(i,..)] is what iteration i wrote, everything else is as before;
  * an array written at locations that do not depend on i by  A[e] = A_in[e] + t(i)  is A[e] + sum t.
For an outermost prange of a parallel=True function, the obligations make the result independent of the schedule.
Anything else is outside the rule: Unsupported (never a violation).
"""
import sys
from fractions import Fraction
import numpy as np
import z3
from . import poly as P
from .poly import Poly, Unsupported, patom, padd, pmul, pconst, subst, ZERO, ONE, psum
from .sym import S, SymBool, And, Or, Not, lift, lower, compare, ctx, numeric, all_atoms, to_z, PathEnd, form_polys, form_map
from . import arr as A
from .arr import SymArr, GW, Upd, Pts, Sym, STORES, HAVOC, vmap, resolve

PAR = []
_n = [0]

class SymSeq:
    """a sequence of symbolic length: item(k Poly) for k in [0, n)"""
    def __init__(self, n, item, par=False, lo=None):
        self.n, self.item, self.par = n, item, par
        self.lo = lo
    def vlen(self):
        return self.n
    def __iter__(self):
        raise Unsupported("native iteration over a sequence of symbolic length")
    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a symbolic range")
        return self.item(A.check_index(lift(k), self.n))
    def __len__(self):
        return int(self.n)

class CRange:
    """concrete range remembering that it was a prange"""
    def __init__(self, r, par):
        self.r, self.par = r, par
    def __iter__(self):
        return iter(self.r)
    def __len__(self):
        return len(self.r)
    def __getitem__(self, k):
        return self.r[k]

def vrange(*a, par=False):
    from .arr import simp_dim
    a = [simp_dim(x) for x in a]
    for x in a:
        if isinstance(x, Fraction) or isinstance(x, S) and not x.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in a):
        return CRange(range(*a), True) if par else range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if st not in (1, -1):
        raise Unsupported("range step")
    lop = lift(lo)
    n = (hi - lo) if st == 1 else (lo - hi)
    s = SymSeq(n, lambda k: lower(padd(lop, k) if st == 1 else padd(lop, k, -1)), par)
    if st == 1:
        s.lo = lo
        s.hi = hi
    return s

def seq_of(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, SymArr) and not isinstance(x.shape[0], int):
        return SymSeq(x.shape[0], lambda k: x[lower(k)])
    return None

def vzip(*xs, **k):
    ss = [seq_of(x) for x in xs]
    if not any(s is not None for s in ss):
        return zip(*xs, **k)
    n = None
    for s, x in zip(ss, xs):
        m = s.n if s is not None else len(x)
        if n is None:
            n = m
        elif bool(m < n) if not isinstance(m < n, bool) else m < n:
            n = m
    if isinstance(n, int):
        return [tuple(s.item(pconst(k, True)) if s is not None else list(x)[k] for s, x in zip(ss, xs)) for k in range(n)]
    def item(k):
        return tuple(s.item(k) if s is not None else list(x)[ctx().concretize(lower(k))] for s, x in zip(ss, xs))
    return SymSeq(n, item)

def venumerate(x, start=0):
    s = seq_of(x)
    if s is None:
        return enumerate(x, start)
    return SymSeq(s.n, lambda k: (lower(padd(k, lift(start))), s.item(k)))

def vreversed(x):
    s = seq_of(x)
    if s is None:
        return reversed(x.r) if isinstance(x, CRange) else reversed(x)
    np_ = lift(s.n)
    return SymSeq(s.n, lambda k: s.item(padd(padd(np_, ONE, -1), k, -1)))

class Poison:
    """value of a variable after a loop whose final value the summary does not give"""
    def __init__(self, why):
        object.__setattr__(self, "why", why)
    def _bad(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "why"))
    __getattr__ = __call__ = __bool__ = __iter__ = __len__ = __getitem__ = __setitem__ = __add__ = __radd__ = _bad
    __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __eq__ = __lt__ = __gt__ = __le__ = __ge__ = _bad
    __neg__ = __matmul__ = __rmatmul__ = __index__ = __int__ = __float__ = __iadd__ = __isub__ = _bad
    __hash__ = object.__hash__

class Unbound:
    def __repr__(self):
        return "<unbound>"
UNBOUND = Unbound()

NORMAL, CONTINUE, BREAK, RETURN = 0, 1, 2, 3

def vc_loop(it, body, get, put, kind, site):
    """run the loop; body(target) -> code or (RETURN, value).  Returns None or (RETURN, value)."""
    s = seq_of(it)
    if s is None and not isinstance(it, SymArr):
        par = isinstance(it, CRange) and it.par and bool(PAR) and PAR[-1]
        if par:
            PAR[-1] = False
        try:
            for x in it:
                r = body(x)
                if r is None or r == CONTINUE:
                    continue
                if r == BREAK:
                    break
                return r
        finally:
            if par:
                PAR[-1] = True
        return None
    if s is None:
        for x in it:
            r = body(x)
            if r is None or r == CONTINUE:
                continue
            if r == BREAK:
                break
            return r
        return None
    n = s.n
    if isinstance(n, S):
        n = lower(ctx().norm(n.p))
    if isinstance(n, int):
        return vc_loop([s.item(pconst(k, True)) for k in range(n)], body, get, put, kind, site)
    par = s.par and bool(PAR) and PAR[-1]
    if par:
        PAR[-1] = False
    try:
        return sym_loop(s, n, body, get, put, par, site)
    finally:
        if par:
            PAR[-1] = True

def owner(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a

def find_natives(frame_locals):
    out = {}
    seen = set()
    def rec(v, d):
        if id(v) in seen or d > 4:
            return
        seen.add(id(v))
        if isinstance(v, np.ndarray):
            o = owner(v)
            if o.dtype == object:
                out[id(o)] = o
        elif isinstance(v, (list, tuple)):
            if len(v) < 200:
                for x in v:
                    rec(x, d + 1)
        elif isinstance(v, dict):
            if len(v) < 200:
                for x in v.values():
                    rec(x, d + 1)
        elif hasattr(v, "__dict__") and type(v).__module__.startswith("sigmaepsilon"):
            for x in list(vars(v).values()):
                rec(x, d + 1)
    for v in frame_locals.values():
        rec(v, 0)
    return out

def find_state(frames):
    """attributes of repository objects and lists/dicts that a loop body could change: (what, snapshot) pairs"""
    objs, seen = [], set()
    def rec(v, d):
        if id(v) in seen or d > 3 or isinstance(v, (np.ndarray, SymArr, S, type)):
            return
        seen.add(id(v))
        if isinstance(v, (list, dict, set)):
            if len(v) > 200:
                return
            objs.append((v, snap(v)))
            for x in (list(v.values()) if isinstance(v, dict) else list(v)):
                rec(x, d + 1)
        elif hasattr(v, "__dict__") and any(c.__module__.startswith("sigmaepsilon") for c in type(v).__mro__):
            objs.append((v.__dict__, snap(v.__dict__)))
            for x in list(v.__dict__.values()):
                rec(x, d + 1)
            for c in type(v).__mro__:
                for a in c.__dict__.get("__slots__", ()):
                    if isinstance(a, str) and hasattr(v, a):
                        rec(getattr(v, a), d + 1)
    for f in frames:
        for n, v in list(f.items()):
            if not n.startswith("_vc_"):
                rec(v, 0)
    return objs

def snap(v):
    return [(k, id(x)) for k, x in v.items()] if isinstance(v, dict) else [id(x) for x in v]

def state_same(objs):
    return all(snap(o) == s for o, s in objs)

def gws_above(fn, base):
    out = []
    while fn is not base:
        if isinstance(fn, Pts):
            out.extend(reversed(fn.d.values()))
            fn = fn.prev
            continue
        if not isinstance(fn, Upd):
            raise Unsupported("array rebuilt inside a loop")
        out.append(fn.gw)
        fn = fn.prev
    out.reverse()
    return out

def sym_loop(s, n, body, get, put, par, site):
    c = ctx()
    c.loops_done += 1
    k = P.fresh_bv()
    kp = patom(k)
    np_ = lift(n)
    entry = get()
    natives = find_natives(sys._getframe(2).f_locals)
    fl = sys._getframe(3).f_locals if sys._getframe(3) is not None else {}
    natives.update(find_natives(fl))
    state = find_state([sys._getframe(2).f_locals, fl])
    W, N = [], []
    havname = {}
    carried = {}            # index of the variable -> atom Poly
    for idx, v in enumerate(entry):
        if numeric(v) and not isinstance(v, (bool, SymBool, np.bool_)):
            _n[0] += 1
            pv = lift(v)
            carried[idx] = patom(P.mk_atom("var", ("loopin!%d" % _n[0],), pv.isint))
    nat_in = {}
    for attempt in range(6):
        need_W, need_N = [], []
        pre = {st: st.fn for st in list(STORES)}
        nat_pre = {i: o.copy() for i, o in natives.items()}
        def run():
            c.add(compare(kp, ">="))
            c.add(compare(padd(kp, np_, -1), "<"))
            vals = list(entry)
            for idx, p in carried.items():
                vals[idx] = lower(p)
            put(tuple(vals))
            for st in W:
                st.fn = Sym(havname[st], st.isint, st.isbool)
            base = {st: st.fn for st in W}
            for o in N:
                o[...] = nat_in[id(o)]
            exc = None
            try:
                try:
                    r = body(s.item(kp))
                except (PathEnd, Unsupported):
                    raise
                except Exception as e:
                    exc = e
                    r = None
                if r is not None and r != CONTINUE:
                    raise Unsupported("break or return in a loop of symbolic length")
                if not state_same(state):
                    raise Unsupported("an object or list is changed in a loop of symbolic length")
                out = get()
                gws = {st: gws_above(st.fn, base[st]) for st in W}
                for st, f in pre.items():
                    if st not in base and st.fn is not f:
                        need_W.append(st)
                cont = {id(o): o.copy() for o in N}
                for i, o in natives.items():
                    if id(o) not in nat_in and not same_content(o, nat_pre[i]):
                        need_N.append(o)
                return out, gws, cont, exc
            finally:
                for st, f in pre.items():
                    st.fn = f
                for i, o in natives.items():
                    o[...] = nat_pre[i]
                put(entry)
        was, c.skolems = c.skolems, c.skolems | {k.id}
        try:
            variants = c.explore(run, with_conds=True)
        finally:
            c.skolems = was
        if not need_W and not need_N:
            break
        for st in need_W:
            if st not in W:
                W.append(st)
                _n[0] += 1
                havname[st] = "pre!%d" % _n[0]
                HAVOC[havname[st]] = None
        for o in need_N:
            if id(o) not in nat_in:
                N.append(o)
                m = np.empty(o.shape, dtype=object)
                for ix in np.ndindex(*o.shape):
                    _n[0] += 1
                    x = o[ix]
                    if not numeric(x) or isinstance(x, (bool, SymBool)):
                        raise Unsupported("loop over an array of non-numbers")
                    m[ix] = lower(patom(P.mk_atom("var", ("loopin!%d" % _n[0],), False)))
                nat_in[id(o)] = m
    else:
        raise Unsupported("loop write set does not stabilise")
    ok_variants = [(v, cs) for v, cs in variants if v[3] is None]
    exc_variants = [(v, cs) for v, cs in variants if v[3] is not None]
    if not variants:
        return None                     # never entered
    # ---- carried scalars
    havoc_names = {havname[st] for st in W}
    items = []                          # (in atom Poly, entry Poly, [outs], setter)
    final = list(entry)
    def collect(inp, ent, outs, key):
        items.append([inp, ent, outs, key, None, None])
    for idx, p in carried.items():
        outs = [v[0][idx] for v, _ in ok_variants]
        collect(p, lift(entry[idx]), [lift(o) if numeric(o) and not isinstance(o, SymBool) else None for o in outs], ("v", idx))
    for o in N:
        for ix in np.ndindex(*o.shape):
            outs = [v[2][id(o)][ix] for v, _ in ok_variants]
            collect(lift(nat_in[id(o)][ix]), lift(o[ix]), [lift(x) if numeric(x) else None for x in outs], ("n", o, ix))
    inid = {next(iter(it[0].t))[0][0]: it for it in items}
    for it in items:
        if all(o is not None and o.t == it[0].t for o in it[2]):
            it[4] = "same"
    bad = lambda p: any(a in inid and inid[a][4] != "same" for a in all_atoms(p)) or bool(app_names(p) & havoc_names)
    for it in items:
        if it[4] is None and it[2] and all(o is not None for o in it[2]):
            ts = [padd(o, it[0], -1) for o in it[2]]
            if all(t.t == ts[0].t for t in ts) and not bad(ts[0]):
                it[4], it[5] = "ind", ts[0]
    # geometric or other recurrences are outside the rule
    sub_in = {}
    closed = {}
    kk = P.fresh_bv()
    for it in items:
        a = next(iter(it[0].t))[0][0]
        if it[4] == "same":
            sub_in[a] = it[1]
    for it in items:
        a = next(iter(it[0].t))[0][0]
        if it[4] == "ind":
            t = subst(it[5], sub_in)
            it[5] = t
            if k.id in all_atoms(t):
                cf = padd(it[1], psum(kk, ZERO, kp, subst(t, {k.id: patom(kk)})))
                end = padd(it[1], psum(kk, ZERO, np_, subst(t, {k.id: patom(kk)})))
            else:
                cf = padd(it[1], pmul(kp, t))
                end = padd(it[1], pmul(np_, t))
            sub_in[a] = cf
            closed[a] = end
            if not (c.entails(compare(np_, ">="))):
                raise Unsupported("loop length may be negative")
    over = {next(iter(it[0].t))[0][0] for it in items if it[4] is None}
    def cl(p):
        q = subst(p, sub_in)
        used = all_atoms(q) & over
        if used:
            if par:
                race("value carried between iterations of a parallel loop", site)
            raise Unsupported("loop-carried value without closed form")
        return q
    def clg(g):
        return form_map(g.form, cl) if isinstance(g, SymBool) else g
    # ---- array writes
    new_fn = {}
    allgw = {}
    for st in W:
        rows = []
        for (v, cs) in ok_variants:
            guards = [clg(g) for g in cs]
            for gw in v[1][st]:
                g2 = GW([(b, cl(lo), cl(hi)) for b, lo, hi in gw.params], [cl(e) for e in gw.exprs],
                        guards + [clg(g) for g in gw.guards], vmap(gw.value, cl))
                rows.append(g2)
        allgw[st] = rows
    byname = {havname[st]: st for st in W}
    dep = {}
    for st in W:
        flags = [any(k.id in all_atoms(e) for e in g.exprs) or any(k.id in all_atoms(p) for _, lo, hi in g.params for p in (lo, hi)) for g in allgw[st]]
        exf = [any(k.id in all_atoms(e) for e in g.exprs) for g in allgw[st]]
        if all(exf):
            dep[st] = True
        elif not any(flags):
            dep[st] = False
        else:
            raise Unsupported("array written both at fixed and at moving locations in one loop")
    rng = [compare(kp, ">="), compare(padd(kp, np_, -1), "<")]
    j = P.fresh_bv()
    jp = patom(j)
    rngj = [compare(jp, ">="), compare(padd(jp, np_, -1), "<")]
    for st in W:
        if dep[st]:
            check_disjoint(st, allgw[st], k, kp, j, jp, rng, rngj, par, site)
    # reads of state from other iterations
    for st in W:
        for g in allgw[st]:
            for p in g.vpolys():
                for name, args, facts in app_reads(p, havoc_names):
                    st2 = byname[name]
                    if not dep[st2]:
                        continue
                    check_noread(st2, args, facts, g, allgw[st2], k, kp, j, jp, rng, rngj, par, site)
    for it in items:
        if it[4] == "ind" and app_names(it[5]) & havoc_names:
            raise Unsupported("recurrence through an array")
    for st in W:
        rows = []
        if dep[st]:
            for g in allgw[st]:
                rows.append(GW(list(g.params) + [(k.id, ZERO, np_)], g.exprs, g.guards, g.value))
        else:
            for g in allgw[st]:
                rows.append(fixed_location(st, havname[st], g, k, kp, np_, havoc_names, len(ok_variants), par, site, kk))
        fn = pre_fn = st.fn
        HAVOC[havname[st]] = pre_fn
        for g in rows:
            fn = Upd(fn, g)
        new_fn[st] = fn
    for st, fn in new_fn.items():
        st.fn = fn
        st.writes += 1
    # ---- exits
    for it in items:
        key = it[3]
        a = next(iter(it[0].t))[0][0]
        if it[4] == "same":
            val = lower(it[1])
        elif it[4] == "ind":
            val = lower(closed[a])
            if it[1].isint and it[5].isint:
                pass
        else:
            val = None
        if key[0] == "v":
            final[key[1]] = val if val is not None else last_value(it, cl, k, np_, c)
        else:
            if val is None:
                val = last_value(it, cl, k, np_, c, strict=True)
            key[1][key[2]] = val
    for idx, v in enumerate(entry):
        if idx in carried:
            continue
        outs = [vv[0][idx] for vv, _ in ok_variants]
        if all(o is v for o in outs):
            continue
        final[idx] = Poison("value of a local variable after a loop of symbolic length")
    # ---- exceptional iterations
    for v, cs in exc_variants:
        if c.choose(2) == 0:
            continue
        k0 = P.fresh_bv()
        mp = {k.id: patom(k0)}
        gs = [compare(patom(k0), ">="), compare(padd(patom(k0), np_, -1), "<")]
        for g in cs:
            g = clg(g)
            gs.append(resolve(form_map(g.form, lambda p: subst(p, mp))) if isinstance(g, SymBool) else g)
        for g in gs:
            c.add(g)
            c.levels[-1].conds.append(g)
        if c.sat() == "unsat":
            raise PathEnd()
        raise v[3]
    put(tuple(final))
    return None

def last_value(it, cl, k, np_, c, strict=False):
    """value of an overwritten variable after the last iteration"""
    outs = it[2]
    try:
        if len(outs) >= 1 and all(o is not None for o in outs):
            qs = [cl(o) for o in outs]
            if all(q.t == qs[0].t for q in qs):
                q = subst(qs[0], {k.id: padd(np_, ONE, -1)})
                if q.t == it[1].t:
                    return lower(q)
                if c.entails(compare(np_, ">")):
                    return resolve(lower(q))
                if strict:
                    return resolve(lower(q)) if bool(compare(np_, ">")) else lower(it[1])
    except Unsupported:
        pass
    if strict:
        raise Unsupported("array element overwritten in a loop of symbolic length")
    return Poison("value of a local variable after a loop of symbolic length")

def same_content(a, b):
    for x, y in zip(a.flat, b.flat):
        if x is y:
            continue
        try:
            if isinstance(x, SymBool) or isinstance(y, SymBool):
                return False
            if lift(x).t != lift(y).t:
                return False
        except TypeError:
            return False
    return True

def app_names(p):
    return {P.atom(a).args[0] for a in all_atoms(p) if P.atom(a).kind == "app"}

def app_reads(p, names, facts=()):
    """(name, args, binder facts) for every read of the named arrays inside p"""
    for a in p.atoms():
        at = P.atom(a)
        f2 = facts
        if at.kind == "sum":
            f2 = facts + tuple(x for b, lo, hi in at.args[0] for x in
                               (compare(padd(patom(P.atom(b)), lo, -1), ">="), compare(padd(patom(P.atom(b)), hi, -1), "<")))
        if at.kind == "app" and at.args[0] in names:
            yield at.args[0], at.args[1], facts
        for q in P._subpolys(at):
            yield from app_reads(q, names, f2)

def rename(gw, k, jp):
    mp = {k.id: jp}
    ps = []
    for b, lo, hi in gw.params:
        nb = P.fresh_bv()
        mp[b] = patom(nb)
    for b, lo, hi in gw.params:
        ps.append((next(iter(mp[b].t))[0][0], subst(lo, mp), subst(hi, mp)))
    f = lambda p: subst(p, mp)
    return GW(ps, [f(e) for e in gw.exprs], [form_map(g.form, f) if isinstance(g, SymBool) else g for g in gw.guards], None)

def pfacts(gw):
    out = []
    for b, lo, hi in gw.params:
        pb = patom(P.atom(b))
        out += [compare(padd(pb, lo, -1), ">="), compare(padd(pb, hi, -1), "<")]
    return out + list(gw.guards)

def mult_hints(polys_, kp, jp, diff):
    """products that make the block arithmetic linear: (j-i-1)*M >= 0 and M*range facts, valid since both factors are"""
    return []

def refutable(facts, neq, kp, jp, strides):
    """True if the facts can hold together (a clash), False if proved impossible, None if undecided"""
    c = ctx()
    for a, b in ((kp, jp), (jp, kp)):
        d = padd(padd(b, a, -1), ONE, -1)           # b - a - 1 >= 0
        fs = list(facts) + [compare(d, ">=")]
        h = [z3.Implies(to_z(m, True) >= 0, to_z(pmul(m, d), True) >= 0) for m in strides]
        r = c.sat(*fs, *[SymBool(("z", x)) for x in h])
        if r == "sat":
            return True
        if r != "unsat":
            return None
        if neq == "lt":
            break
    return False

def strides_of(exprs, ids):
    out = {}
    for e in exprs:
        for m, cf in e.t.items():
            if any(a in ids for a, _ in m):
                q = tuple((a, x) for a, x in m if a not in ids)
                if q and all(P.atom(a).isint for a, _ in q):
                    out[q] = Poly({q: P.F1}, True)
    # pairwise products cover two-level strides
    return list(out.values())

def race(why, site):
    c = ctx()
    from .sym import Obligation
    o = Obligation()
    o.name = "iterations are independent at %s" % site
    o.status, o.how, o.secs, o.detail, o.model = "refuted", "loop rule", 0.0, why, None
    c.obls.append(o)
    raise Unsupported("race: " + why)

def note_loop(name):
    c = ctx()
    from .sym import Obligation
    o = Obligation()
    o.name, o.status, o.how, o.secs, o.detail, o.model = name, "proved", "z3", 0.0, "", None
    c.obls.append(o)
    c.loop_obls += 1

def check_disjoint(st, gws, k, kp, j, jp, rng, rngj, par, site):
    for x in range(len(gws)):
        for y in range(x, len(gws)):
            g1, g2 = gws[x], rename(gws[y], k, jp)
            facts = rng + rngj + pfacts(g1) + pfacts(g2)
            ids = {k.id, j.id} | {b for b, _, _ in g1.params} | {b for b, _, _ in g2.params}
            eqs = []
            triv = False
            for e1, e2 in zip(g1.exprs, g2.exprs):
                r = compare(padd(e1, e2, -1), "==")
                if r is False:
                    triv = True
                    break
                if r is True:
                    continue
                d = padd(e1, e2, -1)
                if d.t == padd(kp, jp, -1).t or d.t == padd(jp, kp, -1).t:
                    triv = True
                    break
                eqs.append(r)
            if triv:
                continue
            r = refutable(facts + eqs, "ne", kp, jp, strides_of(list(g1.exprs) + list(g2.exprs), ids))
            if r is False:
                continue
            if r is True and par:
                race("two iterations write the same location", site)
            raise Unsupported("write locations of different iterations not shown distinct")
    note_loop("distinct iterations write distinct locations (%s)" % site)

def check_noread(st, args, facts, g, gws, k, kp, j, jp, rng, rngj, par, site):
    for h in gws:
        h2 = rename(h, k, jp)
        ids = {k.id, j.id} | {b for b, _, _ in h2.params} | {b for b, _, _ in g.params}
        eqs = []
        triv = False
        for e1, e2 in zip(args, h2.exprs):
            d = padd(e1, e2, -1)
            r = compare(d, "==")
            if r is False or d.t == padd(kp, jp, -1).t or d.t == padd(jp, kp, -1).t:
                triv = True
                break
            if r is not True:
                eqs.append(r)
        if triv:
            continue
        fs = rng + rngj + pfacts(g) + pfacts(h2) + list(facts) + eqs
        # sequential loops: only earlier iterations j < k matter; order (jp, kp) means k - j - 1 >= 0
        if par:
            r = refutable(fs, "ne", kp, jp, strides_of(list(args) + list(h2.exprs), ids))
        else:
            r = refutable(fs, "lt", jp, kp, strides_of(list(args) + list(h2.exprs), ids))
        if r is False:
            continue
        if r is True and par:
            race("an iteration reads what another one writes", site)
        raise Unsupported("an iteration may read what another one writes")
    note_loop("no iteration reads another one's writes (%s)" % site)

def fixed_location(st, name, g, k, kp, np_, havoc_names, nvar, par, site, kk):
    own = patom(P.mk_atom("app", (name, tuple(g.exprs)), st.isint))
    if isinstance(g.value, SymBool):
        raise Unsupported("boolean accumulated in a loop")
    v = lift(g.value)
    t = padd(v, own, -1)
    if app_names(t) & havoc_names:
        if app_names(v) & havoc_names:
            raise Unsupported("array recurrence in a loop")
        if par:
            race("two iterations write the same location", site)
        q = subst(v, {k.id: padd(np_, ONE, -1)})
        gs = [form_map(x.form, lambda p: subst(p, {k.id: padd(np_, ONE, -1)})) if isinstance(x, SymBool) else x for x in g.guards]
        if g.guards and nvar > 1:
            raise Unsupported("conditionally overwritten location")
        return GW(g.params, g.exprs, gs + [compare(np_, ">")], lower(q))
    if any(isinstance(x, SymBool) and k.id in set().union(*[all_atoms(p) for p in form_polys(x.form)]) for x in g.guards):
        raise Unsupported("conditional accumulation")
    if nvar > 1:
        raise Unsupported("accumulation in a loop with cases")
    if par:
        raise Unsupported("reduction in a parallel loop")
    tot = psum(kk, ZERO, np_, subst(t, {k.id: patom(kk)}))
    if not ctx().entails(compare(np_, ">=")):
        raise Unsupported("loop length may be negative")
    note_loop("accumulation over all iterations (%s)" % site)
    return GW(g.params, g.exprs, [x for x in g.guards], lower(padd(own, tot)))
