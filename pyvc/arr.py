"""Arrays of symbolic shape.

Content of an array is a function from indices to terms: a symbol, a constant, an element-wise expression, or a
chain of guarded writes (GW).  A GW is  "for all parameters in their ranges, if guard then A[exprs(params)] = value";
plain assignments, slice assignments, mask assignments and whole summarised loops are all GWs.
"""
from fractions import Fraction
import numpy as np
from . import poly as P
from .poly import Poly, Unsupported, pconst, patom, mk_atom, padd, pmul, pneg, subst, ONE, ZERO
from .sym import S, SymBool, And, Or, Not, lift, lower, compare, ctx, form_map, form_polys, numeric, div

HAVOC = {}          # symbol name -> content function it stands for (state before a summarised loop)

def num(x):
    return lift(x)

def idx_of(i):
    p = lift(i)
    return p

class Fn:
    def read(self, idx):
        raise NotImplementedError

class Const(Fn):
    def __init__(self, v):
        self.v = v
    def read(self, idx):
        return self.v

class Sym(Fn):
    def __init__(self, name, isint=False, isbool=False):
        self.name, self.isint, self.isbool = name, isint or isbool, isbool
    def read(self, idx):
        a = lower(patom(mk_atom("app", (self.name, tuple(idx)), self.isint)))
        if self.isbool:
            return compare(padd(a.p, ONE, -1), "==")
        return a

class Lam(Fn):
    def __init__(self, f):
        self.f = f
    def read(self, idx):
        return self.f(idx)

class GW:
    """guarded parametric write"""
    __slots__ = ("params", "exprs", "guards", "value")
    def __init__(self, params, exprs, guards, value):
        self.params = params        # [(bv atom id, lo Poly, hi Poly)]
        self.exprs = exprs          # one Poly per base dimension
        self.guards = guards        # [SymBool]
        self.value = value          # number, SymBool or bool
    def mapped(self, mp):
        f = lambda p: subst(p, mp)
        return GW([(b, f(lo), f(hi)) for b, lo, hi in self.params], [f(e) for e in self.exprs],
                  [form_map(g.form, f) if isinstance(g, SymBool) else g for g in self.guards], vmap(self.value, f))
    def polys(self):
        for _, lo, hi in self.params:
            yield lo
            yield hi
        yield from self.exprs
        yield from self.vpolys()
    def vpolys(self):
        for g in self.guards:
            if isinstance(g, SymBool):
                yield from form_polys(g.form)
        if isinstance(self.value, SymBool):
            yield from form_polys(self.value.form)
        else:
            yield lift(self.value)

def vmap(v, f):
    if isinstance(v, SymBool):
        return form_map(v.form, f)
    if isinstance(v, S):
        return lower(f(v.p))
    return v

def fresh_copy(gw):
    mp = {}
    ps = []
    for b, lo, hi in gw.params:
        nb = P.fresh_bv()
        mp[b] = patom(nb)
    for b, lo, hi in gw.params:
        ps.append((next(iter(mp[b].t))[0][0], subst(lo, mp), subst(hi, mp)))
    g = gw.mapped(mp)
    return GW(ps, g.exprs, g.guards, g.value)

class Upd(Fn):
    def __init__(self, prev, gw):
        self.prev, self.gw = prev, gw
    def read(self, idx):
        node = self
        while isinstance(node, Upd):
            gw = node.gw
            if len(gw.exprs) != len(idx):
                raise Unsupported("rank mismatch")
            if (surely_distinct if not gw.params else const_distinct)(gw.exprs, idx):
                node = node.prev
                continue
            sol = solve_region(gw, idx)
            if sol is None:
                node = node.prev
                continue
            cond, mp = sol
            if bool(cond):
                return resolve(vmap(gw.value, lambda p: subst(p, mp)) if mp else gw.value)
            node = node.prev
        return node.read(idx)

def skeleton(exprs):
    """positions with constant index marked, the others by their terms; and the constant indices"""
    sk, key = [], []
    for e in exprs:
        if not e.t or (len(e.t) == 1 and () in e.t):
            sk.append(None)
            key.append(e.t.get((), 0))
        else:
            sk.append(frozenset(e.t.items()))
    return tuple(sk), tuple(key)

class Pts(Fn):
    """point writes that differ in constant indices only (so they cannot alias)"""
    def __init__(self, prev, sk, d):
        self.prev, self.sk, self.d = prev, sk, d
    def read(self, idx):
        sk, key = skeleton(idx)
        if sk == self.sk:
            gw = self.d.get(key)
            if gw is None:
                return self.prev.read(idx)
            return resolve(gw.value)
        return self.chain().read(idx)
    def chain(self):
        fn = self.prev
        for gw in self.d.values():
            fn = Upd(fn, gw)
        return fn

def const_distinct(es, idx):
    for e, i in zip(es, idx):
        if e.t != i.t and len(e.t) <= 1 and len(i.t) <= 1 and e.is_const() and i.is_const():
            return True
    return False

def surely_distinct(es, idx):
    for e, i in zip(es, idx):
        if e.t == i.t:
            continue
        if len(e.t) <= 1 and len(i.t) <= 1 and e.is_const() and i.is_const():
            return True
        d = padd(e, i, -1)
        if d.is_const() and d.const() != 0:
            return True
    return False

def push(fn, gw):
    """add a write; a point write to the very location of an earlier one replaces it when nothing in between can alias"""
    if gw.params or gw.guards:
        return Upd(fn, gw)
    sk, key = skeleton(gw.exprs)
    if isinstance(fn, Pts) and fn.sk == sk:
        d = dict(fn.d)
        d[key] = gw
        return Pts(fn.prev, sk, d)
    return Pts(fn, sk, {key: gw})

def resolve_divs(p):
    """quotients and remainders whose value follows from the known ranges"""
    def f(at):
        if at.kind in ("idiv", "imod"):
            a, m = resolve_divs(at.args[0]), resolve_divs(at.args[1])
            if not a.bvs() and not m.bvs():
                r = split_div(a, m)
                if r is not None:
                    return r[0] if at.kind == "idiv" else r[1]
        return None
    return P.map_atoms(p, f)

def resolve(v):
    """replace pre-loop symbols by what they stand for"""
    def g(p):
        def f(at):
            if at.kind == "app" and at.args[0] in HAVOC:
                fn = HAVOC[at.args[0]]
                if fn is None:
                    return None
                args = tuple(g(x) for x in at.args[1])
                return g(lift(fn.read(args)))
            return None
        if not mentions_havoc(p):
            return p
        return P.map_atoms(p, f)
    return vmap(v, g)

_APPS = {}

def deep_apps(at):
    """names of all arrays read inside an atom"""
    r = _APPS.get(at)
    if r is None:
        r = {at.args[0]} if at.kind == "app" else set()
        for q in P._subpolys(at):
            for a in q.atoms():
                r |= deep_apps(P.atom(a))
        _APPS[at] = r = frozenset(r)
    return r

def mentions_havoc(p):
    if not HAVOC:
        return False
    for a in p.atoms():
        for n in deep_apps(P.atom(a)):
            if n in HAVOC:
                return True
    return False

def split_div(p, m):
    """quotient and remainder of p by m, syntactically if the remainder is provably in [0, m)"""
    c = ctx()
    p, m = c.norm(p), c.norm(m)
    if m.is_const() and m.const() == 1:
        return p, ZERO
    q, r = syntactic_div(p, m)
    if c.entails(And(compare(r, ">="), compare(padd(r, m, -1), "<"))):
        return q, r
    return None

def syntactic_div(p, m):
    """collect the part of p that is a multiple of the polynomial m (exact on monomials, or on m's leading term)"""
    if len(m.t) == 1:
        (mm, mc), = m.t.items()
        inv = tuple((a, -e) for a, e in mm)
        q, r = {}, {}
        for mono, c in p.t.items():
            k = P.mmul(mono, inv)
            if all(e > 0 for _, e in k):
                cc = c / mc
                if cc.denominator == 1:
                    q[k] = cc
                    continue
                # integer part of a constant multiple
                fl = cc.numerator // cc.denominator
                if fl:
                    q[k] = Fraction(fl)
                    r[mono] = c - fl * mc
                    continue
            r[mono] = c
        return Poly(q, True), Poly(r, True)
    # multi-term divisor: polynomial division by its lexicographically largest monomial of highest degree
    lead = max(m.t, key=lambda k: (sum(e for _, e in k), k))
    lc = m.t[lead]
    q, r = ZERO, p
    for _ in range(50):
        hit = None
        for mono, c in r.t.items():
            k = P.mmul(mono, tuple((a, -e) for a, e in lead))
            if all(e > 0 for _, e in k) and (c / lc).denominator == 1:
                hit = Poly({k: c / lc}, True)
                break
        if hit is None:
            break
        q = padd(q, hit)
        r = padd(r, pmul(hit, m), -1)
    return q, r

def solve_region(gw, idx):
    """-> None (surely not in the region) or (condition, substitution for the parameters)"""
    unknown = {b: (lo, hi) for b, lo, hi in gw.params}
    mp = {}
    conds = []
    rows = [(e, i) for e, i in zip(gw.exprs, idx)]
    progress = True
    while rows and progress:
        progress = False
        for k, (e, target) in enumerate(rows):
            e = subst(e, mp)
            us = [u for u in unknown if u in _atoms(e)]
            if not us:
                c = compare(padd(e, target, -1), "==")
                if c is False:
                    return None
                if c is not True:
                    c = ctx().normb(c)
                    if c is False:
                        return None
                    if c is not True:
                        conds.append(c)
                rows.pop(k)
                progress = True
                break
            # linear in the unknowns?
            co, rest = linear(e, us)
            if co is None:
                continue
            t = padd(target, rest, -1)
            if len(us) == 1:
                u = us[0]
                cf = co[u]
                if cf.is_const() and abs(cf.const()) == 1:
                    val = t if cf.const() == 1 else pneg(t)
                    solve_one(u, val, mp, unknown, conds)
                    rows.pop(k)
                    progress = True
                    break
                q, r = syntactic_div(ctx().norm(t), ctx().norm(cf))
                if not r.t:
                    solve_one(u, q, mp, unknown, conds)
                    rows.pop(k)
                    progress = True
                    break
                if ctx().entails(compare(r, "!=")) and ctx().entails(And(compare(r, ">"), compare(padd(r, cf, -1), "<"))):
                    return None
                continue
            # several unknowns in one dimension: mixed radix, largest stride first
            order = mixed_radix(co, unknown, mp)
            if order is None:
                continue
            ok = True
            sols = []
            for u in order[:-1]:
                s = split_div(t, subst(co[u], mp))
                if s is None:
                    ok = False
                    break
                sols.append((u, s[0]))
                t = s[1]
            if not ok:
                continue
            sols.append((order[-1], t))
            for u, v in sols:
                solve_one(u, v, mp, unknown, conds)
            rows.pop(k)
            progress = True
            break
    if rows or unknown:
        raise Unsupported("cannot invert the index map of a write (%r)" % (gw.exprs,))
    for b, lo, hi in gw.params:
        v = mp[b]
        conds.append(compare(padd(v, subst(lo, mp), -1), ">="))
        conds.append(compare(padd(v, subst(hi, mp), -1), "<"))
    for g in gw.guards:
        if isinstance(g, SymBool):
            g = resolve(form_map(g.form, lambda p: subst(p, mp)))
        conds.append(g)
    return And(*conds), mp

def solve_one(u, val, mp, unknown, conds):
    for k in list(mp):
        mp[k] = subst(mp[k], {u: val})
    mp[u] = val
    unknown.pop(u, None)

def _atoms(p):
    from .sym import all_atoms
    return all_atoms(p)

def linear(e, us):
    """coefficients of e in the unknowns (unknown-free Polys) and the rest; None if not linear"""
    co = {u: {} for u in us}
    rest = {}
    uset = set(us)
    for m, c in e.t.items():
        hit = [(a, x) for a, x in m if a in uset]
        if not hit:
            for a, x in m:
                if P.atom(a).kind != "var" and uset & _atoms(Poly({((a, 1),): P.F1})):
                    return None, None
            rest[m] = c
            continue
        if len(hit) != 1 or hit[0][1] != 1:
            return None, None
        k = tuple((a, x) for a, x in m if a not in uset)
        if uset & _atoms(Poly({k: P.F1})):
            return None, None
        co[hit[0][0]][k] = c
    return {u: Poly(t, True) for u, t in co.items()}, Poly(rest, True)

def mixed_radix(co, unknown, mp):
    """order the unknowns so that each stride is the size of the next block (checked by the remainder test)"""
    us = list(co)
    def deg(u):
        return max((sum(e for _, e in m) for m in co[u].t), default=0), max((abs(c) for c in co[u].t.values()), default=0)
    us.sort(key=deg, reverse=True)
    last = co[us[-1]]
    if not (last.is_const() and last.const() == 1):
        return None
    return us

# ------------------------------------------------------------------ arrays

import weakref
STORES = weakref.WeakSet()

class Store:
    __slots__ = ("fn", "shape", "isint", "name", "writes", "isbool", "__weakref__")
    def __init__(self, fn, shape, isint=False, name=None, isbool=False):
        STORES.add(self)
        self.fn, self.shape, self.isint, self.name, self.isbool = fn, tuple(shape), isint, name, isbool
        self.writes = 0

def simp_dim(d):
    if isinstance(d, S):
        return lower(ctx().norm(d.p)) if d.p.isint else d
    if isinstance(d, Fraction) and d.denominator == 1:
        return int(d)
    if isinstance(d, np.integer):
        return int(d)
    return d

class SymDtype:
    def __init__(self, kind):
        self.kind = kind
    def __repr__(self):
        return "<dtype %s>" % self.kind
    @property
    def name(self):
        return {"f": "float64", "i": "int64", "b": "bool"}[self.kind]

class SymArr:
    """a view: base store, shape, and index map from view indices to base indices"""
    __array_priority__ = 2000
    __array_ufunc__ = None
    def __init__(self, store, shape, imap=None):
        self.store = store
        self._shape = tuple(shape)
        self.imap = imap
    # -- construction
    @staticmethod
    def new(fn, shape, isint=False, name=None, isbool=False):
        shape = tuple(simp_dim(d) for d in shape)
        return SymArr(Store(fn, shape, isint, name, isbool), shape)
    @staticmethod
    def symbol(name, shape, isint=False, isbool=False):
        return SymArr.new(Sym(name, isint, isbool), shape, isint or isbool, name, isbool)
    @staticmethod
    def lam(f, shape, isint=False, isbool=False):
        """f takes a tuple of Polys"""
        return SymArr.new(Lam(f), shape, isint, None, isbool)
    # -- attributes
    @property
    def shape(self):
        return self._shape
    @property
    def ndim(self):
        return len(self._shape)
    @property
    def size(self):
        r = 1
        for d in self._shape:
            r = r * d
        return r
    @property
    def dtype(self):
        return SymDtype("b" if self.store.isbool else "i" if self.store.isint else "f")
    @property
    def T(self):
        return self.transpose()
    @property
    def concrete(self):
        return all(isinstance(d, int) for d in self._shape)
    def __len__(self):
        d = self._shape[0]
        if isinstance(d, int):
            return d
        return ctx().concretize(d)
    def vlen(self):
        return self._shape[0]
    def snapshot(self):
        """immutable content function in view indices"""
        fn, im = self.store.fn, self.imap
        if im is None:
            return fn.read
        return lambda idx: fn.read(im(idx))
    def at(self, idx):
        """read at Poly indices (no bounds check)"""
        return self.snapshot()(tuple(idx))
    def native(self):
        """object array of the current content (concrete shapes only)"""
        from .shim_np import NDArr
        out = np.empty(self._shape, dtype=object)
        rd = self.snapshot()
        for k in np.ndindex(*self._shape):
            out[k] = rd(tuple(pconst(i, True) for i in k))
        return out.view(NDArr)
    def simp(self):
        return self.native() if self.concrete else self
    # -- indexing
    def view(self, *a):
        return self
    def _index(self, spec):
        """-> (shape, imap, masks) for basic indexing"""
        if not isinstance(spec, tuple):
            spec = (spec,)
        n = sum(1 for s in spec if s is not None and s is not Ellipsis)
        if any(s is Ellipsis for s in spec):
            k = [i for i, s in enumerate(spec) if s is Ellipsis][0]
            spec = spec[:k] + (slice(None),) * (self.ndim - n) + spec[k + 1:]
        else:
            spec = spec + (slice(None),) * (self.ndim - n)
        if sum(1 for s in spec if s is not None) > self.ndim:
            raise IndexError("too many indices for array")
        shape = []
        makers = []
        dim = 0
        for s in spec:
            if s is None:
                shape.append(1)
                continue
            size = self._shape[dim]
            if isinstance(s, slice):
                lo, ln, st = slice_bounds(s, size)
                pos = len(shape)
                shape.append(simp_dim(ln))
                makers.append((lambda lo, st, pos: lambda v: padd(lo, v[pos] if st == 1 else pmul(pconst(st, True), v[pos])))(lift(lo), st, pos))
            elif numeric(s) and not isinstance(s, (SymBool, bool, np.bool_)):
                p = lift(s)
                if not p.isint:
                    raise IndexError("only integers are valid indices")
                p = check_index(p, size)
                makers.append((lambda p: lambda v: p)(p))
            else:
                raise Unsupported("indexing with %s" % type(s).__name__)
            dim += 1
        base = self.imap
        def imap(v):
            w = tuple(m(v) for m in makers)
            return base(w) if base is not None else w
        return tuple(shape), imap
    def __getitem__(self, spec):
        if isinstance(spec, SymArr):
            if spec.store.isbool:
                raise Unsupported("boolean mask selection")
            if spec.ndim >= 1:          # gather
                ix = spec.snapshot()
                rd = self.snapshot()
                k = spec.ndim
                n0 = self._shape[0]
                def f(idx):
                    p = check_index(lift(ix(idx[:k])), n0)
                    return rd((p,) + tuple(idx[k:]))
                return SymArr.lam(f, spec.shape + self._shape[1:], self.store.isint, self.store.isbool)
        if isinstance(spec, np.ndarray) and spec.ndim:
            if spec.dtype == bool:
                raise Unsupported("boolean mask selection")
            return stack([self[int(i)] for i in spec])
        shape, imap = self._index(spec)
        if not shape:
            return self.store.fn.read(imap(()))
        return SymArr(self.store, shape, imap)
    def __setitem__(self, spec, value):
        if isinstance(spec, SymArr) and spec.store.isbool:
            if spec.ndim != self.ndim:
                raise Unsupported("mask of lower rank")
            if isinstance(value, SymArr) or isinstance(value, np.ndarray) and value.ndim:
                raise Unsupported("masked array assignment")
            m = spec.snapshot()
            old = self.snapshot()
            self.assign_fn(lambda idx: m(idx), lambda idx: value)
            return
        if isinstance(spec, SymArr):
            raise Unsupported("scatter assignment")
        shape, imap = self._index(spec)
        SymArr(self.store, shape, imap).assign(value)
    def assign(self, value):
        """whole-view assignment with broadcasting"""
        rd = broadcast_reader(value, self._shape)
        self.assign_fn(None, rd)
    def assign_fn(self, mask, rd):
        c = ctx()
        conc = [range(d) if isinstance(d, int) else None for d in self._shape]
        ncomb = 1
        for r in conc:
            ncomb *= len(r) if r is not None else 1
        if ncomb > 600:
            raise Unsupported("large concrete block write")
        new = []
        from itertools import product
        for comb in product(*[r if r is not None else (None,) for r in conc]):
            params, vidx, facts = [], [], []
            for d, v in zip(self._shape, comb):
                if v is None:
                    b = P.fresh_bv()
                    hi = lift(d)
                    params.append((b.id, ZERO, hi))
                    pb = patom(b)
                    vidx.append(pb)
                    facts += [compare(pb, ">="), compare(padd(pb, hi, -1), "<")]
                else:
                    vidx.append(pconst(v, True))
            vidx = tuple(vidx)
            def ev():
                for f in facts:
                    c.add(f)
                g = True if mask is None else mask(vidx)
                if g is False:
                    return None
                if isinstance(g, SymBool) and not bool(g):
                    return None
                v = rd(vidx)
                if isinstance(v, SymArr):
                    v = v.at(())
                if isinstance(v, np.ndarray):
                    v = v.item()
                return v
            exprs = self.imap(vidx) if self.imap is not None else vidx
            if not params and mask is None:
                v = ev()
                new.append(GW([], list(exprs), [], self._store_val(v)))
            else:
                was, c.skolems = c.skolems, c.skolems | {b for b, _, _ in params}
                try:
                    alternatives = list(c.explore(ev, with_conds=True))
                finally:
                    c.skolems = was
                for v, conds in alternatives:
                    if v is None:
                        continue
                    new.append(GW(params, list(exprs), list(conds), self._store_val(v)))
        fn = self.store.fn
        for g in new:
            fn = push(fn, g)
        self.store.fn = fn
        self.store.writes += 1
    def _store_val(self, v):
        if isinstance(v, (SymBool, bool, np.bool_)):
            return v if self.store.isbool else v
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
            raise Unsupported("non-finite value stored")
        if not numeric(v):
            raise Unsupported("stored value of type %s" % type(v).__name__)
        p = lift(v)
        if self.store.isint and not p.isint:
            if p.is_const() and p.const().denominator == 1:
                return int(p.const())
            raise Unsupported("real value written to an integer array")
        return lower(p)
    # -- shape
    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        axes = tuple(a % self.ndim for a in axes)
        base = self.imap
        inv = [axes.index(k) for k in range(self.ndim)]
        def imap(v):
            w = tuple(v[i] for i in inv)
            return base(w) if base is not None else w
        return SymArr(self.store, tuple(self._shape[a] for a in axes), imap)
    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if kw.get("order", "C") not in ("C", None):
            raise Unsupported("Fortran-order reshape")
        return reshape(self, tuple(simp_dim(d) for d in shape))
    def flatten(self, *a):
        return self.copy().reshape(self.size)
    def ravel(self, *a):
        return self.reshape(self.size)
    def copy(self, *a, **k):
        return SymArr.lam(self.snapshot(), self._shape, self.store.isint, self.store.isbool)
    def astype(self, dt, **kw):
        r = self.copy()
        if kind_of(dt) == "f":
            r.store.isint = r.store.isbool = False
            if self.store.isbool:
                raise Unsupported("bool to float cast")
        elif kind_of(dt) == "i" and not self.store.isint:
            raise Unsupported("float to int cast")
        return r
    def fill(self, v):
        self.assign(v)
    def tolist(self):
        raise Unsupported("tolist of an array of symbolic size")
    # -- arithmetic
    def __neg__(self):
        return elementwise(lambda a: -a, self)
    def __pos__(self):
        return self.copy()
    def __abs__(self):
        return elementwise(abs, self)
    def __pow__(self, n):
        return elementwise(lambda a, b: a ** b, self, n)
    def __invert__(self):
        return elementwise(Not, self)
    def __matmul__(self, o):
        return matmul(self, o)
    def __rmatmul__(self, o):
        return matmul(o, self)
    def dot(self, o):
        return matmul(self, o)
    def __iter__(self):
        d = self._shape[0]
        if not isinstance(d, int):
            raise Unsupported("native iteration over an array of symbolic length")
        for i in range(d):
            yield self[i]
    def __bool__(self):
        raise Unsupported("truth value of an array")
    def __repr__(self):
        return "SymArr%r" % (self._shape,)
    def sum(self, axis=None, **kw):
        return asum(self, axis)
    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self._shape[axis]
        s = asum(self, axis)
        return s / n if not isinstance(s, (int, Fraction)) else div(s, n)
    def min(self, *a, **k):
        return extremum(self, -1, a, k)
    def max(self, *a, **k):
        return extremum(self, 1, a, k)
    def argmax(self, *a, **k):
        return argext(self, 1, a, k)
    def argmin(self, *a, **k):
        return argext(self, -1, a, k)
    def all(self, *a, **k):
        raise Unsupported("all over a symbolic array")
    any = all
    def __deepcopy__(self, memo):
        return self.copy()
    def __copy__(self):
        return self.copy()
    def item(self):
        raise Unsupported("item of a symbolic array")

def extremum(self, sign, a, k):
    """largest (smallest) entry of an array of symbolic length: it is one of the entries and no entry exceeds it;
    the universal half is instantiated at every index a contract quantifies over"""
    if a and a != (None,) or k and (set(k) - {"axis"} or k["axis"] is not None) or len(self._shape) != 1 or self.store.isbool:
        raise Unsupported("min or max of a symbolic array")
    n = self._shape[0]
    c = ctx()
    if getattr(c, "skolems", None):
        raise Unsupported("min or max of an array inside a summarised loop")
    if bool(compare(lift(n), "<=")) if not isinstance(n, int) else n <= 0:
        raise ValueError("zero-size array to reduction operation")
    read = self.snapshot()
    isint = self.store.isint
    M, w = c.fresh("extremum", isint), c.fresh("at", True)
    c.assume(w >= 0)
    c.assume(w < n)
    c.assume(lift_cmp(M, read((lift(w),)), "=="))
    def inst(v):
        x = read((lift(v),))
        inside = And(v >= 0, v < n)
        c.assume(Or(Not(inside), lift_cmp(M, x, ">=" if sign > 0 else "<=")))
    c.universals.append(inst)
    return M

def argext(self, sign, a=(), k={}):
    """position of the first largest (smallest) entry"""
    if a and a != (None,) or k and (set(k) - {"axis"} or k["axis"] is not None) or len(self._shape) != 1 or self.store.isbool:
        raise Unsupported("argmin or argmax of a symbolic array")
    n = self._shape[0]
    c = ctx()
    if getattr(c, "skolems", None):
        raise Unsupported("argmin or argmax inside a summarised loop")
    if bool(compare(lift(n), "<=")) if not isinstance(n, int) else n <= 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    read = self.snapshot()
    w = c.fresh("at", True)
    c.assume(w >= 0)
    c.assume(w < n)
    top = read((lift(w),))
    def inst(v):
        x = read((lift(v),))
        c.assume(Or(Not(And(v >= 0, v < n)), lift_cmp(top, x, ">=" if sign > 0 else "<=")))
        c.assume(Or(Not(And(v >= 0, v < w)), lift_cmp(top, x, ">" if sign > 0 else "<")))
    c.universals.append(inst)
    return w

def lift_cmp(a, b, op):
    return compare(padd(lift(a), lift(b), -1), op)

def _mk(op, f, inplace=True):
    def a(self, o):
        if not arraylike(o) and not numeric(o):
            return NotImplemented
        return elementwise(f, self, o)
    def r(self, o):
        if not arraylike(o) and not numeric(o):
            return NotImplemented
        return elementwise(f, o, self)
    setattr(SymArr, "__%s__" % op, a)
    setattr(SymArr, "__r%s__" % op, r)
    def i(self, o):
        v = elementwise(f, self, o)
        self.assign(v)
        return self
    setattr(SymArr, "__i%s__" % op, i)

import operator as _o
for _n, _f in (("add", _o.add), ("sub", _o.sub), ("mul", _o.mul), ("truediv", div), ("floordiv", _o.floordiv),
               ("mod", _o.mod), ("and", _o.and_), ("or", _o.or_)):
    _mk(_n, _f)
for _n, _f in (("lt", _o.lt), ("le", _o.le), ("gt", _o.gt), ("ge", _o.ge), ("eq", _o.eq), ("ne", _o.ne)):
    def _c(self, o, _f=_f):
        if not arraylike(o) and not numeric(o):
            return NotImplemented
        r = elementwise(_f, self, o)
        if isinstance(r, SymArr):
            r.store.isbool = True
        return r
    setattr(SymArr, "__%s__" % _n, _c)
SymArr.__hash__ = object.__hash__

def arraylike(o):
    return isinstance(o, (SymArr, np.ndarray, list, tuple))

def kind_of(dt):
    if dt is None:
        return "f"
    if isinstance(dt, SymDtype):
        return dt.kind
    if dt in (int,):
        return "i"
    if dt in (bool,):
        return "b"
    if dt in (float,):
        return "f"
    try:
        d = np.dtype(dt)
    except TypeError:
        return "f"
    return {"i": "i", "u": "i", "b": "b", "f": "f", "O": "f"}.get(d.kind, "f")

def check_index(p, size):
    """normalised index; forks to an IndexError path when it may be out of bounds"""
    c = ctx()
    sp = lift(size)
    if p.is_const() and p.const() < 0:
        p = padd(sp, p)
    lo = compare(p, ">=")
    if lo is not True and not bool(lo):
        p = padd(sp, p)
        if not bool(compare(p, ">=")):
            raise IndexError("index %r is out of bounds" % (p,))
    if not bool(compare(padd(p, sp, -1), "<")):
        raise IndexError("index %r is out of bounds for axis with size %r" % (p, size))
    return p

def slice_bounds(s, size):
    """(start, length, step) for the slice, positive or full-reversal steps"""
    step = 1 if s.step is None else int(s.step)
    if isinstance(size, int) and all(x is None or isinstance(x, (int, np.integer)) for x in (s.start, s.stop)):
        r = range(size)[slice(s.start, s.stop, step)]
        return (r.start if len(r) else 0), len(r), step
    if step == -1 and s.start is None and s.stop is None:
        return size - 1, size, -1
    if step != 1:
        raise Unsupported("strided slice of symbolic length")
    def bound(x, dflt):
        if x is None:
            return dflt
        p = lift(x)
        if p.is_const() and p.const() < 0:
            v = lower(padd(p, lift(size)))
            if bool(v < 0):
                return 0
            return v
        x = lower(p)
        if bool(x < 0):
            x = x + size
            if bool(x < 0):
                return 0
            return x
        if bool(x > size):
            return size
        return x
    a, b = bound(s.start, 0), bound(s.stop, size)
    d = b - a
    if isinstance(d, SymBool) or bool(d < 0):
        d = 0
    return a, d, 1

def as_reader(v):
    """-> (shape, reader(idx Polys))"""
    if isinstance(v, SymArr):
        return v.shape, v.snapshot()
    if isinstance(v, (list, tuple)):
        from .shim_np import asobj
        v = asobj(v)
    if isinstance(v, np.ndarray):
        w = np.array(v, dtype=object) if v.dtype != object else np.array(v, dtype=object, copy=True)
        w = np.asarray(w)
        def rd(idx):
            ks = []
            for n, i in enumerate(idx):
                i = ctx().norm(i)
                if not i.is_const():
                    ks.append(ctx().concretize(lower(i)))
                else:
                    ks.append(int(i.const()))
            r = w[tuple(ks)]
            return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r
        return v.shape, rd
    return (), (lambda idx: v)

def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    c = ctx()
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
                continue
            if d is e:
                continue
            eq = lift(d)
            r = compare(padd(eq, lift(e), -1), "==")
            if r is True:
                if isinstance(e, int):
                    d = e
                continue
            if r is False or not bool(r):
                # 1 broadcasts as well
                if isinstance(e, S) and bool(e == 1):
                    continue
                if isinstance(d, S) and bool(d == 1):
                    d = e
                    continue
                raise ValueError("operands could not be broadcast together with shapes %r" % (shapes,))
            if isinstance(e, int):
                d = e
        out.append(d)
    return tuple(out)

def broadcast_reader(v, shape):
    s, rd = as_reader(v)
    if len(s) > len(shape):
        if all(isinstance(d, int) and d == 1 for d in s[:len(s) - len(shape)]):
            k = len(s) - len(shape)
            rd0 = rd
            rd = lambda idx: rd0((ZERO,) * k + tuple(idx))
            s = s[k:]
        else:
            raise ValueError("could not broadcast input array from shape %r into shape %r" % (s, shape))
    off = len(shape) - len(s)
    ones = []
    for k, d in enumerate(s):
        e = shape[off + k]
        if isinstance(d, int) and d == 1 and not (isinstance(e, int) and e == 1):
            ones.append(k)
            continue
        if d is e:
            continue
        r = compare(padd(lift(d), lift(e), -1), "==")
        if r is True:
            continue
        if r is False or not bool(r):
            if isinstance(d, S) and bool(d == 1):
                ones.append(k)
                continue
            raise ValueError("could not broadcast input array from shape %r into shape %r" % (s, shape))
    def f(idx):
        sub = list(idx[off:])
        for k in ones:
            sub[k] = ZERO
        return rd(tuple(sub))
    return f

def elementwise(f, *args):
    rs = [as_reader(a) for a in args]
    shape = broadcast_shapes(*[s for s, _ in rs])
    readers = [broadcast_reader_r(s, r, shape) for s, r in rs]
    if not shape:
        return f(*[r(()) for r in readers])
    isint = all((isinstance(a, SymArr) and a.store.isint) or
                (not isinstance(a, SymArr) and numeric(a) and lift(a).isint) or
                (isinstance(a, np.ndarray) and a.dtype.kind in "iub") for a in args) and f is not div
    out = SymArr.lam(lambda idx: f(*[r(idx) for r in readers]), shape, isint)
    return out.simp()

def broadcast_reader_r(s, rd, shape):
    off = len(shape) - len(s)
    ones = [k for k, d in enumerate(s) if isinstance(d, int) and d == 1 and not (isinstance(shape[off + k], int) and shape[off + k] == 1)]
    def f(idx):
        sub = list(idx[off:])
        for k in ones:
            sub[k] = ZERO
        return rd(tuple(sub))
    return f

def sum_range(n, f, lo=0):
    """sum over k in [lo, n) of f(k) with f on Polys"""
    if isinstance(n, int) and isinstance(lo, int):
        t = 0
        for k in range(lo, n):
            t = t + f(pconst(k, True))
        return t
    b = P.fresh_bv()
    c = ctx()
    pb = patom(b)
    lop, hip = lift(lo), lift(n)
    def ev():
        c.add(compare(padd(pb, lop, -1), ">="))
        c.add(compare(padd(pb, hip, -1), "<"))
        return f(pb)
    was, c.skolems = c.skolems, c.skolems | {b.id}
    try:
        res = c.explore(ev, with_conds=True)
    finally:
        c.skolems = was
    if not res:
        return 0
    if len(res) > 1:
        raise Unsupported("summand with cases")
    return lower(P.psum(b, lop, hip, lift(res[0][0])))

def asum(a, axis=None):
    if axis is None:
        rd = a.snapshot()
        def rec(k, idx):
            if k == a.ndim:
                return rd(tuple(idx))
            return sum_range(a.shape[k], lambda p: rec(k + 1, idx + [p]))
        return rec(0, [])
    if isinstance(axis, (tuple, list)):
        for x in sorted([x % a.ndim for x in axis], reverse=True):
            a = asum(a, x)
        return a
    axis = axis % a.ndim
    rd = a.snapshot()
    n = a.shape[axis]
    shape = a.shape[:axis] + a.shape[axis + 1:]
    f = lambda idx: sum_range(n, lambda p: rd(tuple(idx[:axis]) + (p,) + tuple(idx[axis:])))
    if not shape:
        return f(())
    return SymArr.lam(f, shape, a.store.isint).simp()

def matmul(a, b):
    sa, ra = as_reader(a)
    sb, rb = as_reader(b)
    if not sa or not sb:
        raise ValueError("matmul: scalar operand")
    va, vb = len(sa) == 1, len(sb) == 1
    n = sa[-1]
    m = sb[0] if vb else sb[-2]
    r = compare(padd(lift(n), lift(m), -1), "==")
    if r is False or (r is not True and not bool(r)):
        raise ValueError("matmul: dimension mismatch %r %r" % (sa, sb))
    if isinstance(m, int):
        n = m
    ba, bb = (() if va else sa[:-2]), (() if vb else sb[:-2])
    bs = broadcast_shapes(ba, bb) if (ba or bb) else ()
    fa, fb = broadcast_reader_r(ba, lambda i: i, bs), broadcast_reader_r(bb, lambda i: i, bs)
    shape = bs + (() if va else (sa[-2],)) + (() if vb else (sb[-1],))
    nb = len(bs)
    def f(idx):
        batch = tuple(idx[:nb])
        rest = list(idx[nb:])
        i = () if va else (rest.pop(0),)
        j = () if vb else (rest.pop(0),)
        pa, pb_ = fa(batch), fb(batch)
        return sum_range(n, lambda k: ra(tuple(pa) + i + (k,)) * rb(tuple(pb_) + (k,) + j))
    if not shape:
        return f(())
    return SymArr.lam(f, shape, False).simp()

def reshape(a, shape):
    src = a.shape
    if any(isinstance(d, int) and d == -1 for d in shape):
        k = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1][0]
        tot, oth = lift(a.size), ONE
        for i, d in enumerate(shape):
            if i != k:
                oth = pmul(oth, lift(d))
        q, r = syntactic_div(ctx().norm(tot), ctx().norm(oth))
        if r.t:
            raise Unsupported("reshape with -1")
        shape = shape[:k] + (lower(q),) + shape[k + 1:]
    def same(x, y):
        return x is y or ctx().entails(compare(padd(lift(x), lift(y), -1), "=="))
    # match common prefix and suffix, then the middle groups
    i = 0
    while i < len(src) and i < len(shape) and same(src[i], shape[i]):
        i += 1
    j = 0
    while j < len(src) - i and j < len(shape) - i and same(src[-1 - j], shape[-1 - j]):
        j += 1
    ms, mt = src[i:len(src) - j], shape[i:len(shape) - j]
    base = a.imap
    ps, pt = ONE, ONE
    for d in ms:
        ps = pmul(ps, lift(d))
    for d in mt:
        pt = pmul(pt, lift(d))
    eq = compare(padd(ps, pt, -1), "==")
    if eq is False or (eq is not True and not bool(eq)):
        raise ValueError("cannot reshape array of shape %r into shape %r" % (src, shape))
    def flat(v):
        p = ZERO
        for d, x in zip(mt, v):
            p = padd(pmul(p, lift(d)), x)
        return p
    def unflat(p):
        out = []
        strides = []
        s = ONE
        for d in reversed(ms):
            strides.append(s)
            s = pmul(s, lift(d))
        strides.reverse()
        for st in strides[:-1]:
            q = split_div(p, st)
            if q is None:
                q = (P.pidiv(p, st), P.pimod(p, st))
            out.append(q[0])
            p = q[1]
        if strides:
            out.append(p)
        return tuple(out)
    def imap(v):
        v = tuple(v)
        w = v[:i] + unflat(flat(v[i:len(v) - j])) + v[len(v) - j:]
        return base(w) if base is not None else w
    return SymArr(a.store, shape, imap)

def stack(parts):
    rs = [as_reader(p) for p in parts]
    s0 = rs[0][0]
    def f(idx):
        k = ctx().norm(idx[0])
        k = int(k.const()) if k.is_const() else ctx().concretize(lower(k))
        return rs[k][1](tuple(idx[1:]))
    return SymArr.lam(f, (len(parts),) + tuple(s0))
