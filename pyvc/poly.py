"""Exact scalar terms: polynomials with rational coefficients over interned atoms.

Atoms: free variables, array elements f(i,j,..), bound variables, finite sums, abs/sqrt/inverse
polynomials, integer div/mod.  A monomial may carry negative exponents (division).  Equality of two
terms is decided by normal form (after clearing denominators), which is exact: no floating point.
"""
from fractions import Fraction
from itertools import permutations

F0, F1 = Fraction(0), Fraction(1)

class Unsupported(Exception):
    """the construct is outside the engine's reach (never reported as a violation)"""

class Atom:
    __slots__ = ("id", "kind", "args", "isint", "z", "free", "bvs")
    def __repr__(self):
        return show_atom(self)

_ATOMS = []
_INTERN = {}

def _dkey(a):
    if isinstance(a, Poly):
        return a.key()
    if isinstance(a, tuple):
        return tuple(_dkey(x) for x in a)
    return a

def mk_atom(kind, args, isint):
    key = (kind, _dkey(args), isint)
    at = _INTERN.get(key)
    if at is None:
        at = Atom()
        at.id = len(_ATOMS)
        at.kind, at.args, at.isint, at.z = kind, args, isint, None
        _ATOMS.append(at)
        bv = set()
        for p in _subpolys(at):
            bv |= p.bvs()
        if kind == "bv":
            bv.add(at.id)
        if kind == "sum":
            bv -= {b for (b, _, _) in at.args[0]}
        at.bvs = frozenset(bv)
        _INTERN[key] = at
    return at

def _subpolys(at):
    for a in at.args:
        if isinstance(a, Poly):
            yield a
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, Poly):
                    yield x
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Poly):
                            yield y

def atom(i):
    return _ATOMS[i]

def show_atom(at):
    k, a = at.kind, at.args
    if k == "var":
        return a[0]
    if k == "bv":
        return "#%d" % a[0]
    if k == "app":
        return "%s[%s]" % (a[0], ",".join(map(repr, a[1])))
    if k == "sum":
        return "Sum{%s}(%s)" % (",".join("%s:%r..%r" % (show_atom(_ATOMS[b]), lo, hi) for b, lo, hi in a[0]), a[1])
    return "%s(%s)" % (k, ",".join(map(repr, a)))

class Poly:
    """immutable polynomial: dict mono -> Fraction; mono = tuple of (atom id, exponent) sorted by id"""
    __slots__ = ("t", "_k", "isint", "_bv")
    def __init__(self, t, isint=False):
        self.t = t
        self._k = None
        self._bv = None
        self.isint = isint
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k
    def bvs(self):
        if self._bv is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= _ATOMS[a].bvs
            self._bv = frozenset(s)
        return self._bv
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self):
        return self.t.get((), F0)
    def atoms(self):
        return {a for m in self.t for a, _ in m}
    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            s = "*".join((repr(_ATOMS[a]) if e == 1 else "%r^%d" % (_ATOMS[a], e)) for a, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append("%s*%s" % (c, s))
        r = " + ".join(out)
        return r if len(r) < 4000 else r[:4000] + "..."

ZERO = Poly({}, True)
ONE = Poly({(): F1}, True)

def pconst(c, isint=None):
    c = Fraction(c)
    return Poly({(): c} if c else {}, (c.denominator == 1) if isint is None else isint)

def patom(at):
    return Poly({((at.id, 1),): F1}, at.isint)

def padd(a, b, s=1):
    if len(a.t) < len(b.t) and s == 1:
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + (c if s == 1 else -c)
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return Poly(t, a.isint and b.isint)

def pneg(a):
    return Poly({m: -c for m, c in a.t.items()}, a.isint)

def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] < b[0]:
            out.append(a); i += 1
        elif a[0] > b[0]:
            out.append(b); j += 1
        else:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1; j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)

MAXTERMS = 400000

def pmul(a, b):
    isint = a.isint and b.isint
    if not a.t or not b.t:
        return Poly({}, isint)
    if len(a.t) * len(b.t) > 20 * MAXTERMS:
        raise Unsupported("polynomial too large")
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mmul(m1, m2)
            v = t.get(m, 0) + c1 * c2
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    if len(t) > MAXTERMS:
        raise Unsupported("polynomial too large")
    p = Poly(t, isint)
    if _has_sqrt2(p):
        p = _reduce_pows(p)
    return p

def _has_sqrt2(p):
    for m in p.t:
        for a, e in m:
            if (e > 1 or e < -1) and _ATOMS[a].kind in ("sqrt", "abs"):
                return True
            if e > 1 and _ATOMS[a].kind in ("delta",):
                return True
    return False

def _reduce_pows(p):
    """sqrt(x)^2 = x, |x|^2 = x^2"""
    res = ZERO
    for m, c in p.t.items():
        q = Poly({(): c}, p.isint)
        for a, e in m:
            at = _ATOMS[a]
            if at.kind in ("sqrt", "abs") and abs(e) > 1:
                base = at.args[0] if at.kind == "sqrt" else pmul(at.args[0], at.args[0])
                h, r = divmod(abs(e), 2)
                f = ppow(base, h)
                if e < 0:
                    f = pinv(f)
                q = pmul(q, f)
                if r:
                    q = pmul(q, Poly({((a, 1 if e > 0 else -1),): F1}, False))
            elif at.kind == "delta" and e > 1:
                q = pmul(q, Poly({((a, 1),): F1}, True))
            else:
                q = Poly({mmul(mm, ((a, e),)): cc for mm, cc in q.t.items()}, q.isint and e > 0)
        res = padd(res, q)
    return res

def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r

def pinv(a):
    """1/a"""
    if not a.t:
        raise ZeroDivisionError("symbolic division by the constant zero")
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if all(_ATOMS[i].kind != "delta" for i, _ in m):
            return Poly({tuple((i, -e) for i, e in m): 1 / c}, False)
    # common monomial factor and leading coefficient
    lead = min(a.t)
    lc = a.t[lead]
    common = None
    for m in a.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {k: min(v, d.get(k, 0)) for k, v in common.items() if k in d or v < 0}
            for k, v in d.items():
                if v < 0 and k not in common:
                    common[k] = v
    common = {k: v for k, v in (common or {}).items() if v}
    neg = tuple(sorted((k, -v) for k, v in common.items()))
    prim = Poly({mmul(m, neg): c / lc for m, c in a.t.items()}, False)
    at = mk_atom("pol", (prim,), False)
    m = mmul(neg, ((at.id, -1),))
    return Poly({m: 1 / lc}, False)

def clear_denominators(p):
    """multiply by all negative powers and expand 'pol' atoms; the result is zero iff p is zero
    wherever the denominators do not vanish"""
    for _ in range(50):
        low = {}
        pos_pol = False
        for m in p.t:
            for a, e in m:
                if e < 0:
                    low[a] = min(low.get(a, 0), e)
                elif _ATOMS[a].kind == "pol":
                    pos_pol = True
        if not low and not pos_pol:
            return p
        mult = tuple(sorted((a, -e) for a, e in low.items()))
        groups = {}
        for m, c in p.t.items():
            mm = mmul(m, mult)
            rest = tuple((a, e) for a, e in mm if _ATOMS[a].kind != "pol")
            pols = tuple((a, e) for a, e in mm if _ATOMS[a].kind == "pol")
            groups.setdefault(pols, {})
            g = groups[pols]
            g[rest] = g.get(rest, 0) + c
        res = ZERO
        for pols, g in groups.items():
            q = Poly({m: c for m, c in g.items() if c}, False)
            for a, e in pols:
                q = pmul(q, ppow(_ATOMS[a].args[0], e))
            res = padd(res, q)
        p = res
    raise Unsupported("nested denominators")

def is_zero(p):
    if not p.t:
        return True
    q = clear_denominators(p)
    if not q.t:
        return True
    return False

def exact_div(num, den):
    """num/den as a polynomial if the division is exact (lex order), else None"""
    if not den.t:
        return None
    def lexkey(m):
        return tuple((-a, e) for a, e in m)
    # use a term order: compare as dense by atom id ascending; implement through max over keys
    ids = sorted({a for m in num.t for a, _ in m} | {a for m in den.t for a, _ in m})
    pos = {a: i for i, a in enumerate(ids)}
    n = len(ids)
    def vec(m):
        v = [0] * n
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    D = {vec(m): c for m, c in den.t.items()}
    N = {vec(m): c for m, c in num.t.items()}
    if any(e < 0 for v in D for e in v) or any(e < 0 for v in N for e in v):
        return None
    ld = max(D)
    lc = D[ld]
    Q = {}
    import heapq
    heap = [tuple(-x for x in v) for v in N]
    heapq.heapify(heap)
    steps = 0
    while N:
        while True:
            if not heap:
                return None if N else _back(Q, ids)
            top = tuple(-x for x in heap[0])
            if top in N:
                break
            heapq.heappop(heap)
        q = tuple(x - y for x, y in zip(top, ld))
        if any(e < 0 for e in q):
            return None
        c = N[top] / lc
        Q[q] = c
        for v, cc in D.items():
            w = tuple(x + y for x, y in zip(v, q))
            nv = N.get(w, 0) - c * cc
            if nv:
                if w not in N:
                    heapq.heappush(heap, tuple(-x for x in w))
                N[w] = nv
            else:
                N.pop(w, None)
        steps += 1
        if steps > 20000:
            return None
    return _back(Q, ids)

def _back(Q, ids):
    t = {}
    for v, c in Q.items():
        t[tuple((ids[i], e) for i, e in enumerate(v) if e)] = c
    return Poly(t, False)

def cancel(p):
    """try to remove 'pol' denominators by exact division; keeps the value"""
    pols = {a for m in p.t for a, e in m if e < 0 and _ATOMS[a].kind == "pol"}
    if not pols or len(p.t) > 3000:
        return p
    for a in pols:
        den = _ATOMS[a].args[0]
        groups = {}
        rest = {}
        for m, c in p.t.items():
            d = dict(m)
            e = d.get(a, 0)
            if e < 0:
                groups.setdefault(e, {})[m] = c
            else:
                rest[m] = c
        if not groups:
            continue
        # bring to the lowest power, only when every term carries it
        lowest = min(groups)
        num = {}
        for m, c in p.t.items():
            mm = mmul(m, ((a, -lowest),))
            num[mm] = num.get(mm, 0) + c
        numP = Poly({m: c for m, c in num.items() if c}, False)
        if any(x == a for m in numP.t for x, e in m):
            ex = ZERO
            for m, c in numP.t.items():
                d = [(x, e) for x, e in m if x != a]
                e = dict(m).get(a, 0)
                ex = padd(ex, pmul(Poly({tuple(d): c}, False), ppow(den, e)))
            numP = ex
        k = -lowest
        # split other negative exponents off as a monomial shift
        low = {}
        for m in numP.t:
            for x, e in m:
                if e < 0:
                    low[x] = min(low.get(x, 0), e)
        shift = tuple(sorted((x, -e) for x, e in low.items()))
        work = Poly({mmul(m, shift): c for m, c in numP.t.items()}, False)
        done = 0
        while done < k:
            q = exact_div(work, den)
            if q is None:
                break
            work = q
            done += 1
        if done:
            unshift = tuple((x, -e) for x, e in shift)
            left = k - done
            mon = mmul(unshift, ((a, -left),) if left else ())
            p = Poly({mmul(m, mon): c for m, c in work.t.items()}, False)
    return p

# ------------------------------------------------------------------ substitution

def map_atoms(p, f, cache=None):
    """rebuild p replacing every atom by f(atom) -> Poly or None (None: rebuild recursively)"""
    if cache is None:
        cache = {}
    res_t = {}
    extra = ZERO
    changed = False
    for m, c in p.t.items():
        q = None
        plain = []
        for a, e in m:
            if a in cache:
                r = cache[a]
            else:
                at = _ATOMS[a]
                r = f(at)
                if r is None:
                    r = rebuild(at, f, cache)
                cache[a] = r
            if r is True:
                plain.append((a, e))
            else:
                changed = True
                if e < 0:
                    fac = pinv(ppow(r, -e))
                else:
                    fac = ppow(r, e)
                q = fac if q is None else pmul(q, fac)
        if q is None:
            res_t[m] = c
        else:
            extra = padd(extra, pmul(q, Poly({tuple(plain): c}, False)))
    if not changed:
        return p
    r = padd(Poly(res_t, p.isint), extra)
    return Poly(r.t, p.isint)

def rebuild(at, f, cache):
    """returns True if unchanged else the Poly"""
    subs = list(_subpolys(at))
    if not subs:
        return True
    new = [map_atoms(s, f, cache if at.kind != "sum" else dict(cache)) for s in subs]
    if all(x is y for x, y in zip(subs, new)):
        return True
    it = iter(new)
    def rb(a):
        if isinstance(a, Poly):
            return next(it)
        if isinstance(a, tuple):
            return tuple(rb(x) for x in a)
        return a
    args = tuple(rb(a) for a in at.args)
    return construct(at.kind, args, at.isint)

def construct(kind, args, isint):
    if kind == "sum":
        # re-normalise: sum over binders of the monomial body
        binders, body = args
        return sum_multi([(b, lo, hi) for b, lo, hi in binders], body)
    if kind == "pol":
        return args[0]
    if kind == "abs":
        return pabs(args[0])
    if kind == "sqrt":
        return psqrt(args[0])
    if kind == "delta":
        return pdelta(args[0], args[1])
    if kind == "idiv":
        return pidiv(args[0], args[1])
    if kind == "imod":
        return pimod(args[0], args[1])
    return patom(mk_atom(kind, args, isint))

def subst(p, mp):
    """mp: {atom id: Poly}"""
    if not mp:
        return p
    return map_atoms(p, lambda at: mp.get(at.id))

# ------------------------------------------------------------------ special atoms

def _rational(p):
    return any(e < 0 for m in p.t for _, e in m)

def pabs(p):
    if _rational(p):
        p = cancel(p)
    if p.is_const():
        return pconst(abs(p.const()), p.isint)
    lead = min(p.t)
    if p.t[lead] < 0:
        p = pneg(p)
    # pull the content out of a monomial
    if len(p.t) == 1:
        (m, c), = p.t.items()
        res = pconst(abs(c), p.isint)
        for a, e in m:
            at = _ATOMS[a]
            if at.kind in ("abs", "sqrt", "delta"):
                f = Poly({((a, e),): F1}, at.isint and e > 0)
            elif e % 2 == 0:
                f = Poly({((a, e),): F1}, at.isint and e > 0)
            else:
                b = patom(mk_atom("abs", (patom(at),), at.isint))
                f = pmul(b, Poly({((a, e - 1),): F1} if e != 1 else {(): F1}, at.isint and e > 0)) if e > 0 else \
                    pmul(pinv(b), Poly({((a, e + 1),): F1} if e != -1 else {(): F1}, False))
            res = pmul(res, f)
        return res
    return patom(mk_atom("abs", (p,), p.isint))

def psqrt(p):
    if _rational(p):
        p = cancel(p)
    if p.is_const():
        c = p.const()
        if c >= 0:
            from math import isqrt
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return pconst(Fraction(n, d), False)
    return patom(mk_atom("sqrt", (p,), False))

def pdelta(a, b):
    d = padd(a, b, -1)
    if d.is_const():
        return ONE if d.const() == 0 else ZERO
    if a.key() > b.key():
        a, b = b, a
    return patom(mk_atom("delta", (a, b), True))

def pidiv(a, b):
    if a.is_const() and b.is_const() and b.const():
        return pconst(a.const() // b.const(), True)
    return patom(mk_atom("idiv", (a, b), True))

def pimod(a, b):
    if a.is_const() and b.is_const() and b.const():
        return pconst(a.const() % b.const(), True)
    return patom(mk_atom("imod", (a, b), True))

# ------------------------------------------------------------------ sums

_fresh_bv = [1000000]

def fresh_bv():
    _fresh_bv[0] += 1
    return mk_atom("bv", (_fresh_bv[0],), True)

SUM_RULES = []      # functions (binders dict, mono tuple) -> None | Poly  (with the binders' bvs free)

def psum(bv, lo, hi, body):
    """sum of body for bv (an atom) in [lo, hi)"""
    return sum_multi([(bv.id, lo, hi)], body)

def sum_multi(binders, body):
    """exact normal form of nested sums: linear, constants pulled out, factors split into connected
    components, bound variables canonically numbered"""
    res = ZERO
    for m, c in body.t.items():
        res = padd(res, _sum_mono(list(binders), m, c))
    return Poly(res.t, body.isint)

def _sum_mono(binders, m, c):
    # flatten inner sums that are factors with exponent one
    out = ONE
    factors = []
    todo = list(m)
    bset = {b: (lo, hi) for b, lo, hi in binders}
    order = [b for b, _, _ in binders]
    while todo:
        a, e = todo.pop()
        at = _ATOMS[a]
        if at.kind == "sum" and e == 1 and (at.bvs & set(bset)):
            ren = {}
            for b, lo, hi in at.args[0]:
                nb = fresh_bv()
                ren[b] = patom(nb)
                bset[nb.id] = None
            for b, lo, hi in at.args[0]:
                nb = next(iter(ren[b].t))[0][0]
                bset[nb] = (subst(lo, ren), subst(hi, ren))
                order.append(nb)
            body = subst(at.args[1], ren)
            if len(body.t) != 1:
                tot = ZERO
                rest = Poly({mmul(tuple(sorted(factors)), tuple(sorted(todo))): c}, False)
                q = pmul(rest, body)
                bl = [(b, bset[b][0], bset[b][1]) for b in order]
                for mm, cc in q.t.items():
                    tot = padd(tot, _sum_mono(list(bl), mm, cc))
                return pmul(tot, out) if out is not ONE else tot
            (mm, cc), = body.t.items()
            c = c * cc
            todo.extend(mm)
        else:
            factors.append((a, e))
    # merge duplicate factors
    d = {}
    for a, e in factors:
        d[a] = d.get(a, 0) + e
    mono = tuple(sorted((a, e) for a, e in d.items() if e))
    # delta elimination: sum_k delta(k, e) t(k) = t(e) when lo <= e < hi is a *range-free* fact we cannot
    # see here; the elimination is done only through SUM_RULES, which know their ranges.
    for rule in SUM_RULES:
        r = rule(bset, mono)
        if r is not None:
            newb, poly = r
            bl = [(b, newb[b][0], newb[b][1]) for b in order if b in newb]
            tot = ZERO
            for mm, cc in poly.t.items():
                tot = padd(tot, _sum_mono(list(bl), mm, cc * c))
            return tot
    return pmul(out, _components(bset, order, mono, c))

def _components(bset, order, mono, c):
    free = []
    comps = []          # list of (set of bvs, list of factors)
    for a, e in mono:
        used = _ATOMS[a].bvs & set(bset)
        if not used:
            free.append((a, e))
            continue
        hit = [k for k in comps if k[0] & used]
        s, fs = set(used), [(a, e)]
        for k in hit:
            s |= k[0]
            fs += k[1]
            comps.remove(k)
        comps.append((s, fs))
    # binder ranges that mention other binders join the components
    for b in order:
        lo, hi = bset[b]
        dep = (lo.bvs() | hi.bvs()) & set(bset)
        if dep:
            used = dep | {b}
            hit = [k for k in comps if k[0] & used]
            s, fs = set(used), []
            for k in hit:
                s |= k[0]
                fs += k[1]
                comps.remove(k)
            comps.append((s, fs))
    res = Poly({tuple(sorted(free)): c}, all(_ATOMS[a].isint and e > 0 for a, e in free))
    seen = set()
    for s, fs in comps:
        seen |= s
        res = pmul(res, _mk_sum([b for b in order if b in s], bset, fs))
    for b in order:
        if b not in seen:
            lo, hi = bset[b]
            res = pmul(res, padd(hi, lo, -1))        # sum of 1 (ranges are nonempty-or-empty: hi >= lo is a side fact)
    return res

def _mk_sum(bs, bset, fs):
    n = len(bs)
    isint = all(_ATOMS[a].isint and e > 0 for a, e in fs)
    best = None
    perms = [(0,)] if n == 1 else permutations(range(n)) if n <= 3 else _orders(bs, bset, fs)
    canon = [mk_atom("bv", (i,), True) for i in range(n)]
    # binders of enclosing sums may use the same canonical numbers; choose numbers above those used inside
    inner = 0
    for a, e in fs:
        inner = max(inner, _depth(_ATOMS[a]))
    for b in bs:
        lo, hi = bset[b]
        for p in (lo, hi):
            for m in p.t:
                for a, e in m:
                    inner = max(inner, _depth(_ATOMS[a]))
    canon = [mk_atom("bv", (inner + i,), True) for i in range(n)]
    for perm in perms:
        ren = {bs[perm[i]]: patom(canon[i]) for i in range(n)}
        body = ONE
        for a, e in fs:
            q = subst(Poly({((a, 1),): F1}, _ATOMS[a].isint), ren)
            q = ppow(q, e) if e > 0 else pinv(ppow(q, -e))
            body = pmul(body, q)
        rng = tuple((canon[i].id, subst(bset[bs[perm[i]]][0], ren), subst(bset[bs[perm[i]]][1], ren)) for i in range(n))
        k = (tuple((lo.key(), hi.key()) for _, lo, hi in rng), body.key())
        if best is None or k < best[0]:
            best = (k, rng, body)
    _, rng, body = best
    body = Poly(body.t, isint)
    lo, hi = rng[0][1], rng[0][2]
    if n == 1 and lo.is_const() and hi.is_const() and hi.const() - lo.const() <= 64:
        tot = ZERO
        for v in range(int(lo.const()), int(hi.const())):
            tot = padd(tot, subst(body, {rng[0][0]: pconst(v, True)}))
        return Poly(tot.t, isint)
    return patom(mk_atom("sum", (rng, body), isint))

def _orders(bs, bset, fs):
    """the orders of many binders worth trying: colours refined from the factors they occur in, all orders of equal colours"""
    n = len(bs)
    col = {b: 0 for b in bs}
    occ = {b: [(a, e) for a, e in fs if b in _ATOMS[a].bvs] for b in bs}
    for _ in range(n):
        sig = {}
        for b in bs:
            ren = {x: patom(mk_atom("bv", (-100 - col[x],), True)) for x in bs}
            ren[b] = patom(mk_atom("bv", (-1,), True))
            sig[b] = (col[b], tuple(subst(p, ren).key() for p in bset[b]),
                      tuple(sorted((subst(patom(_ATOMS[a]), ren).key(), e) for a, e in occ[b])))
        ranks = {k: i for i, k in enumerate(sorted(set(sig.values())))}
        new = {b: ranks[sig[b]] for b in bs}
        if len(set(new.values())) == len(set(col.values())):
            col = new
            break
        col = new
    classes = {}
    for i, b in enumerate(bs):
        classes.setdefault(col[b], []).append(i)
    total = 1
    for c in classes.values():
        for k in range(2, len(c) + 1):
            total *= k
    if total > 720:
        raise Unsupported("too many nested sums")
    out = [()]
    for k in sorted(classes):
        out = [o + q for o in out for q in permutations(classes[k])]
    return out

def _depth(at):
    if at.kind == "sum":
        d = max(_ATOMS[b].args[0] for b, _, _ in at.args[0]) + 1
    elif at.kind == "bv" :
        d = 0
    else:
        d = 0
    for p in _subpolys(at):
        for m in p.t:
            for a, _ in m:
                d = max(d, _depth(_ATOMS[a]))
    return d
