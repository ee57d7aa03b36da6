"""C07: least squares: weighted minimiser, with derivatives that are derivatives.

numpy's inverse enters by its contract: the argument must be the weighted moment matrix A = sum_t w_t b_t b_t^T (an
obligation), the result is a symmetric matrix G with A G = I.  Then the coefficients G (sum_t w_t b_t v_t) solve the
normal equations, which characterise the weighted least-squares minimiser; derivatives follow from d(A G) = 0."""
from itertools import product, combinations_with_replacement
from pyvc.harness import case

def L(V):
    return V.lib("approx.ls")

def monomials(deg, dim):
    """exponents of the full polynomial space"""
    return sorted((e for e in product(range(deg + 1), repeat=dim) if sum(e) <= deg), key=lambda e: (sum(e), e))

def mono(e, x, der=()):
    """the derivative of x^e in the directions der"""
    c, e = 1, list(e)
    for d in der:
        c *= e[d]
        if e[d] == 0:
            return 0
        e[d] -= 1
    for d, k in enumerate(e):
        for _ in range(k):
            c = c * x[d]
    return c

def coords(p, dim):
    return [p] if dim == 1 else [p[d] for d in range(dim)]

def ders(dim, order):
    """the documented order of the returned derivatives"""
    out = [()]
    if order > 0:
        out += [(d,) for d in range(dim)]
    if order > 1:
        out += [(d, d) for d in range(dim)] + [(i, j) for i in range(dim) for j in range(i + 1, dim)]
    return out

ALL = {d: ders(d, 2) for d in (1, 2, 3)}

def weight(V, dim, kind):
    """a weight function that reports its own derivatives; proof: an arbitrary one"""
    M = V.lib("approx.functions")
    np = V.np
    def at(w, x):
        c = list(w.core) if kind == "moving" else []
        return c, [x] if dim == 1 else [x[d] for d in range(dim)]
    if V.proof:
        from pyvc.sym import lift, lower
        from pyvc.poly import patom, mk_atom
        def uf(nm, w, x):
            c, y = at(w, x)
            return lower(patom(mk_atom("uf", (nm, tuple(lift(e) for e in c + y)), False)))
        def val(w, x, der=()):
            return uf("weight" + "".join("xyz"[d] for d in sorted(der)), w, x)
    else:
        a = [0.3 + V.rng.random() for _ in range(dim)]
        c0 = [V.rng.gauss(0, 1) for _ in range(dim)]
        def val(w, x, der=()):
            c, y = at(w, x)
            c = c or c0
            d = [c[i] - y[i] for i in range(dim)]
            v = float(np.exp(-sum(a[i] * d[i] ** 2 for i in range(dim)) / 2))
            if len(der) == 1:
                return -a[der[0]] * d[der[0]] * v
            if len(der) == 2:
                i, j = der
                return (a[i] * d[i] * a[j] * d[j] - (a[i] if i == j else 0)) * v
            return v
    class Weight(M.MLSWeightFunction):
        def value(self, x):
            return val(self, x)
        def gradient(self, x):
            return np.array([val(self, x, (d,)) for d in range(dim)])
        def Hessian(self, x):
            return np.array([[val(self, x, (i, j)) for j in range(dim)] for i in range(dim)])
    return Weight(core=[0.0] * dim), val

def spec(V, ms, dim, n, nrec, pts, vals, wt, x, orders, G=None):
    """value and derivatives of b(x)^T A(x)^-1 (sum_t w_t(x) b_t v_t) by the product rule; wt(t, der)"""
    k = len(ms)
    R = range(k)
    bt = lambda i, t: mono(ms[i], pts(t))
    A = lambda der: [[V.sum(n, lambda t: wt(t, der) * bt(i, t) * bt(j, t)) for j in R] for i in R]
    Y = lambda der: [[V.sum(n, lambda t: wt(t, der) * bt(i, t) * vals(t, r)) for r in range(nrec)] for i in R]
    b = lambda der: [mono(m, x, der) for m in ms]
    need = sorted({tuple(sorted(s)) for o in orders for s in ([()] + [(d,) for d in o] + [o])})
    As, Ys, bs = {d: A(d) for d in need}, {d: Y(d) for d in need}, {d: b(d) for d in need}
    if G is None:
        G = V.np.linalg.inv(V.np.array(As[()], dtype=float)).tolist()
    mv = lambda M_, v: [sum(M_[i][j] * v[j] for j in R) for i in R]
    Gs = lambda v: mv(G, v)
    neg = lambda v: [-e for e in v]
    def dG(der, v):
        """the derivative of G applied to a vector"""
        if not der:
            return Gs(v)
        if len(der) == 1:
            return neg(Gs(mv(As[der], Gs(v))))
        p, q = der
        g = Gs(v)
        a = Gs(mv(As[(p,)], Gs(mv(As[(q,)], g))))
        c = Gs(mv(As[(q,)], Gs(mv(As[(p,)], g))))
        e = Gs(mv(As[der], g))
        return [s + t - u for s, t, u in zip(a, c, e)]
    out = []
    for o in orders:
        row = []
        for r in range(nrec):
            tot = 0
            for parts in product(range(3), repeat=len(o)):
                db, dg, dy = [tuple(sorted(o[i] for i in range(len(o)) if parts[i] == z)) for z in range(3)]
                v = dG(dg, bs[db])
                tot = tot + sum(v[i] * Ys[dy][i][r] for i in R)
            row.append(tot)
        out.append(row)
    return As[()], out

def data(V, dim, deg, nrec, n=None):
    np = V.np
    ms = monomials(deg, dim)
    n = n if n is not None else V.dim("n", len(ms) + 1, len(ms) + 6) if not V.proof else V.dim("n", 0)
    P = V.arr("points", (n,) if dim == 1 and V.choice("flat", [True, False][:1]) else (n, dim))
    if not V.proof and V.flavour in ("zeros", "int", "scale"):
        P = np.array([[V.rng.gauss(0, 1) for _ in range(dim)] if dim > 1 else V.rng.gauss(0, 1) for _ in range(n)])
        V.used["points"] = P.copy()
    flat = nrec == 0
    Y = V.arr("values", (n,) if flat else (n, nrec))
    pts = lambda t: coords(P[t], dim)
    vals = lambda t, r: Y[t] if flat else Y[t, r]
    return ms, n, P, Y, pts, vals

def symmetric(V, k):
    np = V.np
    e = {}
    for i in range(k):
        for j in range(i, k):
            e[i, j] = e[j, i] = V.real("G%d_%d" % (i, j))
    return [[e[i, j] for j in range(k)] for i in range(k)]

def well(V, ms, pts, n, wt):
    """concrete: well conditioned moment matrix"""
    np = V.np
    if V.proof:
        return
    A = sum(np.outer(b, b) * wt(t, ()) for t in range(n) for b in [np.array([mono(m, pts(t)) for m in ms], dtype=float)])
    V.assume(np.linalg.cond(A) < 3e3)

def arg(V, x, dim):
    """an evaluation point in one of the accepted forms"""
    if dim == 1:
        return x[0]
    return V.np.array(x)

def fit(V, ways, dim, deg, nrec, order, n=None, reorder=True, earlier=False):
    """run one of the public functions and compare value and derivatives with the specification"""
    np = V.np
    way = V.choice("function", ways)
    ms, n, P, Y, pts, vals = data(V, dim, deg, nrec, n)
    x = [V.real("x%d" % d, *(() if V.proof else (-2.0, 2.0))) for d in range(dim)]
    nr = max(nrec, 1)
    big = 1 if V.proof else max(1.0, float(np.abs(Y).max()), max(abs(e) for e in x) ** 2)
    orders = ders(dim, order)
    w = None
    if way == "least_squares":
        wt = lambda t, der: 0 if der else 1
    elif way == "constant weight":
        c = V.real("weight", 0.2, 3)
        if V.proof:
            V.c.declare_nonzero(c)
        w = V.lib("approx.functions").ConstantWeightFunction(dim=dim, value=c)
        wt = lambda t, der: 0 if der else c
    else:
        w, val = weight(V, dim, "moving" if way == "moving_least_squares" else "fixed")
        if way == "moving_least_squares" and not V.proof:
            w.core = np.array(x)
        if V.proof and way == "moving_least_squares":
            w.core = np.array(x)
        wt = lambda t, der: val(w, P[t], der)
    well(V, ms, pts, n, wt)
    if not V.proof:
        V.assume(all(1e-3 < abs(wt(t, ())) for t in range(n)))
    G = None
    before = earlier and (V.proof or V.choice("earlier evaluations", [False, True]))
    if V.proof:
        G = symmetric(V, len(ms))
        seen = []
        skip = [before and way == "moving_least_squares"]
        perm = {}
        def inv(a):
            if skip[0]:
                return np.array(symmetric(V, len(ms)))
            # the library's order of the monomials, read off its own basis at a probe point
            order_ = perm.setdefault("p", library_order(V, deg, dim, ms))
            k = len(ms)
            V.shape(a, (k, k), "moment matrix")
            A = spec(V, ms, dim, n, 0, pts, vals, wt, x, [()], G)[0]
            for i in range(k):
                for j in range(k):
                    V.eq(a[i, j], A[order_[i]][order_[j]], "the matrix inverted is the weighted moment matrix")
            seen.append(1)
            return np.array([[G[order_[i]][order_[j]] for j in range(k)] for i in range(k)])
        V.hook(inv=inv)
    oP, oY = V.copy(P), V.copy(Y)
    kw = {"deg": deg, "order": order}
    if way == "least_squares":
        f = L(V).least_squares(P, Y, **kw)
    elif way == "moving_least_squares":
        f = L(V).moving_least_squares(P, Y, w=w, **kw)
    else:
        f = L(V).weighted_least_squares(P, Y, w=w, **kw)
    if before:
        # earlier evaluations, at the point object used later too: nothing of them is kept
        at = arg(V, [V.real("z%d" % d, *(() if V.proof else (-2.0, 2.0))) for d in range(dim)], dim)
        r0 = f(at)
        if dim > 1:
            for d in range(dim):
                at[d] = x[d]
        else:
            at = arg(V, x, dim)
        if not V.proof:
            for r in r0:
                if r is not None:
                    r[...] = 7.0
        else:
            skip[0] = False
        res = f(at)
    else:
        res = f(arg(V, x, dim))
    _, ref = spec(V, ms, dim, n, nr, pts, vals, wt, x, orders, G)
    for o, r in zip(ALL[dim], res):
        if o in orders:
            V.shape(r, (nr,), "one entry per value column")
            for c in range(nr):
                V.eq(r[c] / big, ref[orders.index(o)][c] / big, "value" if not o else "derivative %s" % ("".join("xyz"[d] for d in o)), tol=1e-5)
    V.unchanged(P, oP, "points unchanged")
    V.unchanged(Y, oY, "values unchanged")

def library_order(V, deg, dim, ms):
    """position i of the library's basis is the monomial ms[result[i]]; every monomial occurs exactly once"""
    b = V.lib("approx.ls")._get_polynomial(deg, dim)[0]
    probe = [3, 7, 19][:dim]
    got = list(b(V.np.array(probe) if dim > 1 else probe[0]))
    vals = [mono(m, probe) for m in ms]
    V.true(sorted(int(g) for g in got) == sorted(vals), "the basis spans the full polynomial space")
    return [vals.index(int(g)) for g in got]

WAYS = ["weighted_least_squares", "moving_least_squares", "least_squares", "constant weight"]
SPACES = [(dim, deg) for dim in (1, 2, 3) for deg in (1, 2)]

@case("the value is the weighted least-squares fit over the full polynomial space", reps=220, budget=200, paths=3000,
      note="any number of points, values and weights; one or two value columns; degrees one and two in one to three variables")
def value(V):
    dim, deg = V.choice("space", SPACES)
    fit(V, WAYS, dim, deg, V.choice("columns", [0, 2] if V.proof else [0, 1, 2, 3]), 0)

@case("first and second derivatives are those of the value", reps=260, budget=300, note="any number of points and arbitrary weights; spaces of up to four basis functions, the others by the three cases below")
def derivatives(V):
    dim, deg = V.choice("space", ([(1, 1), (1, 2), (2, 1), (3, 1)] + ([(2, 2)] if V.tier == "thorough" else [])) if V.proof else SPACES)
    order = V.choice("order", [1, 2])
    fit(V, WAYS, dim, deg, V.choice("columns", [0] if V.proof else [0, 1, 2, 3]), order)

@case("an evaluation does not depend on earlier evaluations", reps=150, budget=120, note="any number of points, any weights; linear spaces in one and two variables in the proof")
def history(V):
    dim, deg = V.choice("space", [(1, 1), (2, 1)] if V.proof else SPACES)
    fit(V, WAYS, dim, deg, V.choice("columns", [0] if V.proof else [0, 2]), V.choice("order", [0, 2] if not V.proof else [0]), earlier=True)

@case("assembly of value and derivatives from the moment matrices, any number of basis functions", concrete=False, budget=200,
      note="_mls_approx: arrays of any size, any values")
def assembly(V):
    np = V.np
    dim = V.choice("dim", [1, 2, 3])
    k, n, nr = V.dim("k", 1), V.dim("n", 1), V.dim("columns", 1)
    f = V.lib("approx.ls_approx")._mls_approx
    orders = ALL[dim]
    nm = lambda o: "".join("xyz"[d] for d in o)
    A = {o: V.arr("A" + nm(o), (k, k)) for o in orders if o}
    B = {o: V.arr("B" + nm(o), (k, n)) for o in orders}
    b = {o: V.arr("b" + nm(o), (k,)) for o in orders}
    G, Y = V.arr("G", (k, k)), V.arr("Y", (n, nr))
    d = [o for o in orders if o]
    d1, d2 = [o for o in d if len(o) == 1], [o for o in d if len(o) == 2]
    res = f(G, B[()], b[()], Y, *[A[o] for o in d1 + d2], *[B[o] for o in d1 + d2], *[b[o] for o in d1 + d2], g=True, H=True, dim=dim)
    def Gd(der, v):
        if not der:
            return G @ v
        if len(der) == 1:
            return -(G @ (A[der] @ (G @ v)))
        p, q = der
        g = G @ v
        return G @ (A[(p,)] @ (G @ (A[(q,)] @ g))) + G @ (A[(q,)] @ (G @ (A[(p,)] @ g))) - G @ (A[der] @ g)
    for o, r in zip(orders, res):
        tot = None
        for parts in product(range(3), repeat=len(o)):
            db, dg, dB = [tuple(sorted(o[i] for i in range(len(o)) if parts[i] == z)) for z in range(3)]
            t = (Gd(dg, b[db]) @ B[dB]) @ Y
            tot = t if tot is None else tot + t
        V.eq(r, tot, "value" if not o else "derivative " + nm(o))

@case("moment matrices and their derivatives", concrete=False, budget=200, note="_mls_preproc: any number of points, any weights, all spaces")
def moments(V):
    np = V.np
    dim, deg = V.choice("space", SPACES)
    nr = V.choice("columns", [1, 2])
    ms, n, P, Y, pts, vals = data(V, dim, deg, nr)
    w, val = weight(V, dim, "fixed")
    k = len(ms)
    order = library_order(V, deg, dim, ms)
    b = V.lib("approx.ls")._get_polynomial(deg, dim)[0]
    G = V.mat("G", k)
    got = []
    V.hook(inv=lambda a: (got.append(a), G)[1])
    orders = ALL[dim]
    d = orders[1:]
    res = V.lib("approx.ls")._mls_preproc(P, Y, deg, dim, w, b, True, True)
    invA, Vv, B = res[:3]
    A = dict(zip(d, res[3:3 + len(d)]))
    B = dict(zip(orders, (B,) + tuple(res[3 + len(d):])))
    A[()] = got[0]
    V.eq(invA, G, "the inverse of the moment matrix")
    V.eq(Vv, Y, "values")
    bt = lambda i, t: mono(ms[order[i]], pts(t))
    for o in orders:
        for i in range(k):
            for j in range(k):
                V.eq(A[o][i, j], V.sum(n, lambda t: val(w, P[t], o) * bt(i, t) * bt(j, t)), "moment matrix, derivative %s" % (o,))
            V.forall((n,), lambda t: V.eq(B[o][i, t], val(w, P[t], o) * bt(i, t), "moment vectors, derivative %s" % (o,)))

@case("the basis is the full polynomial space and its derivatives are derivatives", concrete=False, note="any point, all spaces")
def basis(V):
    dim, deg = V.choice("space", SPACES)
    ms = monomials(deg, dim)
    order = library_order(V, deg, dim, ms)
    fs = V.lib("approx.ls")._get_polynomial(deg, dim)
    x = [V.real("x%d" % d) for d in range(dim)]
    for o, f in zip(ALL[dim], fs):
        r = f(arg(V, x, dim))
        for i in range(len(ms)):
            V.eq(r[i], mono(ms[order[i]], x, o), "basis function" if not o else "derivative %s of a basis function" % (o,))

@case("polynomial data is reproduced with its derivatives", proof=False, reps=250)
def reproduces(V):
    np = V.np
    dim, deg = V.choice("space", SPACES)
    ms = monomials(deg, dim)
    n = V.dim("n", len(ms) + 2, len(ms) + 9)
    P = np.array([[V.rng.uniform(-1, 1) for _ in range(dim)] for _ in range(n)])
    P = P[:, 0] if dim == 1 else P
    nr = V.choice("columns", [0, 1, 2, 3])
    C = np.array([[V.rng.randint(-3, 3) for _ in range(max(nr, 1))] for _ in ms], dtype=float)
    pts = lambda t: coords(P[t], dim)
    Y = np.array([[sum(C[i, r] * mono(m, pts(t)) for i, m in enumerate(ms)) for r in range(max(nr, 1))] for t in range(n)])
    x = [V.rng.uniform(-1, 1) for _ in range(dim)]
    V.used.update(points=P, values=Y, x=x, deg=deg)
    way = V.choice("function", ["least_squares", "weighted_least_squares", "moving_least_squares", "cubic", "singular"])
    M = V.lib("approx.functions")
    if way == "cubic" and dim < 3:
        w = M.CubicWeightFunction(core=[0.0] * dim, sd=[2.5] * dim)
    elif way == "singular":
        w = M.SingularWeightFunction(core=[0.0] * dim, eps=0.3)
    else:
        w, _ = weight(V, dim, "moving")
    moving = way in ("moving_least_squares", "cubic", "singular") and V.choice("moving", [True, True, False])
    order = V.choice("order", [0, 1, 2])
    w.core = np.array(x)
    wt = lambda t, der: w.f(P[t])
    V.assume(all(wt(t, ()) > 1e-3 for t in range(n)))
    well(V, ms, pts, n, wt)
    if way == "least_squares":
        f = L(V).least_squares(P, Y if nr else Y[:, 0], deg=deg, order=order)
    elif moving:
        f = L(V).moving_least_squares(P, Y if nr else Y[:, 0], deg=deg, order=order, w=w)
    else:
        f = L(V).weighted_least_squares(P, Y if nr else Y[:, 0], deg=deg, order=order, w=w)
    res = f(arg(V, x, dim))
    for o, r in zip(ALL[dim], res):
        if len(o) <= order:
            for c in range(max(nr, 1)):
                V.eq(r[c], sum(C[i, c] * mono(m, x, o) for i, m in enumerate(ms)), "polynomial data: %s" % ("value" if not o else "derivative %s" % (o,)), tol=2e-4 if len(o) == 2 else 1e-5)
