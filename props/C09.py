"""C09: Lagrange bases interpolate."""
from itertools import permutations
from fractions import Fraction
from pyvc.harness import case
import sympy as sy

def value(e, env):
    """a SymPy expression at the given values of its symbols (a KeyError: the expression has other symbols)"""
    e = sy.sympify(e)
    if e.is_Symbol:
        return env[e.name]
    if e.is_Integer:
        return int(e)
    if e.is_Rational:
        return Fraction(int(e.p), int(e.q))
    if e.is_Float:
        return float(e)
    a = [value(x, env) for x in e.args]
    if e.is_Add:
        return sum(a[1:], a[0])
    if e.is_Mul:
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if e.is_Pow and isinstance(a[1], int):
        if a[1] >= 0:
            return a[0] ** a[1]
        return 1 / (a[0] ** (-a[1]))
    raise ValueError("not a rational expression: %s" % e)

def spec(X, t, i, k):
    """k-th derivative of the i-th basis polynomial: the sum over the factors that are differentiated away"""
    rest = [j for j in range(len(t)) if j != i]
    den = 1
    for j in rest:
        den = den * (t[i] - t[j])
    s = 0
    for gone in permutations(rest, k):
        p = 1
        for j in rest:
            if j not in gone:
                p = p * (X - t[j])
        s = s + p
    return s / den

def nodes(V, N):
    """any different positions: as SymPy symbols (proof) or numbers"""
    if V.proof:
        t = [V.real("t%d" % k) for k in range(N)]
        for a in range(N):
            for b in range(a):
                V.c.declare_nonzero(t[a] - t[b])
        names = ["t%d" % k for k in range(N)]
        return t, [sy.Symbol(n) for n in names], dict(zip(names, t))
    while True:
        t = [round(V.rng.uniform(-2, 2), V.rng.choice([1, 3, 8])) if V.rng.random() < 0.8 else float(V.rng.randint(-2, 2)) for _ in range(N)]
        if all(abs(a - b) >= 0.25 for n, a in enumerate(t) for b in t[:n]):
            break
    V.used["t"] = t
    x = V.rng.choice([list, tuple, V.np.array])(t)
    if all(float(v).is_integer() for v in t) and V.rng.random() < 0.5:
        x = [int(v) for v in t]
    return t, x, {}

def check(V, d, inds, t, X, name="x", env=None, tol=1e-6):
    env = dict(env or {})
    env[name] = X
    tot = 0
    for i, ind in enumerate(inds):
        for k in range(4):
            v = value(d[ind][k], env)
            V.eq(v, spec(X, t, i, k), "function %d of the basis, derivative %d" % (i, k), tol=tol)
        tot = tot + value(d[ind][0], env)
        for j in range(len(t)):
            at = dict(env)
            at[name] = t[j]
            V.eq(value(d[ind][0], at), 1 if i == j else 0, "one at its own node, zero at the others", tol=tol)
        e = sy.sympify(d[ind][0])
        if V.proof:
            p = sy.Poly(sy.expand(e), sy.Symbol(name)) if e.free_symbols else None
            V.true(p is None or p.degree() < len(t), "degree below the number of nodes")
    V.eq(tot, 1, "partition of unity", tol=tol)

def basis(V, N):
    G = V.lib("approx.lagrange").gen_Lagrange_1d
    t, x, env = nodes(V, N)
    X = V.real("X") if V.proof else V.rng.uniform(-2, 2)
    inds = V.choice("indices", [None, [7, 3, 11, 20, 5][:N]])
    kw = {} if inds is None else {"i": inds}
    name = V.choice("symbol", [None, "r"])
    if name:
        kw["xsym"] = name
    d = G(x=x, **kw)
    V.true(sorted(d.keys()) == sorted(inds or range(1, N + 1)), "one entry per node")
    check(V, d, inds or list(range(1, N + 1)), t, X, name or "x", env)

for _n, _q in ((1, False), (2, False), (3, False)):
    case("basis of %d nodes" % _n, level="bounded", note="any %d different positions" % _n, reps=12)(lambda V, n=_n: basis(V, n))

@case("basis of 4 nodes", level="bounded", note="any 4 different positions", reps=12, budget=150, hang=120)
def _(V):
    if not V.proof:
        return basis(V, 4)
    G = V.lib("approx.lagrange").gen_Lagrange_1d
    t, x, env = nodes(V, 4)
    check(V, G(x=x), [1, 2, 3, 4], t, V.real("X"), "x", env)

@case("basis of 5 and 6 numeric nodes", proof=False, reps=10, hang=120)
def _(V):
    N = V.choice("N", [5, 6])
    t, x, env = nodes(V, N)
    X = V.rng.uniform(-2, 2)
    d = V.lib("approx.lagrange").gen_Lagrange_1d(x=x)
    check(V, d, list(range(1, N + 1)), t, X, tol=1e-4)

@case("equidistant nodes", level="bounded", note="1 to 6 nodes", reps=12, hang=120)
def _(V):
    N = V.choice("N", [1, 2, 3, 4, 5, 6])
    X = V.real("X", -1, 1)
    how = V.choice("how", ["N", "i", "N and x"])
    G = V.lib("approx.lagrange").gen_Lagrange_1d
    t = [Fraction(-1)] if N == 1 else [Fraction(2 * k, N - 1) - 1 for k in range(N)]
    inds = list(range(1, N + 1))
    if how == "N":
        d = G(N=N)
    elif how == "i":
        inds = [2 * k + 3 for k in range(N)]
        d = G(i=inds)
    else:
        d = G(N=N, x=t)
    if not V.proof:
        t = [float(v) for v in t]
    check(V, d, inds, t, X, tol=1e-5)

@case("symbolic nodes", level="bounded", note="1 to 3 nodes", reps=6, hang=120)
def _(V):
    """sym=True: the same functions with symbols x_1, x_2, .. for the positions"""
    N = V.choice("N", [1, 2, 3])
    G = V.lib("approx.lagrange").gen_Lagrange_1d
    name = V.choice("symbol", ["x", "r"])
    inds = V.choice("indices", [None, [4, 2, 9][:N]])
    d = G(N=N, sym=True, xsym=name) if inds is None else G(i=inds, sym=True, xsym=name)
    t, _, env = nodes(V, N)
    X = V.real("X")
    names = [name + "_%d" % (k + 1) for k in range(N)]
    check(V, d, inds or list(range(1, N + 1)), t, X, name, dict(zip(names, t)))

@case("interpolant", level="bounded", note="any 1 to 3 different positions, any values", reps=40)
def _(V):
    N = V.choice("N", [1, 2, 3] if V.proof else [1, 2, 3, 4, 5])
    A = V.lib("approx.lagrange").approx_Lagrange_1d
    t, x, env = nodes(V, N)
    v = [V.real("v%d" % k) for k in range(N)]
    X = V.real("X", -2, 2)
    if V.proof:
        vs = [sy.Symbol("v%d" % k) for k in range(N)]
        env.update(zip(["v%d" % k for k in range(N)], v))
        e = A(x, vs)
        f = lambda s: value(e, dict(env, x=s))
    else:
        lam = V.choice("lambdify", [True, False])
        e = A(x, V.choice("container", [list, V.np.array])(v), lambdify=lam)
        f = e if lam else lambda s: value(e, {"x": s})
    for k in range(N):
        V.eq(f(t[k]), v[k], "the interpolant passes through every pair", tol=1e-6)
    ref = sum(v[k] * spec(X, t, k, 0) for k in range(N))
    V.eq(f(X), ref, "the interpolant is the combination of the basis with the values", tol=1e-6)

@case("polynomials are reproduced", level="bounded", note="any 1 to 3 different positions, any coefficients", reps=40)
def _(V):
    N = V.choice("N", [1, 2, 3] if V.proof else [1, 2, 3, 4, 5])
    A = V.lib("approx.lagrange").approx_Lagrange_1d
    t, x, env = nodes(V, N)
    c = [V.real("c%d" % k) for k in range(N)]
    X = V.real("X", -2, 2)
    p = lambda s, cc=c: sum(cc[k] * s ** k for k in range(N))
    if V.proof:
        cs = [sy.Symbol("k%d" % k) for k in range(N)]
        e = A(x, [p(s, cs) for s in x])
        env.update(("k%d" % k, c[k]) for k in range(N))
        got = value(e, dict(env, x=X))
    else:
        got = A(x, [p(s) for s in t], lambdify=True)(X)
    V.eq(got, p(X), "polynomials of degree below the number of nodes are reproduced", tol=1e-5)

@case("callables", proof=False, reps=30)
def _(V):
    """lambdify only converts the functions"""
    np = V.np
    N = V.choice("N", [2, 3, 4])
    t, x, _ = nodes(V, N)
    G = V.lib("approx.lagrange").gen_Lagrange_1d
    d = G(x=x, lambdify=True)
    X = np.array([V.rng.uniform(-2, 2) for _ in range(5)])
    for i in range(N):
        for k in range(4):
            V.eq(np.broadcast_to(d[i + 1]["fnc"][k](X), X.shape), np.array([spec(s, t, i, k) for s in X]), "callable %d" % k, tol=1e-5)
            V.eq(d[i + 1]["fnc"][k](X[0]), spec(X[0], t, i, k), "callable %d at one point" % k, tol=1e-5)

@case("labels and storage", proof=False, reps=20)
def _(V):
    G = V.lib("approx.lagrange").gen_Lagrange_1d
    from sigmaepsilon.deepdict import DeepDict
    N = V.choice("N", [2, 3])
    t, x, _ = nodes(V, N)
    fs = V.choice("fsym", [None, "N", "f"])
    inds = V.choice("indices", [[5, 6, 7][:N], range(N), V.np.arange(3, 3 + N), tuple(range(N))])
    out = V.choice("out", [None, {}, DeepDict()])
    if isinstance(out, dict) and not isinstance(out, DeepDict):
        out = {}
    d = G(x=x, i=inds, fsym=fs, out=out)
    if out is not None:
        V.same(d, out, "the functions are stored in the dictionary that was given")
    for i in inds:
        V.true(d[int(i)]["symbol"] == "%s_{%d}" % (fs or "\\phi", i), "label of the function")
    check(V, d, [int(i) for i in inds], t, V.rng.uniform(-2, 2))

@case("bad input is rejected", proof=False, reps=10)
def _(V):
    L = V.lib("approx.lagrange")
    k = V.choice("k", ["nothing", "lengths", "equal nodes", "symbolic callables"])
    f = {"nothing": lambda: L.gen_Lagrange_1d(), "lengths": lambda: L.approx_Lagrange_1d([1, 2], [1, 2, 3]),
         "equal nodes": lambda: L.gen_Lagrange_1d(x=[1, 2, 1]), "symbolic callables": lambda: L.gen_Lagrange_1d(N=2, sym=True, lambdify=True)}[k]
    _, e = V.attempt(f, Exception)
    V.true(e is not None, "bad input is rejected")
