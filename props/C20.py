"""C20: symbolic functions: value, gradient, Hessian and coefficients agree."""
from itertools import permutations
from pyvc.harness import case
import sympy as sy

# polynomials as {exponents: coefficient}; the specification evaluates and differentiates them by itself
NAMES = ["x", "y", "z1"]

def shapes(n):
    """polynomial patterns in n variables"""
    if n == 1:
        return [{(0,): 3}, {(1,): 2, (0,): -5}, {(2,): 3, (1,): 1}, {(3,): 1, (0,): 2}, {(1,): 1}]
    if n == 2:
        return [{(1, 0): 2, (0, 1): 3, (0, 0): -1}, {(1, 1): 4}, {(2, 0): 3, (1, 1): 1, (0, 1): 2, (0, 0): 5}, {(0, 1): 7},
                {(2, 1): 1, (0, 2): -3}, {(3, 0): 1, (0, 1): 1}]
    return [{(1, 0, 0): 2, (0, 1, 0): -3, (0, 0, 1): 4, (0, 0, 0): 6}, {(1, 1, 0): 1, (0, 0, 2): 5}, {(2, 1, 0): 1, (0, 0, 1): 1},
            {(0, 1, 0): 3}, {(1, 1, 1): 2, (1, 0, 0): -1}]

def pval(P, x):
    t = 0
    for e, c in P.items():
        m = c
        for xi, k in zip(x, e):
            for _ in range(k):
                m = m * xi
        t = t + m
    return t

def pdiff(P, i):
    out = {}
    for e, c in P.items():
        if e[i]:
            f = tuple(k - (j == i) for j, k in enumerate(e))
            out[f] = out.get(f, 0) + c * e[i]
    return out

def psub(P, i, v):
    out = {}
    for e, c in P.items():
        f = tuple(0 if j == i else k for j, k in enumerate(e))
        out[f] = out.get(f, 0) + c * v ** e[i]
    return out

def text(V, P, names, style):
    parts = []
    for e, c in P.items():
        f = ["(%s)" % c] if c < 0 else [str(c)]
        for nm, k in zip(names, e):
            if k:
                f.append(nm if k == 1 else "%s**%d" % (nm, k))
        parts.append("*".join(f))
    if style == "reversed":
        parts = parts[::-1]
    return " + ".join(parts)

def expression(P, syms):
    return sum((c * sy.prod([s ** k for s, k in zip(syms, e)]) for e, c in P.items()), sy.Integer(0))

def make(V, F, P, n, perm):
    """the function with its variables declared in the order perm; the polynomial refers to NAMES"""
    how = V.choice("given as", ["text", "text reversed", "expression", "expression with assumptions", "text with symbols", "text, positive symbols", "expression, names"])
    names = [NAMES[i] for i in perm]
    syms = sy.symbols(NAMES[:n])
    pos = sy.symbols(NAMES[:n], positive=True)
    order = lambda s: [s[i] for i in perm]
    if how == "text":
        return F(text(V, P, NAMES, ""), variables=names), how
    if how == "text reversed":
        return F(text(V, P, NAMES, "reversed"), variables=tuple(names)), how
    if how == "expression":
        return F(expression(P, syms), variables=order(syms)), how
    if how == "expression with assumptions":
        return F(expression(P, pos), variables=order(pos)), how
    if how == "text with symbols":
        return F(text(V, P, NAMES, ""), variables=order(syms)), how
    if how == "text, positive symbols":
        return F(text(V, P, NAMES, ""), variables=order(pos)), how
    return F(expression(P, pos), variables=names), how

def check_values(V, f, P, n, perm, pt, note=""):
    """f at pt: pt[k] is the value of the k-th declared variable"""
    x = [None] * n
    for k, i in enumerate(perm):
        x[i] = pt[k]
    V.true(f.dimension == n, "dimension" + note)
    V.true([str(v) for v in f.variables] == [NAMES[i] for i in perm], "declared order of the variables" + note)
    V.eq(f(pt), pval(P, x), "value" + note)
    V.eq(f.f(pt), pval(P, x), "value (f)" + note)
    g = f.g(pt)
    H = f.G(pt)
    V.true(len(g) == n, "gradient has one entry per variable" + note)
    V.true(len(H) == n and all(len(r) == n for r in H), "the Hessian is square" + note)
    for a, i in enumerate(perm):
        V.eq(g[a], pval(pdiff(P, i), x), "gradient" + note)
        for b, j in enumerate(perm):
            V.eq(H[a][b], pval(pdiff(pdiff(P, i), j), x), "Hessian" + note)

def check_coefficients(V, f, P, n, perm, pt, note=""):
    x = [None] * n
    for k, i in enumerate(perm):
        x[i] = pt[k]
    at = {str(v): pt[k] for k, v in enumerate(f.variables)}
    for norm in (False, True):
        d = f.coefficients(normalize=norm)
        t = 0
        for key, c in d.items():
            m = lam(V, key, at)
            t = t + num(V, c) * m
        V.eq(t, pval(P, x), "the coefficients reassemble the expression" + note)
        V.true(all(v in d for v in f.variables), "every variable has a coefficient" + note)
        if all(sum(e) <= 1 for e in P):
            for k, i in enumerate(perm):
                e = tuple(int(j == i) for j in range(n))
                V.eq(num(V, f.linear_coefficients(normalize=norm)[f.variables[k]]), P.get(e, 0), "linear coefficients" + note)
    V.true(bool(f.is_linear) == all(k <= 1 for e, c in P.items() if c for k in e), "linear exactly when of degree at most one in every variable" + note)
    V.true(bool(f.is_symbolic), "symbolic" + note)

def num(V, c):
    from fractions import Fraction
    r = sy.nsimplify(c)
    return Fraction(int(r.p), int(r.q)) if V.proof else float(c)

def lam(V, key, at):
    """value of a monomial key at a point (keys are products of powers of variables)"""
    key = sy.sympify(key)
    if key.is_number:
        return num(V, key)
    t = 1
    for base, ex in key.as_powers_dict().items():
        if base.is_number:
            t = t * num(V, base ** ex)
            continue
        if base.is_Add:
            b = sum(lam(V, a, at) for a in base.args)
        else:
            b = at[str(base)] if base.is_Symbol else None
        for _ in range(int(ex)):
            t = t * b
    return t

def setup(V):
    n = V.choice("variables", [1, 2, 3])
    P = V.choice("polynomial", shapes(n))
    if not V.proof and V.rng.random() < 0.6:
        P = {}
        for _ in range(V.rng.randrange(1, 6)):
            P[tuple(V.rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(n))] = V.rng.choice([-7, -2, -1, 1, 2, 3, 11])
        V.used["P"] = {str(k): v for k, v in P.items()}
    perm = V.choice("order", list(permutations(range(n))))
    pt = [V.real("p%d" % k, -2, 2) for k in range(n)]
    return n, P, perm, pt

@case("value, gradient and Hessian at every point", level="bounded", reps=60, paths=5000, budget=240,
      note="polynomials of the listed shapes in up to three variables, every order of the variables, every form of input; points arbitrary")
def values(V):
    n, P, perm, pt = setup(V)
    f, how = make(V, V.lib("function").Function, P, n, perm)
    check_values(V, f, P, n, perm, pt)

@case("coefficients and linearity", level="bounded", reps=60, paths=5000, budget=240, note="polynomials of the listed shapes, points arbitrary")
def coeffs(V):
    n, P, perm, pt = setup(V)
    f, how = make(V, V.lib("function").Function, P, n, perm)
    check_coefficients(V, f, P, n, perm, pt)
    check_values(V, f, P, n, perm, pt, " after asking for coefficients")

@case("substitution and simplification", level="bounded", reps=80, paths=6000, budget=240,
      note="polynomials of the listed shapes, one variable or all of them substituted by integers; points arbitrary")
def substitution(V):
    n = V.choice("variables", [1, 2, 3] if not V.proof else [1, 2])
    P = V.choice("polynomial", shapes(n))
    perm = V.choice("order", list(permutations(range(n))))
    pt = [V.real("p%d" % k, -2, 2) for k in range(n)]
    f, how = make(V, V.lib("function").Function, P, n, perm)
    what = V.choice("operation", ["simplify", "one", "one in place", "all", "all without names", "one, symbol"])
    if what == "simplify":
        f.simplify()
        check_values(V, f, P, n, perm, pt, " after simplification")
        check_coefficients(V, f, P, n, perm, pt, " after simplification")
        return
    if what.startswith("one"):
        i = V.choice("which", list(range(n)))
        v = V.choice("value", [0, 2, -3])
        Q = psub(P, i, v)
        name = NAMES[i] if what != "one, symbol" else f.variables[list(perm).index(i)]
        g = f.subs([v], [name], inplace=what == "one in place")
    else:
        vals = [2, -1, 3][:n]
        Q = P
        for k, i in enumerate(perm):
            Q = psub(Q, i, vals[k])
        g = f.subs(vals, [NAMES[i] for i in perm]) if what == "all" else f.subs(vals)
    check_values(V, g, Q, n, perm, pt, " after substitution")
    check_coefficients(V, g, {k: c for k, c in Q.items() if c} or {(0,) * n: 0}, n, perm, pt, " after substitution")
    if what == "one in place":
        V.true(g is f, "in place")
        check_values(V, f, Q, n, perm, pt, " in place")
    else:
        V.true(g is not f, "a new function")
        check_values(V, f, P, n, perm, pt, " of the original after substitution")

@case("functions given by callables", reps=20)
def callables(V):
    """any value, gradient and Hessian: they are handed through"""
    F = V.lib("function").Function
    a, g0, h0 = V.real("a"), V.real("g"), V.real("h")
    seen = []
    def f0(*x, **k):
        seen.append((x, k))
        return a
    f1 = lambda *x, **k: [g0, g0 + 1]
    f2 = lambda *x, **k: [[h0, 0], [0, h0]]
    how = V.choice("how", ["positional", "keywords", "class", "no Hessian"])
    d = V.choice("dimension word", ["d", "dim", "dimension"])
    if how == "positional":
        f = F(f0, f1, f2, **{d: 2})
    elif how == "keywords":
        f = F(value=f0, gradient=f1, Hessian=f2, **{d: 2})
    elif how == "no Hessian":
        f = F(f0, f1, **{d: 2})
    else:
        class My(F):
            def value(self, *x):
                return f0(*x)
            def gradient(self, *x):
                return f1(*x)
            def Hessian(self, *x):
                return f2(*x)
        f = My(**{d: 2})
    p = V.real("p")
    V.eq(f([p, 1]), a, "value")
    V.true(seen[-1][0] == ([p, 1],) and seen[-1][1] == {} if not V.proof else seen[-1][0][0][0] is p and len(seen[-1][0]) == 1, "the point is handed through")
    V.eq(f.f([p, 1]), a, "value (f)")
    V.eq(f.g([p, 1])[0], g0, "gradient")
    if how != "no Hessian":
        V.eq(f.G([p, 1])[0][0], h0, "Hessian")
    V.true(f.dimension == 2, "dimension")
    V.true(not f.is_symbolic, "not symbolic")
    if how in ("positional", "no Hessian", "keywords"):
        V.true(bool(f.is_linear) == (how == "no Hessian"), "linear when there is no Hessian")
    for m in (f.coefficients, f.simplify, f.to_latex, lambda: f.subs([0, 0])):
        _, e = V.attempt(m, TypeError)
        V.true(e is not None, "symbolic operations are refused")

EXPRS = ["sin(x)*y", "exp(x - y) + x**2", "sqrt(x**2 + y**2 + 1)", "x/(1 + y**2)", "cos(x)**2 + sin(x)**2 + y", "log(2 + x**2)*y - 3", "x**3*y**2 - tanh(y)",
         "x*exp(-y)", "(x + y)**3", "(x + 1)*(y - 2)", "2*(x + 3*y) - pi", "sqrt(2)*x + sqrt(2)*y", "x*y + y", "1/(2 + sin(x)) + y", "x*0 + 4", "pi*x + E*y - 2*x"]

@case("functions that are not polynomials", proof=False, reps=60)
def transcendental(V):
    np = V.np
    s = V.choice("expression", EXPRS)
    X, Y = sy.symbols("x y")
    e = sy.sympify(s)
    order = V.choice("order", [("x", "y"), ("y", "x")])
    how = V.choice("given as", ["text", "expression"])
    F = V.lib("function").Function
    f = F(s, variables=list(order)) if how == "text" else F(e, variables=[sy.Symbol(v) for v in order])
    v = [sy.Symbol(k) for k in order]
    a, b = V.real("a", -2, 2), V.real("b", -2, 2)
    def check(f, e, note=""):
        at = dict(zip(v, (a, b)))
        ev = lambda q: float(sy.N(q.subs(at), 20))
        V.eq(float(f([a, b])), ev(e), "value" + note)
        V.eq(np.array(f.g([a, b]), dtype=float), [ev(e.diff(q)) for q in v], "gradient" + note)
        V.eq(np.array(f.G([a, b]), dtype=float), [[ev(e.diff(q, r)) for q in v] for r in v], "Hessian" + note)
    check(f, e)
    es = sy.simplify(e)
    poly = es.is_polynomial(X, Y)
    V.true(bool(f.is_linear) == (poly and all(sy.degree(es, q) <= 1 for q in v)), "linearity")
    d = f.coefficients()
    V.eq(float(sy.N(sum(k * c for k, c in d.items()).subs(dict(zip(v, (a, b)))))), float(sy.N(e.subs(dict(zip(v, (a, b)))))), "the coefficients reassemble the expression")
    if poly and sy.Poly(es, X, Y).total_degree() <= 1:
        for q in v:
            V.eq(float(f.linear_coefficients(normalize=True)[q]), float(es.diff(q)), "linear coefficients")
    f.simplify()
    check(f, e, " after simplification")
    w = V.rng.choice([0, 1, -2, 0.5])
    g = f.subs([w], [order[0]])
    check(g, sy.sympify(e.subs(v[0], w)), " after substitution")
    g = f.subs([v[1], v[0]], v)
    check(g, e.subs({v[0]: v[1], v[1]: v[0]}, simultaneous=True), " after swapping the variables")
    check(f, e, " of the original")
    f.subs([w], [order[1]], inplace=True)
    check(f, sy.sympify(e.subs(v[1], w)), " after substitution in place")
