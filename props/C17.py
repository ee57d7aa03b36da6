"""C17: Gauss rules are tensor products exact for the promised polynomial degree."""
from itertools import product
from pyvc.harness import case

def N(V):
    return V.lib("numint")

def rules(V):
    """numpy's one-dimensional rules by contract: for every order, some points and weights (the same for the same order)"""
    if V.proof:
        from pyvc.arr import SymArr
        from pyvc.sym import lift, lower
        from pyvc.poly import patom, mk_atom
        def rule(deg):
            d = lift(deg)
            def f(nm):
                return SymArr.lam(lambda ix: lower(patom(mk_atom("uf", (nm, (d,) + tuple(ix)), False))), (deg,))
            return f("legpoint"), f("legweight")
        V.hook(leggauss=rule)
        return rule
    return V.np.polynomial.legendre.leggauss

@case("one direction: points and weights of the Gauss-Legendre rule", reps=25, note="any number of points; numpy's leggauss by contract")
def one(V):
    rule = rules(V)
    n = V.dim("n", 1, 24)
    form = V.choice("form", ["gauss_points", "gauss_points_1d"])
    r = N(V).gauss_points(n) if form == "gauss_points" else N(V).gauss_points_1d(n)
    x, w = rule(n)
    V.shape(r, (2, n), "shape")
    V.forall((n,), lambda i: (V.eq(r[0, i], x[i], "points"), V.eq(r[1, i], w[i], "weights"))[0])

@case("two directions: the product rule", reps=25, budget=120, note="any numbers of points")
def two(V):
    rule = rules(V)
    n, m = V.dim("n", 1, 9), V.dim("m", 1, 9)
    form = V.choice("form", ["gauss_points", "gauss_points_2d"])
    pos, wt = N(V).gauss_points(n, m) if form == "gauss_points" else N(V).gauss_points_2d((n, m))
    (x, w), (y, v) = rule(n), rule(m)
    V.shape(pos, (n * m, 2), "positions")
    V.shape(wt, (n * m,), "weights")
    if V.proof:
        def at(i, j):
            V.eq(pos[i * m + j, 0], x[i], "first coordinate")
            V.eq(pos[i * m + j, 1], y[j], "second coordinate")
            V.eq(wt[i * m + j], w[i] * v[j], "product weight")
        V.forall((n, m), at)
    else:
        once(V, pos, wt, [(x, w), (y, v)])

@case("three directions: the product rule", reps=25, budget=120, note="any numbers of points")
def three(V):
    rule = rules(V)
    n, m, l = V.dim("n", 1, 6), V.dim("m", 1, 6), V.dim("l", 1, 6)
    form = V.choice("form", ["gauss_points", "gauss_points_3d"])
    pos, wt = N(V).gauss_points(n, m, l) if form == "gauss_points" else N(V).gauss_points_3d((n, m, l))
    (x, w), (y, v), (z, u) = rule(n), rule(m), rule(l)
    V.shape(pos, (n * m * l, 3), "positions")
    V.shape(wt, (n * m * l,), "weights")
    if V.proof:
        def at(i, j, k):
            g = (i * m + j) * l + k
            V.eq(pos[g, 0], x[i], "first coordinate")
            V.eq(pos[g, 1], y[j], "second coordinate")
            V.eq(pos[g, 2], z[k], "third coordinate")
            V.eq(wt[g], w[i] * v[j] * u[k], "product weight")
        V.forall((n, m, l), at)
    else:
        once(V, pos, wt, [(x, w), (y, v), (z, u)])

def once(V, pos, wt, rules_):
    """every combination exactly once, with the product weight"""
    np = V.np
    seen = {}
    for ix in product(*[range(len(x)) for x, _ in rules_]):
        p = np.array([rules_[d][0][i] for d, i in enumerate(ix)])
        hit = [g for g in range(len(pos)) if np.allclose(pos[g], p, atol=1e-12)]
        V.true(len(hit) == 1, "every combination of one-dimensional points occurs exactly once")
        V.eq(wt[hit[0]], np.prod([rules_[d][1][i] for d, i in enumerate(ix)]), "with the product weight")

@case("exactness: polynomials of degree 2n-1 in each direction", proof=False, reps=60)
def exact(V):
    np = V.np
    d = V.choice("directions", [1, 2, 3])
    n = [V.choice("n%d" % i, list(range(1, 13 if d == 1 else 7 if d == 2 else 5))) for i in range(d)]
    if d == 1:
        q = N(V).gauss_points(n[0])
        pos, wt = q[0][:, None], q[1]
    else:
        pos, wt = N(V).gauss_points(*n)
    V.true(bool((wt > 0).all()), "weights are positive")
    V.true(bool((abs(pos) < 1).all()), "points lie inside the cell")
    V.eq(wt.sum(), 2.0 ** d, "weights sum to the volume of the cell")
    for _ in range(4):
        e = [V.rng.randrange(2 * k) for k in n]
        got = sum(wt[g] * np.prod([pos[g, i] ** e[i] for i in range(d)]) for g in range(len(wt)))
        V.eq(got, float(np.prod([2 / (k + 1) if k % 2 == 0 else 0.0 for k in e])), "monomial %s integrated exactly" % e, tol=1e-11)

@case("more than three directions are rejected", reps=2)
def more(V):
    r, e = V.attempt(lambda: N(V).gauss_points(2, 2, 2, 2), NotImplementedError)
    V.true(e is not None, "rejected")
