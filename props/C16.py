"""C16: array layout utilities place every entry where their definition says."""
from pyvc.harness import case
from props.util import perm_sign, leibniz
from itertools import permutations, product

def M(V):
    return V.lib("utils")

def U(V):
    return V.lib("linalg.utils")

def lay(V, a):
    """memory layout and dtype variants of the same content (compiled code specialises on them)"""
    if V.proof:
        return a
    np = V.np
    if V.rng.random() < 0.3:
        a = np.round(a).astype(int)
    k = V.rng.randrange(3)
    if k == 1:
        a = np.asfortranarray(a)
    elif k == 2 and a.ndim:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[..., ::2] = a
        a = b[..., ::2]
    return a

@case("flatten2d: row and column major", reps=40, budget=90)
def flatten(V):
    n, m = V.dim("n"), V.dim("m")
    a = lay(V, V.arr("a", (n, m)))
    order = V.choice("order", ["C", "F"])
    old = V.copy(a)
    r = M(V).flatten2d(a, order) if order == "F" else V.choice("default", [lambda: M(V).flatten2d(a), lambda: M(V).flatten2d(a, "C")])()
    V.shape(r, (n * m,), "length n*m")
    V.forall((n, m), lambda i, j: V.eq(r[i * m + j] if order == "C" else r[j * n + i], a[i, j], "entry (i,j) at its place"))
    V.unchanged(a, old, "argument untouched")

@case("repeat: N copies of a matrix", reps=30)
def repeat(V):
    n, m, N = V.dim("n"), V.dim("m"), V.dim("N")
    a = lay(V, V.arr("a", (n, m)))
    old = V.copy(a)
    V.alleq(M(V).repeat(a, N), (N, n, m), lambda k, i, j: a[i, j], "copy k, entry (i,j)")
    V.unchanged(a, old, "argument untouched")

@case("repeat1d: N copies of a vector", reps=30)
def repeat1(V):
    n, N = V.dim("n"), V.dim("N")
    a = lay(V, V.arr("a", (n,)))
    r = M(V).repeat1d(a, N)
    V.shape(r, (N * n,), "length N*n")
    V.forall((N, n), lambda k, i: V.eq(r[k * n + i], a[i], "copy k, entry i"))

@case("tile: copies with increments", reps=30)
def tile(V):
    n, m, N = V.dim("n"), V.dim("m"), V.dim("N")
    a, da = V.arr("a", (n, m)), V.arr("da", (n, m))
    olda, oldd = V.copy(a), V.copy(da)
    V.alleq(M(V).tile(a, da, N), (N, n, m), lambda k, i, j: a[i, j] + k * da[i, j], "a + k da")
    V.unchanged(a, olda, "argument untouched")
    V.unchanged(da, oldd, "argument untouched")

@case("tile1d: copies with increments", reps=30)
def tile1(V):
    n, N = V.dim("n"), V.dim("N")
    a, da = V.arr("a", (n,)), V.arr("da", (n,))
    r = M(V).tile1d(a, da, N)
    V.shape(r, (N * n,), "length N*n")
    V.forall((N, n), lambda k, i: V.eq(r[k * n + i], a[i] + k * da[i], "a + k da"))

@case("repeat_diagonal_2d: block diagonal", reps=30)
def diag(V):
    n, m, N = V.dim("n"), V.dim("m"), V.dim("N")
    a = lay(V, V.arr("a", (n, m)))
    r = M(V).repeat_diagonal_2d(a, N)
    V.shape(r, (n * N, m * N), "shape")
    def each(p, i, q, j):
        V.eq(r[p * n + i, q * m + j], a[i, j] if p == q else 0, "block (p,q), entry (i,j)")
    V.forall((N, n, N, m), each)

@case("to_range_1d: affine map of the interval ends", reps=40)
def torange(V):
    n = V.dim("n", 0, 6)
    v = lay(V, V.arr("v", (n,)))
    s0, s1, t0, t1 = V.real("s0"), V.real("s1"), V.real("t0"), V.real("t1")
    V.assume(s0 != s1)
    if not V.proof:
        V.assume(abs(s1 - s0) > 1e-2)
    old = V.copy(v)
    kind = V.choice("target", ["given", "default"])
    if kind == "given":
        r = M(V).to_range_1d(v, source=[s0, s1], target=[t0, t1])
    else:
        t0, t1 = -1, 1
        r = M(V).to_range_1d(v, source=[s0, s1])
    V.shape(r, (n,), "shape")
    V.forall((n,), lambda i: V.eq((r[i] - t0) * (s1 - s0), (v[i] - s0) * (t1 - t0), "(r-t0)(s1-s0) = (v-s0)(t1-t0)"))
    V.unchanged(v, old, "argument untouched")

@case("bin_centers: midpoints", reps=30)
def bins(V):
    n = V.dim("n", 1, 6)
    e = lay(V, V.arr("e", (n,)))
    r = V.lib("hist").bin_centers(e)
    V.shape(r, (n - 1,), "one centre per bin")
    V.forall((n - 1,), lambda i: V.eq(2 * r[i], e[i] + e[i + 1], "midpoint of the bin"))

@case("histogram: counts with centres or edges", proof=False, reps=30)
def hist(V):
    np = V.np
    d = V.arr("d", (V.dim("n", 1, 30),))
    k = V.choice("bins", [1, 3, 7, [-10, -1, 0, 2, 9], np.array([-10.0, 0.5, 10.0])])
    h, c = V.lib("hist").histogram(d, k)
    h2, e = V.lib("hist").histogram(d, k, return_edges=True)
    rh, re = np.histogram(d, k)
    V.eq(h, rh, "counts", exact=True)
    V.eq(h2, rh, "counts with edges", exact=True)
    V.eq(e, re, "edges")
    V.eq(c, (np.asarray(re)[:-1] + np.asarray(re)[1:]) / 2, "centres")

@case("clip1d: in place clipping", reps=40)
def clip(V):
    n = V.dim("n", 0, 7)
    a = V.arr("a", (n,))
    lo, hi = V.real("lo"), V.real("hi")
    V.assume(lo <= hi)
    old = V.copy(a)
    r = M(V).clip1d(a, lo, hi)
    V.shape(r, (n,), "shape")
    def each(i):
        v = old[i]
        w = lo if v < lo else hi if v > hi else v
        V.eq(r[i], w, "value moved to the nearest end")
        V.eq(a[i], w, "done in place")
    V.forall((n,), each)

@case("minmax", reps=30, level="bounded", note="length up to 4, values symbolic")
def minmax(V):
    n = V.choice("n", [1, 2, 3, 4] if V.proof else [1, 2, 3, 4, 9])
    a = V.arr("a", (n,))
    lo, hi = M(V).minmax(a)
    for i in range(n):
        V.true(lo <= a[i], "lower bound")
        V.true(hi >= a[i], "upper bound")
    hl = False
    hh = False
    for i in range(n):
        if lo == a[i]:
            hl = True
        if hi == a[i]:
            hh = True
    V.true(hl, "minimum is attained")
    V.true(hh, "maximum is attained")

@case("bool_to_float", reps=30, level="bounded", note="shapes up to 2x2, all truth patterns")
def b2f(V):
    shape = V.choice("shape", [(1,), (3,), (2, 2), (0,)])
    bits = [V.choice("b%d" % i, [False, True]) for i in range(int(V.np.prod(shape)) if shape != (0,) else 0)]
    import numpy
    a = numpy.array(bits, dtype=bool).reshape(shape)
    t, f = V.real("t"), V.real("f")
    mode = V.choice("args", ["both", "default", "list"])
    if mode == "list" and shape != (0,):
        r = M(V).bool_to_float(a.tolist(), t, f)
    elif mode == "default":
        r = M(V).bool_to_float(a)
        t, f = 1, 0
    else:
        r = M(V).bool_to_float(a, true=t, false=f)
    V.shape(r, shape, "shape")
    for ix in numpy.ndindex(*shape):
        V.eq(r[ix], t if a[ix] else f, "value chosen by the flag")

@case("atleastnd, atleast1d..4d, matrixform: padded shapes", reps=60)
def pad(V):
    d = V.choice("ndim", [0, 1, 2, 3])
    dims = [V.dim("n%d" % i, 1, 3) for i in range(d)]
    a = V.arr("a", tuple(dims)) if d else V.real("x")
    what = V.choice("call", ["nd1", "nd2", "nd3", "nd4", "2", "3", "4", "1", "matrix"])
    front, back = V.choice("where", [(None, None), (True, False), (False, True), (True, True), (False, False)])
    kw = {} if front is None else {"front": front, "back": back}
    m = M(V)
    old = V.copy(a) if d else a
    if what == "1":
        r, n = m.atleast1d(a), 1
        kw = {}
        fr = True
    elif what == "matrix":
        if d > 2:
            r, e = V.attempt(lambda: m.matrixform(a), AssertionError)
            V.true(e is not None, "more than two dimensions are rejected")
            return
        r = m.matrixform(a)
        if d == 0:
            V.eq(r[0, 0], a, "scalar")
            V.shape(r, (1, 1), "shape")
        elif d == 1:
            V.alleq(r, (dims[0], 1), lambda i, j: a[i], "a vector becomes a column")
        else:
            V.alleq(r, dims, lambda i, j: a[i, j], "a matrix is kept")
        return
    else:
        n = int(what[-1])
        r = m.atleastnd(a, n, **kw) if what.startswith("nd") else getattr(m, "atleast%sd" % n)(a, **kw)
    fr = front is None or (front and not back)
    shp = list(dims) if d else [1]
    k = max(0, n - len(shp))
    V.shape(r, tuple([1] * k + shp if fr else shp + [1] * k), "padded shape")
    if not d:
        V.eq(r[(0,) * len(r.shape)], a, "scalar value")
        return
    V.forall(tuple(dims), lambda *ix: V.eq(r[((0,) * k + ix) if fr else (ix + (0,) * k)], old[ix if len(ix) > 1 else ix[0]], "entries keep their order"))

@case("linspace: points of the straight line, ends included", reps=40)
def linspace(V):
    N, d = V.dim("N", 2, 7), V.dim("d", 1, 3)
    p, q = V.arr("p", (d,)), V.arr("q", (d,))
    if not V.proof and V.rng.random() < 0.2:
        q[...] = p
    op, oq = V.copy(p), V.copy(q)
    r = U(V).linspace(p, q, N)
    V.shape(r, (N, d), "shape")
    V.forall((N, d), lambda i, j: V.eq((N - 1) * r[i, j], (N - 1) * p[j] + i * (q[j] - p[j]), "point i of the line"))
    V.unchanged(p, op, "argument untouched")
    V.unchanged(q, oq, "argument untouched")

@case("linspace1d: equidistant numbers, ends included", reps=30)
def linspace1(V):
    N = V.dim("N", 2, 9)
    a, b = V.real("a"), V.real("b")
    r = U(V).linspace1d(a, b, N)
    V.shape(r, (N,), "shape")
    V.forall((N,), lambda i: V.eq((N - 1) * r[i], (N - 1) * a + i * (b - a), "number i"))

@case("linspace with numbers", reps=20)
def linspace2(V):
    N = V.dim("N", 2, 9)
    a, b = V.real("a"), V.real("b")
    r = U(V).linspace(a, b, N)
    V.shape(r, (N,), "shape")
    V.forall((N,), lambda i: V.eq((N - 1) * r[i], (N - 1) * a + i * (b - a), "number i"))

@case("vpath: points of the straight path, ends included", reps=40)
def vpath(V):
    N, d = V.dim("N", 2, 7), V.dim("d", 1, 3)
    p, q = V.arr("p", (d,)), V.arr("q", (d,))
    if not V.proof and V.rng.random() < 0.2:
        q[...] = p
    r = U(V).vpath(p, q, N)
    V.shape(r, (N, d), "shape")
    V.forall((N, d), lambda i, j: V.eq((N - 1) * r[i, j], (N - 1) * p[j] + i * (q[j] - p[j]), "point i of the path"))

@case("norm, norm2d, normalize, normalize2d", reps=40)
def norms(V):
    n, d = V.dim("n", 1, 5), V.dim("d", 1, 4)
    a = V.arr("a", (n, d))
    def sq(i):
        return V.sum(d, lambda k: a[i, k] * a[i, k])
    if not V.proof:
        V.assume(all(sq(i) > 1e-6 for i in range(n)))
    old = V.copy(a)
    r = U(V).norm2d(a)
    V.shape(r, (n,), "one norm per row")
    def each(i):
        V.eq(r[i] * r[i], sq(i), "norm squared is the sum of squares")
        V.true(r[i] >= 0, "norm is not negative")
    V.forall((n,), each)
    s = U(V).normalize2d(a)
    V.shape(s, (n, d), "shape")
    V.forall((n, d), lambda i, j: V.eq(s[i, j] * r[i], a[i, j], "row divided by its norm"))
    v = U(V).normalize(a[0])
    nv = U(V).norm(a[0])
    V.eq(nv, r[0], "norm of a single vector")
    V.forall((d,), lambda j: V.eq(v[j] * nv, a[0, j], "vector divided by its norm"))
    V.unchanged(a, old, "argument untouched")

@case("ATB, ATBA, ATBAw, matmul, matmulw", reps=30)
def products(V):
    n, m, k = V.dim("n", 1, 4), V.dim("m", 1, 4), V.dim("k", 1, 4)
    A, B, C = V.arr("A", (n, m)), V.arr("B", (n, k)), V.arr("C", (n, n))
    w = V.real("w")
    u = U(V)
    V.alleq(u.ATB(A, B), (m, k), lambda i, j: V.sum(n, lambda p: A[p, i] * B[p, j]), "A^T B")
    def q(i, j):
        return V.sum(n, lambda p: V.sum(n, lambda r: A[p, i] * C[p, r] * A[r, j]))
    V.alleq(u.ATBA(A, C), (m, m), q, "A^T B A")
    V.alleq(u.ATBAw(A, C, w), (m, m), lambda i, j: w * q(i, j), "w A^T B A")
    V.alleq(u.matmul(C, A), (n, m), lambda i, j: V.sum(n, lambda p: C[i, p] * A[p, j]), "A B")
    V.alleq(u.matmulw(C, A, w), (n, m), lambda i, j: w * V.sum(n, lambda p: C[i, p] * A[p, j]), "w A B")

@case("permutation_tensor: sign of every permutation, zero elsewhere", reps=3)
def permt(V):
    d = V.choice("dim", [1, 2, 3, 4])
    t = U(V).permutation_tensor(d) if d != 3 else V.choice("default", [lambda: U(V).permutation_tensor(), lambda: U(V).permutation_tensor(3)])()
    V.shape(t, (d,) * d, "shape")
    for ix in product(range(d), repeat=d):
        V.eq(t[ix], perm_sign(ix) if sorted(ix) == list(range(d)) else 0, "Levi-Civita symbol")

@case("unit_basis_vector", proof=True, level="bounded", note="length up to 4; value symbolic", reps=20)
def unit(V):
    n = V.choice("n", [1, 2, 3, 4])
    k = V.choice("k", list(range(n)))
    v = V.real("v")
    r = U(V).unit_basis_vector(n, k, v)
    V.eq(r, [v if i == k else 0 for i in range(n)], "value at the index, zero elsewhere")
    V.eq(U(V).unit_basis_vector(n), [1 if i == 0 else 0 for i in range(n)], "defaults")

@case("indices_of_equal_rows: exactly the pairs of equal rows", level="bounded", note="up to 3x2 rows of two symbolic reals", reps=60, budget=90)
def rows(V):
    n, m = V.choice("shape", [(1, 1), (2, 1), (1, 2), (2, 2)]) if V.proof else (V.dim("n", 0, 5), V.dim("m", 0, 5))
    d = 1 if V.proof and n * m > 2 else 2
    x, y = V.arr("x", (n, d)), V.arr("y", (m, d))
    if not V.proof:
        np = V.np
        kind = V.rng.choice(["float", "int", "mixed", "dup"])
        x = np.array([[V.rng.randint(0, 1) for _ in range(d)] for _ in range(n)], dtype=float).reshape(n, d)
        y = np.array([[V.rng.randint(0, 1) for _ in range(d)] for _ in range(m)], dtype=float).reshape(m, d)
        if kind == "int":
            x, y = x.astype(int), y.astype(int)
        elif kind == "mixed":
            x, y = x.astype(int), y + 0.25 * (np.arange(m) % 2)[:, None]
        V.used["x"], V.used["y"] = x.copy(), y.copy()
    I, J = M(V).indices_of_equal_rows(x, y)
    pairs = [(int(i), int(j)) for i, j in zip(I, J)]
    V.true(len(set(pairs)) == len(pairs), "no pair twice")
    for i in range(n):
        for j in range(m):
            if V.proof:
                eqr = True
                s = sum(abs(x[i, k] - y[j, k]) for k in range(d))
                from fractions import Fraction
                V.true((s <= Fraction("1e-12")) if (i, j) in pairs else (s > Fraction("1e-12")), "listed exactly if the rows agree within the tolerance")
            else:
                V.true(((i, j) in pairs) == bool((x[i] == y[j]).all()), "listed exactly if the rows agree")

@case("find1d and find2d: positions in a list of distinct values", level="bounded", note="up to two values looked up in up to three; values symbolic", reps=40)
def find(V):
    n, m = V.choice("sizes", [(1, 1), (1, 2), (2, 2), (2, 3)]) if V.proof else (V.dim("n", 1, 5), V.dim("m", 1, 7))
    if V.proof:
        space = V.arr("space", (m,))
        for i in range(m):
            for j in range(i):
                V.assume(space[i] != space[j])
    else:
        space = V.np.array(V.rng.sample(range(-20, 20), m))
        if V.rng.random() < 0.5:
            space = space + 0.5
        V.used["space"] = space
    pos = [V.choice("p%d" % i, list(range(m))) for i in range(n)] if V.proof else [V.rng.randrange(m) for _ in range(n)]
    V.np
    two = V.choice("two", [False, True])
    import numpy
    if V.proof:
        from pyvc.shim_np import asobj
        arr = asobj([[space[p] for p in pos]] if two else [space[p] for p in pos])
    else:
        arr = space[numpy.array(pos)]
        arr = numpy.array([arr, arr[::-1]]) if two else arr
    r = M(V).find2d(arr, space) if two else M(V).find1d(arr, space)
    V.shape(r, arr.shape, "shape of the query")
    if two:
        V.eq([int(x) for x in r[0]], pos, "position of the value")
        if not V.proof:
            V.eq([int(x) for x in r[1]], pos[::-1], "position of the value")
    else:
        V.eq([int(x) for x in r], pos, "position of the value")
