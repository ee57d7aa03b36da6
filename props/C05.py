"""C05: closed-form determinants, inverses and generalised inverses are exact."""
from pyvc.harness import case
from props.util import leibniz, I, mm, maybe_int

def U(V):
    return V.lib("linalg.utils")

def layouts(V, A):
    """the same matrix as a plain array, a transposed view or a non-contiguous slice, and with integer dtype"""
    if V.proof:
        return A
    np = V.np
    A = maybe_int(V, A)
    k = V.rng.randrange(3)
    if k == 1:
        A = np.asfortranarray(A)
    elif k == 2:
        B = np.zeros(A.shape[:-1] + (2 * A.shape[-1],), dtype=A.dtype)
        B[..., ::2] = A
        A = B[..., ::2]
    return A

@case("det2x2 and det3x3: Leibniz formula", reps=40)
def det(V):
    n = V.choice("n", [2, 3])
    A = layouts(V, V.mat("A", n))
    old = V.copy(A)
    f = U(V).det2x2 if n == 2 else U(V).det3x3
    V.eq(f(A), leibniz(A, n), "determinant formula")
    V.unchanged(A, old, "argument untouched")

@case("det2x2 and det3x3: stacks of matrices")
def detbulk(V):
    n = V.choice("n", [2, 3])
    N = V.dim("N", 1, 4)
    A = V.arr("A", (N, n, n))
    f = U(V).det2x2 if n == 2 else U(V).det3x3
    V.alleq(f(A), (N,), lambda i: leibniz(A[i], n), "determinant of every item")

@case("inv2x2, inv2x2u, inv3x3, inv3x3u: two-sided inverse", reps=60)
def inv(V):
    n = V.choice("n", [2, 3])
    u = V.choice("form", [0, 1])
    A = layouts(V, V.nonsing("A", n))
    if not V.proof:
        V.assume(abs(V.np.linalg.det(A)) > 1e-3)
    old = V.copy(A)
    f = [[U(V).inv2x2, U(V).inv2x2u], [U(V).inv3x3, U(V).inv3x3u]][n - 2][u]
    R = f(A)
    V.shape(R, (n, n), "shape of the inverse")
    V.eq(mm(A, R, n), I(n), "A inv(A) = I", tol=1e-6)
    V.eq(mm(R, A, n), I(n), "inv(A) A = I", tol=1e-6)
    V.unchanged(A, old, "argument untouched")

@case("inverses of stacks: inv3x3_bulk, inv3x3_bulk2, inv2x2u, inv3x3u", reps=60)
def invbulk(V):
    N = V.dim("N", 1, 5)
    k = V.choice("form", [0, 1, 2, 3])
    n = 2 if k == 2 else 3
    A = V.nonsing("A", n, lead=(N,))
    f = [U(V).inv3x3_bulk, U(V).inv3x3_bulk2, U(V).inv2x2u, U(V).inv3x3u][k]
    old = V.copy(A)
    R = f(A)
    V.shape(R, (N, n, n), "shape of the inverses")
    def each(i):
        V.eq(mm(A[i], R[i], n), I(n), "A[i] inv(A)[i] = I", tol=1e-6)
        V.eq(mm(R[i], A[i], n), I(n), "inv(A)[i] A[i] = I", tol=1e-6)
    V.forall((N,), each)
    V.unchanged(A, old, "argument untouched")

@case("adj3x3: A adj(A) = det(A) I", reps=40)
def adj(V):
    A = layouts(V, V.mat("A", 3))
    R = U(V).adj3x3(A)
    d = leibniz(A, 3)
    V.eq(mm(A, R, 3), [[d if i == j else 0 for j in range(3)] for i in range(3)], "A adj(A) = det I")
    V.eq(mm(R, A, 3), [[d if i == j else 0 for j in range(3)] for i in range(3)], "adj(A) A = det I")

@case("adj3x3: stacks of matrices")
def adjbulk(V):
    N = V.dim("N", 1, 4)
    A = V.arr("A", (N, 3, 3))
    R = U(V).adj3x3(A)
    V.shape(R, (N, 3, 3), "shape")
    def each(i):
        d = leibniz(A[i], 3)
        V.eq(mm(A[i], R[i], 3), [[d if p == q else 0 for q in range(3)] for p in range(3)], "A[i] adj(A)[i] = det I")
    V.forall((N,), each)

@case("inv: numpy inverse under its contract", reps=20)
def npinv(V):
    n = V.choice("n", [1, 2, 3])
    A = V.nonsing("A", n)
    R = U(V).inv(A)
    V.eq(mm(A, R, n), I(n), "A inv(A) = I", tol=1e-6)

@case("inv_sym_3x3: the symbolic inverse", reps=6)
def invsym(V):
    """run with generic symbols: the result is an identity of rational functions, checked by sympy"""
    import sympy as sy
    kind = V.choice("kind", ["general", "symmetric", "zeros", "numbers", "clash"])
    a = sy.symbols("a0:9")
    if kind == "general":
        M = sy.Matrix(3, 3, a)
    elif kind == "symmetric":
        M = sy.Matrix([[a[0], a[1], a[2]], [a[1], a[3], a[4]], [a[2], a[4], a[5]]])
    elif kind == "zeros":
        M = sy.Matrix([[a[0], 0, a[2]], [0, a[3], 0], [a[6], 0, a[5]]])
    elif kind == "numbers":
        M = sy.Matrix([[2, 1, 0], [-1, 3, 5], [0, 1, 1]])
    else:
        M = sy.Matrix([[a[4], a[1], a[0]], [a[3], a[2], a[8]], [a[5], a[6], a[7]]])
    R = U(V).inv_sym_3x3(M)
    V.true(sy.simplify(M * R - sy.eye(3)).is_zero_matrix is True, "M inv(M) = I")
    d, ad = U(V).inv_sym_3x3(M, as_adj_det=True)
    V.true(sy.expand(d - M.det()) == 0, "determinant")
    V.true(sy.simplify(M * ad - d * sy.eye(3)).is_zero_matrix is True, "M adj(M) = det(M) I")

def _rank(V, m, n):
    """contract of numpy.linalg.matrix_rank: the largest order of a nonvanishing minor"""
    if not V.proof:
        return
    full = V.choice("full rank", [True, False])
    def h(a):
        from pyvc.shim_np import linalg, asobj
        a = asobj(a)
        G = (a.T @ a) if m >= n else (a @ a.T)
        sq = a if m == n else G
        if full:
            V.c.declare_nonzero(linalg.det(sq))
            if m == n:
                V.c.declare_nonzero(linalg.det(G))
            return min(m, n)
        V.c.assume(linalg.det(sq) == 0)
        r = V.c.fresh("rank", True)
        V.c.assume(r >= 0)
        V.c.assume(r < min(m, n))
        return r
    V.hook(matrix_rank=h)
    return full

SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (3, 1)]

@case("generalized_inverse: one-sided inverse, projector, rejection of rank-deficient input", level="bounded",
      note="all entries symbolic; shapes up to 3x3", reps=60)
def geninv(V):
    m, n = V.choice("shape", SHAPES + ([] if V.proof else [(4, 2), (2, 5), (6, 3), (4, 4), (3, 7)]))
    L = V.lib("linalg.exceptions")
    full = _rank(V, m, n)
    if not V.proof:
        full = V.rng.random() < 0.7
        V.used["full"] = full
        A = V.arr("A", (m, n))
        if full:
            while V.np.linalg.cond(A) > 100:
                A = V.np.array([[V.rng.gauss(0, 1) for _ in range(n)] for _ in range(m)])
        else:
            A = V.np.round(A)
            if min(m, n) == 1:
                A[...] = 0
            elif m >= n:
                A[:, -1] = 2 * A[:, 0]
            else:
                A[-1] = -A[0]
        V.used["A"] = A.copy()
    else:
        A = V.arr("A", (m, n))
    old = V.copy(A)
    G, e = V.attempt(lambda: U(V).generalized_inverse(A), L.LinalgError)
    V.unchanged(A, old, "argument untouched")
    if not full:
        V.true(e is not None, "rank-deficient input is rejected")
        return
    V.true(e is None, "full-rank input is accepted")
    V.shape(G, (n, m), "shape")
    if m >= n:
        V.eq(V.np.asarray(G @ A), I(n), "left inverse", tol=1e-6)
    if m <= n:
        V.eq(V.np.asarray(A @ G), I(m), "right inverse", tol=1e-6)
    P = A @ G
    if m * n <= 6 or not V.proof:
        V.eq(P, P.T, "A G is a symmetric projector", tol=1e-6)

@case("generalized_left_inverse and generalized_right_inverse", level="bounded", note="all entries symbolic; shapes up to 3x3", reps=40)
def leftright(V):
    m, n = V.choice("shape", SHAPES + ([] if V.proof else [(4, 2), (2, 5), (6, 3), (3, 7)]))
    A = V.arr("A", (m, n))
    if not V.proof:
        V.assume(V.np.linalg.cond(A) < 100)
    if m >= n:
        if V.proof:
            V.c.declare_nonzero(V.np.linalg.det(A.T @ A))
        G = U(V).generalized_left_inverse(A)
        V.eq(G @ A, I(n), "left inverse", tol=1e-6)
        V.eq((A @ G) @ A, A, "A G A = A", tol=1e-6) if m * n <= 6 or not V.proof else None
    if m <= n:
        if V.proof:
            V.c.declare_nonzero(V.np.linalg.det(A @ A.T))
        G = U(V).generalized_right_inverse(A)
        V.eq(A @ G, I(m), "right inverse", tol=1e-6)

@case("generalized_inverse: only matrices are accepted", reps=10)
def ginput(V):
    k = V.choice("ndim", [1, 3])
    A = V.arr("A", (2,) * k)
    L = V.lib("linalg.exceptions")
    r, e = V.attempt(lambda: U(V).generalized_inverse(A), L.LinalgOperationInputError)
    V.true(e is not None, "a non-matrix is rejected")
