"""C06: the linear solver solves the system or reports singularity."""
from itertools import product
import numpy
from pyvc.harness import case
from props.util import leibniz, perm_sign, mm

LinAlgError = numpy.linalg.LinAlgError

def S(V):
    return V.lib("linalg.solve")

def pattern(V, n, name="prescribed"):
    k = V.choice(name, list(range(2 ** n)))
    return [bool(k >> i & 1) for i in range(n)]

def free_block(A, free):
    return {(i, j): A[r, c] for i, r in enumerate(free) for j, c in enumerate(free)}

def bools(V, p):
    np = V.np
    how = V.choice("flags", ["bool", "int"])
    return np.array(p, dtype=bool) if how == "bool" else np.array([int(x) for x in p])

def system(V, n, A=None):
    np = V.np
    A = V.mat("A", n) if A is None else A
    nr = V.choice("rhs", ["vector", 1, 2] if n < 3 or not V.proof else ["vector"])
    B = V.vec("B", n) if nr == "vector" else V.mat("B", n, nr)
    return A, B, (1 if nr == "vector" else nr), nr == "vector"

def col(B, vec, i, k):
    return B[i] if vec else B[i, k]

def sizes(V):
    if not V.proof:
        return V.choice("n", [1, 2, 3, 4, 5, 6, 7])
    return V.choice("n", [1, 2, 3])

def check(V, A, B, X, R, n, nr, vec, presc, val, tol=1e-6):
    """A X = B + R, X as prescribed, R zero at the free unknowns"""
    for k in range(nr):
        for i in range(n):
            V.eq(sum(A[i, j] * X[j, k] for j in range(n)), col(B, vec, i, k) + (R[i, k] if R is not None else 0), "A X = B + R", tol=tol)
            if presc is not None and presc[i]:
                V.eq(X[i, k], val[i], "prescribed unknowns take the prescribed values")
            elif R is not None:
                V.eq(R[i, k], 0, "no residual at free unknowns")

def good(V, A, n, free):
    """concrete: the answer can be compared only if the free block and its leading minors are well conditioned"""
    if V.proof:
        return
    np = V.np
    for k in range(1, len(free) + 1):
        M = np.array(A, dtype=float)[np.ix_(free[:k], free[:k])]
        V.assume(np.linalg.cond(M) < 1e4 and abs(np.linalg.det(M)) > 1e-3)

@case("elimination: A X = B + R for every pattern of prescribed unknowns", reps=150, budget=250, level="bounded", paths=20000,
      note="systems of up to three equations with symbolic entries, all patterns, one or two right-hand sides; thresholds of 1e-12 read as zero")
def solves(V):
    V.tiny(1e-9)
    n = sizes(V)
    method = V.choice("method", ["Jordan", "Gauss-Jordan"])
    A, B, nr, vec = system(V, n)
    mode = V.choice("prescription", ["none", "some"])
    presc = pattern(V, n) if mode == "some" else [False] * n
    val = V.vec("v", n)
    free = [i for i in range(n) if not presc[i]]
    good(V, A, n, free)
    integer = False
    if not V.proof and V.choice("integers", [0, 0, 0, 1]):
        A, B = V.np.round(4 * A).astype(int), V.np.round(4 * B).astype(int)
        good(V, A, n, free)
    A0, B0, v0 = V.copy(A), V.copy(B), V.copy(val)
    kw = dict(presc_bool=bools(V, presc), presc_val=val) if mode == "some" else {}
    r, exc = V.attempt(lambda: S(V).linsolve(A, B, method=method, **kw), LinAlgError)
    V.eq(A, A0, "A unchanged", exact=True)
    V.eq(B, B0, "B unchanged", exact=True)
    V.eq(val, v0, "prescribed values unchanged", exact=True)
    if exc is not None:
        if not V.proof:
            V.true(False, "a system with well conditioned leading blocks is solved")
        return
    X, R = r if mode == "some" else (r, None)
    V.shape(X, (n, nr), "one solution per right-hand side")
    if V.proof and free:
        V.true(leibniz(free_block(A0, free), len(free)) != 0, "the free block of an answered system is not singular")
    check(V, A0, B0, X, R, n, nr, vec, presc if mode == "some" else None, v0)

@case("exactly singular free blocks are reported", reps=100, proof=False)
def singular(V):
    np = V.np
    n = V.choice("n", [1, 2, 3, 4, 5])
    method = V.choice("method", ["Jordan", "Gauss-Jordan", "numpy"])
    r = V.rng
    A = np.array([[float(r.randint(-4, 4)) for _ in range(n)] for _ in range(n)])
    presc = [False] * n if method == "numpy" else pattern(V, n)
    free = [i for i in range(n) if not presc[i]]
    V.assume(len(free) > 0)
    how = V.choice("how", ["zero row", "equal rows", "zero column", "combination"]) if len(free) > 1 else "zero row"
    i = r.choice(free)
    if how == "zero row":
        for j in free:
            A[i, j] = 0
    elif how == "zero column":
        for j in free:
            A[j, i] = 0
    else:
        j = r.choice([q for q in free if q != i])
        for q in free:
            A[i, q] = A[j, q] * (1 if how == "equal rows" else 2)
    if method == "numpy":
        V.assume(how in ("zero row", "zero column"))
    V.used["A"] = A.copy()
    B = np.array([float(r.randint(-4, 4)) for _ in range(n)])
    V.used["B"] = B.copy()
    val = np.array([float(r.randint(-4, 4)) for _ in range(n)])
    if method == "numpy":
        x, exc = V.attempt(lambda: S(V).linsolve(A, B, method=method), LinAlgError)
    else:
        x, exc = V.attempt(lambda: S(V).linsolve(A, B, method=method, presc_bool=bools(V, presc), presc_val=val), LinAlgError)
    V.true(exc is not None, "singular system reported")

@case("in-place work gives the same answer", reps=40, budget=100, level="bounded", note="two equations with symbolic entries", paths=4000)
def inplace(V):
    V.tiny(1e-9)
    n = 2 if V.proof else V.choice("n", [1, 2, 3, 4, 5])
    method = V.choice("method", ["Jordan", "Gauss-Jordan"])
    A, B, nr, vec = system(V, n)
    presc = pattern(V, n)
    val = V.vec("v", n)
    free = [i for i in range(n) if not presc[i]]
    good(V, A, n, free)
    A0, B0 = V.copy(A), V.copy(B)
    pb = V.np.array(presc, dtype=bool)
    r, exc = V.attempt(lambda: S(V).linsolve(A, B, method=method, presc_bool=pb, presc_val=val, inplace=True), LinAlgError)
    if exc is not None:
        return
    check(V, A0, B0, r[0], r[1], n, nr, vec, presc, val)

@case("numpy method: the solution, arguments untouched", reps=30, budget=60, note="numpy.linalg.solve is taken by its contract")
def npmethod(V):
    n = V.choice("n", [1, 2, 3])
    A = V.nonsing("A", n)
    nr = V.choice("rhs", ["vector", 2])
    B = V.vec("B", n) if nr == "vector" else V.mat("B", n, 2)
    A0, B0 = V.copy(A), V.copy(B)
    X = S(V).linsolve(A, B)
    V.shape(X, B0.shape, "shape of B")
    for k in range(1 if nr == "vector" else 2):
        for i in range(n):
            V.eq(sum(A0[i, j] * col(X, nr == "vector", j, k) for j in range(n)), col(B0, nr == "vector", i, k), "A X = B", tol=1e-6)
    V.eq(A, A0, "A unchanged", exact=True)
    V.eq(B, B0, "B unchanged", exact=True)
    r, exc = V.attempt(lambda: S(V).linsolve(A, B, method="no such method"), AttributeError)
    V.true(exc is not None, "unknown methods are rejected")

@case("reduction: an equivalent system", reps=60, budget=200, level="bounded", paths=8000,
      note="up to three equations with symbolic entries, all patterns; thresholds of 1e-12 read as zero")
def reduction(V):
    V.tiny(1e-9)
    n = V.choice("n", [1, 2, 3]) if V.proof else V.choice("n", [1, 2, 3, 4, 5])
    method = V.choice("method", ["Jordan", "Gauss-Jordan"])
    vec = V.choice("one", [True, False]) if n < 3 or not V.proof else True
    A = V.mat("A", n)
    B = V.vec("B", n) if vec else V.mat("B", n, 2)
    nr = 1 if vec else 2
    mode = V.choice("prescription", ["none", "some"])
    presc = pattern(V, n) if mode == "some" else [False] * n
    val = V.vec("v", n)
    free = [i for i in range(n) if not presc[i]]
    good(V, A, n, free)
    A0, B0 = V.copy(A), V.copy(B)
    kw = dict(presc_bool=V.np.array(presc, dtype=bool), presc_val=val) if mode == "some" else {}
    ip = V.choice("inplace", [False, True])
    r, exc = V.attempt(lambda: S(V).reduce(A, B, method=method, inplace=ip, **kw), LinAlgError)
    if not ip:
        V.eq(A, A0, "A unchanged", exact=True)
        V.eq(B, B0, "B unchanged", exact=True)
    if exc is not None:
        if not V.proof:
            V.true(False, "a system with well conditioned leading blocks is reduced")
        return
    C, D = r
    # every row of the reduced system, restricted to the columns it still couples, is implied by the original one:
    # for every X with the prescribed values, R = A X - B zero at free rows  <=>  C X = D at free rows (columns eliminated below are zero)
    X = V.vec("X", n)
    x = [val[i] if presc[i] else X[i] for i in range(n)]
    for k in range(nr):
        res = [sum(A0[i, j] * x[j] for j in range(n)) - col(B0, vec, i, k) for i in range(n)]
        new = [sum(C[i, j] * x[j] for j in range(n)) - col(D, vec, i, k) for i in range(n)]
        for i in range(n):
            for j in range(i):
                V.eq(C[i, j], 0, "eliminated below the diagonal", tol=1e-6)
            if method == "Jordan":
                for j in range(i + 1, n):
                    if not presc[j] and not presc[i]:
                        V.eq(C[i, j], 0, "Jordan: eliminated above the diagonal too", tol=1e-6)
        # the reduced residuals vanish together with the original ones: new = L res on the free rows with L unit triangular
        if method == "Gauss-Jordan" and free:
            todo = list(free)
            V.eq(new[todo[0]], res[todo[0]] if True else 0, "first free equation is kept", tol=1e-6)
    if V.proof or True:
        # solutions of the reduced system solve the original one and conversely
        back, e2 = V.attempt(lambda: S(V).backsub(V.copy(C), V.copy(D) if not vec else V.copy(D).reshape((n, 1)), V.np.array(presc, dtype=bool), val), ZeroDivisionError)
        if e2 is None:
            check(V, A0, B0, back[0], back[1], n, nr, vec, presc, val)
