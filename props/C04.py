"""C04: bulk transformations equal the item-by-item transformation."""
from pyvc.harness import case

def T(V):
    return V.lib("linalg.tr")

def U(V):
    return V.lib("linalg.utils")

def lay(V, a):
    """Fortran-ordered and non-contiguous variants in the compiled run"""
    if V.proof:
        return a
    np = V.np
    k = V.rng.randrange(3)
    if k == 1:
        a = np.asfortranarray(a)
    elif k == 2:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[..., ::2] = a
        a = b[..., ::2]
    return a

def q2(V, Q, a, d, p, q):
    return V.sum(d, lambda k: V.sum(d, lambda m: Q(p, k) * a(k, m) * Q(q, m)))

@case("second order tensors: one item and stacks, one matrix for all", reps=60)
def t2single(V):
    nlead = V.choice("lead", [0, 1, 2, 3, 4])
    d = V.dim("d", 1, 3)
    lead = [V.dim("n%d" % i, 1 if nlead > 1 else 0, 3) for i in range(nlead)]
    a, Q = lay(V, V.arr("a", (*lead, d, d))), lay(V, V.arr("Q", (d, d)))
    oa, oq = V.copy(a), V.copy(Q)
    r = T(V)._tr_tensors2(a, Q)
    V.shape(r, (*lead, d, d), "shape is kept")
    V.forall((*lead, d, d), lambda *ix: V.eq(r[ix], q2(V, lambda i, j: Q[i, j], lambda i, j: a[(*ix[:-2], i, j)], d, ix[-2], ix[-1]), "r = Q a Q^T for every item"))
    V.unchanged(a, oa, "items untouched")
    V.unchanged(Q, oq, "matrix untouched")

@case("second order tensors: stacks, one matrix per item", reps=60)
def t2multi(V):
    nlead = V.choice("lead", [1, 2, 3, 4])
    d = V.dim("d", 1, 3)
    lead = [V.dim("n%d" % i, 1 if nlead > 1 else 0, 3) for i in range(nlead)]
    a, Q = lay(V, V.arr("a", (*lead, d, d))), lay(V, V.arr("Q", (lead[0], d, d)))
    oa, oq = V.copy(a), V.copy(Q)
    r = T(V)._tr_tensors2(a, Q)
    V.shape(r, (*lead, d, d), "shape is kept")
    V.forall((*lead, d, d), lambda *ix: V.eq(r[ix], q2(V, lambda i, j: Q[ix[0], i, j], lambda i, j: a[(*ix[:-2], i, j)], d, ix[-2], ix[-1]), "r = Q[e] a Q[e]^T for every item"))
    V.unchanged(a, oa, "items untouched")
    V.unchanged(Q, oq, "matrices untouched")

def q4(V, Q, a, i, j, k, m):
    R = range(3)
    return sum(Q(i, p) * Q(j, q) * Q(k, r) * Q(m, s) * a(p, q, r, s) for p in R for q in R for r in R for s in R)

ENTRIES = [(0, 0, 0, 0), (0, 1, 2, 0), (2, 1, 1, 0), (1, 2, 2, 1), (2, 2, 0, 1)]

def check4(V, r, a, Q, head, what):
    if V.proof:
        for i in range(3):
            for j in range(3):
                for k in range(3):
                    for m in range(3):
                        V.eq(r[(*head, i, j, k, m)], q4(V, Q, a, i, j, k, m), what)
    else:
        np = V.np
        Qm = np.array([[Q(i, j) for j in range(3)] for i in range(3)])
        A = np.array([[[[a(i, j, k, m) for m in range(3)] for k in range(3)] for j in range(3)] for i in range(3)])
        V.eq(r[head] if head else r, np.einsum("ip,jq,kr,ms,pqrs->ijkm", Qm, Qm, Qm, Qm, A), what)

@case("fourth order tensors: a single one", reps=20, budget=120)
def t4(V):
    form = V.choice("form", ["dispatch", "sym"])
    a, Q = V.arr("a", (3, 3, 3, 3)), V.arr("Q", (3, 3))
    oa, oq = V.copy(a), V.copy(Q)
    r = T(V)._tr_tensors4x3(lay(V, a), lay(V, Q)) if form == "dispatch" else T(V)._tr_3333_sym(a, Q)
    V.shape(r, (3, 3, 3, 3), "shape is kept")
    check4(V, r, lambda *ix: a[ix], lambda i, j: Q[i, j], (), "every index contracted with Q")
    V.unchanged(a, oa, "tensor untouched")
    V.unchanged(Q, oq, "matrix untouched")

@case("fourth order tensors: stacks", reps=30, budget=200)
def t4bulk(V):
    kind = V.choice("kind", ["one matrix", "per item", "per item 2", "per item 3"])
    nlead = {"one matrix": 1, "per item": 1, "per item 2": 2, "per item 3": 3}[kind]
    lead = [V.dim("n%d" % i, 1 if nlead > 1 else 0, 3) for i in range(nlead)]
    a = V.arr("a", (*lead, 3, 3, 3, 3))
    Q = V.arr("Q", (3, 3)) if kind == "one matrix" else V.arr("Q", (lead[0], 3, 3))
    oa, oq = V.copy(a), V.copy(Q)
    r = T(V)._tr_tensors4x3(lay(V, a), lay(V, Q))
    V.shape(r, (*lead, 3, 3, 3, 3), "shape is kept")
    def each(*h):
        check4(V, r, lambda *ix: a[(*h, *ix)], (lambda i, j: Q[i, j]) if kind == "one matrix" else (lambda i, j: Q[h[0], i, j]), h, "every index of every item contracted")
    V.forall(tuple(lead), each)
    V.unchanged(a, oa, "items untouched")
    V.unchanged(Q, oq, "matrices untouched")

@case("unsupported combinations are rejected", reps=20)
def reject(V):
    k = V.choice("k", [0, 1, 2, 3])
    if k == 0:
        f = lambda: T(V)._tr_tensors2(V.arr("a", (3, 3)), V.arr("Q", (2, 3, 3)))
    elif k == 1:
        f = lambda: T(V)._tr_tensors4x3(V.arr("a", (3, 3, 3, 3)), V.arr("Q", (2, 3, 3)))
    elif k == 2:
        f = lambda: T(V)._tr_tensors4x3(V.arr("a", (2, 2, 3, 3, 3, 3)), V.arr("Q", (3, 3)))
    else:
        f = lambda: T(V)._tr_tensors2(V.arr("a", (3,)), V.arr("Q", (3, 3)))
    r, e = V.attempt(f, NotImplementedError)
    V.true(e is not None, "NotImplementedError")

@case("show_vector: one vector, stacks, one matrix per item", reps=60)
def showv(V):
    kind = V.choice("kind", [0, 1, 2])
    d, n = V.dim("d", 1, 4), V.dim("n", 0, 4)
    Q = lay(V, V.arr("Q", (n, d, d) if kind == 2 else (d, d)))
    v = lay(V, V.arr("v", (n, d) if kind else (d,)))
    oq, ov = V.copy(Q), V.copy(v)
    r = U(V).show_vector(Q, v)
    if kind == 0:
        V.alleq(r, (d,), lambda i: V.sum(d, lambda k: Q[i, k] * v[k]), "Q v")
    elif kind == 1:
        V.alleq(r, (n, d), lambda e, i: V.sum(d, lambda k: Q[i, k] * v[e, k]), "Q v[e]")
    else:
        V.alleq(r, (n, d), lambda e, i: V.sum(d, lambda k: Q[e, i, k] * v[e, k]), "Q[e] v[e]")
    V.unchanged(Q, oq, "matrix untouched")
    V.unchanged(v, ov, "vectors untouched")

@case("show_frame: one frame, stacks, one matrix per item", reps=60)
def showf(V):
    kind = V.choice("kind", [0, 1, 2])
    d, n = V.dim("d", 1, 4), V.dim("n", 0, 4)
    Q = lay(V, V.arr("Q", (n, d, d) if kind == 2 else (d, d)))
    f = lay(V, V.arr("f", (n, d, d) if kind else (d, d)))
    oq, of = V.copy(Q), V.copy(f)
    r = U(V).show_frame(Q, f)
    if kind == 0:
        V.alleq(r, (d, d), lambda i, j: V.sum(d, lambda k: Q[j, k] * f[i, k]), "base vector i transformed")
    elif kind == 1:
        V.alleq(r, (n, d, d), lambda e, i, j: V.sum(d, lambda k: Q[j, k] * f[e, i, k]), "base vector i of frame e transformed")
    else:
        V.alleq(r, (n, d, d), lambda e, i, j: V.sum(d, lambda k: Q[e, j, k] * f[e, i, k]), "base vector i of frame e transformed by its own matrix")
    V.unchanged(Q, oq, "matrix untouched")
    V.unchanged(f, of, "frames untouched")

@case("show_vector and show_frame: mismatching shapes are rejected", reps=10)
def showbad(V):
    k = V.choice("k", [0, 1, 2])
    L = V.lib("linalg.exceptions")
    if k == 0:
        f = lambda: U(V).show_vector(V.arr("Q", (2, 3, 3)), V.arr("v", (3,)))
    elif k == 1:
        f = lambda: U(V).show_frame(V.arr("Q", (2, 3, 3)), V.arr("v", (3, 3)))
    else:
        f = lambda: U(V).show_vector(V.arr("Q", (3, 3)), V.arr("v", (2, 3, 3)))
    r, e = V.attempt(f, L.LinalgOperationInputError)
    V.true(e is not None, "rejected with the library's error")

@case("transpose_axes: single, stack, several data dimensions", reps=30)
def transp(V):
    nl = V.choice("lead", [0, 1, 2, 3])
    d = V.dim("d", 1, 3)
    lead = [V.dim("n%d" % i, 1, 3) for i in range(nl)]
    a = lay(V, V.arr("a", (*lead, d, d)))
    old = V.copy(a)
    r = U(V).transpose_axes(a)
    V.shape(r, (*lead, d, d), "shape")
    V.forall((*lead, d, d), lambda *ix: V.eq(r[ix], a[(*ix[:-2], ix[-1], ix[-2])], "axes swapped for every item"))
    V.unchanged(a, old, "argument untouched")

@case("Gram and dual_frame of stacks, item by item", reps=30)
def gram(V):
    n = V.dim("n", 0, 4)
    d = V.choice("d", [2, 3])
    a = V.nonsing("a", d, lead=(n,))
    g = U(V).Gram(a)
    V.alleq(g, (n, d, d), lambda e, i, j: sum(a[e, i, k] * a[e, j, k] for k in range(d)), "products of the base vectors of each item")
    b = U(V).dual_frame(a)
    V.shape(b, (n, d, d), "shape")
    def each(e):
        for i in range(d):
            for j in range(d):
                V.eq(sum(b[e, i, k] * a[e, j, k] for k in range(d)), 1 if i == j else 0, "dual of each item is biorthogonal", tol=1e-6)
    V.forall((n,), each)
