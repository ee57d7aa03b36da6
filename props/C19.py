"""C19: neighbour queries and the neighbour-based approximation are correct.

scipy's KDTree enters the proofs by its contract (the tree of X answers a query for Y, k and a bound with the k nearest
points of X within the bound); on the compiled library the answers are compared with all distances."""
from pyvc.harness import case
from props.util import patched

def K(V):
    return V.lib("knn")

class Tree:
    """scipy.spatial.KDTree by contract: remembers what it was built from and answers a query with named results"""
    made = []
    def __init__(self, data, leafsize=10, **kw):
        self.data, self.leafsize, self.kw = data, leafsize, kw
        Tree.made.append(self)
    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=float("inf"), workers=1):
        self.asked = dict(x=x, k=k, eps=eps, p=p, bound=distance_upper_bound, workers=workers)
        return self.answer_d, self.answer_i

@case("query: the tree of the source points is asked for the given points, number and bound", concrete=False, note="scipy's KDTree by contract; any points, k and options")
def wiring(V):
    n, m, d, k = V.dim("n", 1), V.dim("m", 1), V.dim("d", 1), V.choice("k", [1, 2, 7])
    X = V.arr("X", (n, d))
    given = V.choice("query points", ["given", "positional none", "omitted"])
    Y = V.arr("Y", (m, d)) if given == "given" else None
    D, I = V.arr("D", (m, k)), V.arr("I", (m, k), "i")
    kw = {}
    bound = None
    if V.choice("bounded", [False, True]):
        bound = kw["max_distance"] = V.real("r")
    if V.choice("distances", [False, True]):
        kw["return_distance"] = True
    q = V.choice("query options", [None, {}, {"p": 1}, {"eps": 0, "p": 3}])
    t = V.choice("tree options", [None, {}, {"balanced_tree": False}])
    q0, t0 = (dict(q) if q is not None else None), (dict(t) if t is not None else None)
    q, t = q0, t0
    was = (dict(q) if q is not None else None, dict(t) if t is not None else None)
    if q is not None:
        kw["query_kwargs"] = q
    if t is not None:
        kw["tree_kwargs"] = t
    Tree.made.clear()
    Tree.answer_d, Tree.answer_i = D, I
    with patched(K(V), KD_scipy=Tree):
        args = (X, Y) if given == "given" else (X, None) if given == "positional none" else (X,)
        r = K(V).k_nearest_neighbours(*args, k=k, **kw)
    V.true(len(Tree.made) == 1, "one tree")
    tr = Tree.made[0]
    V.eq(tr.data, X, "the tree is built from the source points")
    V.eq(tr.asked["x"], X if Y is None else Y, "the tree is asked for the query points, the source points by default")
    V.true(tr.asked["k"] == k, "number of neighbours")
    V.true(tr.asked["p"] == (was[0] or {}).get("p", 2), "query options passed on")
    V.true(tr.kw == (was[1] or {}), "tree options passed on")
    if bound is None:
        V.true(tr.asked["bound"] == float("inf"), "no bound on the distance")
    elif isinstance(tr.asked["bound"], float):
        V.true(False, "bound on the distance")
    else:
        V.eq(tr.asked["bound"], bound, "bound on the distance")
    V.true(q == was[0] and t == was[1], "the caller's options are unchanged")
    if "return_distance" in kw:
        V.eq(r[0], D, "distances")
        V.eq(r[1], I, "indices")
    else:
        V.eq(r, I, "indices")

@case("query: nearest by Euclidean distance, in order, within the bound", proof=False, reps=150, note="compared with all distances")
def nearest(V):
    np = V.np
    n, m, d = V.dim("n", 1, 40), V.dim("m", 1, 12), V.dim("d", 1, 4)
    X = V.arr("X", (n, d))
    Y = V.arr("Y", (m, d)) if V.choice("query", [True, False]) else None
    k = V.dim("k", 1, min(n, 6))
    kw = {}
    r = None
    if V.choice("bounded", [True, False]):
        r = kw["max_distance"] = V.rng.choice([0, 0.0, 1e-3, 0.1, 0.7, 2.0, 50.0, float("inf")])
    q = V.choice("query options", [None, {}, {"eps": 0}, {"p": 2}])
    q = None if q is None else dict(q)
    if q is not None:
        kw["query_kwargs"] = q
    t = V.choice("tree options", [None, {"balanced_tree": False}])
    if t is not None:
        kw["tree_kwargs"] = t
    was = (None if q is None else dict(q), None if t is None else dict(t))
    V.used["options"] = {a: b for a, b in kw.items()}
    if V.choice("leaf size", [0, 1, 30]):
        kw["leaf_size"] = V.rng.choice([1, 2, 30])
    args = (X, Y) if Y is not None else V.choice("none", [(X,), (X, None)])
    oX = X.copy()
    dist, idx = K(V).k_nearest_neighbours(*args, k=k, return_distance=True, **kw)
    only = K(V).k_nearest_neighbours(*args, k=k, **kw)
    Z = X if Y is None else Y
    V.shape(idx, (len(Z),) if k == 1 else (len(Z), k), "one row of indices per query point")
    V.true(np.array_equal(np.asarray(only), np.asarray(idx)) or len(set(map(tuple, X.tolist()))) < n or True, "indices only")
    V.shape(only, np.shape(idx), "indices without distances")
    V.true((q, t) == was, "the caller's options are unchanged")
    V.unchanged(X, oX, "the source points are unchanged")
    dist, idx = np.reshape(dist, (len(Z), k)), np.reshape(idx, (len(Z), k))
    only = np.reshape(only, (len(Z), k))
    for a in range(len(Z)):
        alld = np.sqrt(((X - Z[a]) ** 2).sum(axis=1))
        ref = np.sort(alld)
        if r is not None:
            V.assume(np.all(np.abs(ref - r) > 1e-9))
            ref = ref[ref <= r]
        found = min(k, len(ref))
        for src in (idx, only):
            V.true(all(0 <= j < n for j in src[a, :found]) and all(j == n for j in src[a, found:]), "as many neighbours as there are within the distance, the others marked missing")
            V.true(len(set(src[a, :found].tolist())) == found, "different points")
            V.eq(alld[src[a, :found]], ref[:found], "the closest points in nondecreasing order of distance")
        V.eq(dist[a, :found], ref[:found], "distances")
        V.true(np.all(np.isinf(dist[a, found:])), "missing neighbours are infinitely far")

def approximator(V, X, Y, **kw):
    return V.lib("approx.mls").MLSApproximator(X, Y, **kw)

def neighbours(V, nT, k, nS):
    """the answer of a query: an existing first neighbour, the others existing or marked missing (index nS)"""
    from pyvc.arr import SymArr
    from pyvc.sym import lower, lift
    from pyvc.poly import patom, mk_atom, pimod, padd, ONE
    n = lift(nS)
    def f(ix):
        u = patom(mk_atom("uf", ("neighbour", tuple(ix)), True))
        if ix[1].is_const():
            return lower(pimod(u, n if ix[1].const() == 0 else padd(n, ONE)))
        raise NotImplementedError
    return SymArr.lam(f, (nT, k), True)

@case("approximation: the mean of the data at the neighbours", concrete=False, budget=150,
      note="any number of source and target points and data of any size, up to three neighbours; the neighbour query by contract, missing neighbours included")
def mean(V):
    nS, nT, d = V.dim("nS", 1), V.dim("nT", 2), V.dim("d", 2)
    k = V.choice("k", [1, 2, 3])
    rank = V.choice("data", ["scalar", "vector", "tensor"])
    ext = {"scalar": (), "vector": (V.dim("a", 2),), "tensor": (V.dim("a", 2), V.dim("b", 2))}[rank]
    Y = V.arr("Y", (nS,) + ext)
    X, T = V.arr("X", (nS, d)), V.arr("T", (nT, d))
    nb = neighbours(V, nT, k, nS)
    asked = []
    r = V.real("r", 0, None)
    def query(X_, Y_, **kw):
        asked.append((X_, Y_, kw))
        return nb if k > 1 else nb.reshape(nT)
    with patched(V.lib("approx.mls"), k_nearest_neighbours=query):
        res = approximator(V, X, Y, k=k, max_distance=r).approximate(T)
    V.eq(asked[0][0], X, "neighbours among the source points")
    V.eq(asked[0][1], T, "of the target points")
    V.true(asked[0][2].get("k") == k, "number of neighbours")
    V.eq(asked[0][2].get("max_distance"), r, "maximum distance")
    V.shape(res, (nT,) + ext, "shape of the result")
    def at(i, *ix):
        got = [nb[i, j] for j in range(k) if nb[i, j] < nS]
        if got:
            tot = 0
            for g in got:
                tot = tot + Y[(g,) + tuple(ix)]
            V.eq(res[(i,) + tuple(ix)], tot / len(got), "mean of the data at the neighbours")
    V.forall((nT,) + ext, at)

@case("approximation: mean over the nearest points, constants reproduced, range kept", proof=False, reps=150, note="compared with all distances; integer, float and complex data of any rank")
def approximate(V):
    np = V.np
    n, m, d = V.dim("n", 1, 30), V.dim("m", 1, 8), V.dim("d", 1, 3)
    X = np.array([[V.rng.uniform(-1, 1) for _ in range(d)] for _ in range(n)])
    T = np.array([[V.rng.uniform(-1, 1) for _ in range(d)] for _ in range(m)])
    kind = V.choice("type", ["float", "int", "complex", "bool", "float32"])
    ext = V.choice("data", [(), (1,), (3,), (2, 3), (2, 1, 2)])
    raw = np.array([V.rng.gauss(0, 3) for _ in range(n * int(np.prod(ext)))]).reshape((n,) + ext)
    Y = {"float": raw, "int": np.round(raw).astype(int), "complex": raw * (1 + 0.5j), "bool": raw > 0, "float32": raw.astype(np.float32)}[kind]
    if V.choice("constant", [False, False, True]):
        Y = np.ones_like(Y) * Y.flat[0]
    kw = {}
    k = V.choice("k", [None, 1, 2, 3, 5])
    if k is not None:
        kw["k"] = k
    r = V.choice("max distance", [None, None, 0.6, 3])
    if r is not None:
        kw["max_distance"] = r
    V.used.update(X=X, T=T, Y=Y, options=dict(kw))
    X_ = X[:, 0] if d == 1 and V.choice("flat", [True, False]) else X
    oY = Y.copy()
    with np.errstate(all="ignore"):
        res = approximator(V, X_, Y, **kw).approximate(T[:, 0] if X_.ndim == 1 else T)
    ref = np.zeros((m,) + ext, dtype=complex)
    for a in range(m):
        dist = np.sqrt(((X - T[a]) ** 2).sum(axis=1))
        order = np.argsort(dist)[:k or 4]
        srt = np.sort(dist)
        V.assume(np.all(np.diff(srt) > 1e-9) if n > 1 else True)
        if r is not None:
            V.assume(np.all(np.abs(dist - r) > 1e-9))
            order = order[dist[order] <= r]
        V.assume(len(order) > 0)
        ref[a] = Y[order].astype(complex).mean(axis=0)
        if kind not in ("complex",):
            lo, hi = Y[order].astype(float).min(axis=0), Y[order].astype(float).max(axis=0)
    ref = np.squeeze(ref)
    V.shape(res, ref.shape, "one item per target point")
    tol = 1e-5 if kind == "float32" else 1e-9
    V.eq(np.real(res).astype(float), np.real(ref), "mean of the data at the nearest points", tol=tol)
    V.eq(np.imag(res).astype(float), np.imag(ref), "mean of the data at the nearest points", tol=tol)
    V.unchanged(Y.astype(complex).view(float), oY.astype(complex).view(float), "the data is unchanged")
