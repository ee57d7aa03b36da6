"""C11: unique2d: values, counts, inverse and indices reconstruct the input."""
from pyvc.harness import case
from props.util import patched
from props.C10 import setting, nothing

def dict_standin():
    """a typed dictionary: finds the value stored under an equal key"""
    class D:
        def __init__(self):
            self.k, self.v = [], []
        @classmethod
        def empty(cls, key_type=None, value_type=None):
            return cls()
        def _find(self, key):
            for i, k in enumerate(self.k):
                if bool(k == key):
                    return i
            return None
        def __setitem__(self, key, val):
            i = self._find(key)
            if i is None:
                self.k.append(key)
                self.v.append(val)
            else:
                self.v[i] = val
        def __getitem__(self, key):
            i = self._find(key)
            if i is None:
                raise KeyError(key)
            return self.v[i]
        def __contains__(self, key):
            return self._find(key) is not None
        def __len__(self):
            return len(self.k)
        def keys(self):
            return list(self.k)
        def items(self):
            return list(zip(self.k, self.v))
        def __iter__(self):
            return iter(self.k)
    return D

def spec(flat):
    """distinct entries in increasing order with their positions (decisions in the proof reading)"""
    vals, pos = [], []
    for t, x in enumerate(flat):
        k = 0
        while k < len(vals) and bool(vals[k] < x):
            k += 1
        if k < len(vals) and bool(vals[k] == x):
            pos[k].append(t)
        else:
            vals.insert(k, x)
            pos.insert(k, [t])
    return vals, pos

def check(V, res, opts, flat, index_of, inverse_at, n):
    """res: what was returned for the options (index, inverse, counts)"""
    vals, pos = spec(flat)
    want = 1 + sum(opts)
    if want == 1:
        V.true(not isinstance(res, (list, tuple)), "without options the values alone are returned")
        res = [res]
    V.true(len(res) == want, "exactly the requested items are returned")
    items = list(res)
    U = items.pop(0)
    V.true(len(U) == len(vals), "as many values as distinct entries")
    for k, x in enumerate(vals):
        V.eq(U[k], x, "values in increasing order", exact=True)
    if opts[0]:
        D = items.pop(0)
        V.true(len(D) == len(vals), "an index list for every value")
        for k, x in enumerate(vals):
            got = D[x]
            V.true(len(got) == len(pos[k]), "as many positions as occurrences")
            for t, p in enumerate(pos[k]):
                V.true(index_of(got, t) == p, "positions of every value in row-major order")
    if opts[1]:
        inv = items.pop(0)
        for k in range(len(vals)):
            for p in pos[k]:
                V.true(int(inverse_at(inv, p)) == k, "the inverse points to the value of the entry")
    if opts[2]:
        cnt = items.pop(0)
        V.true(len(cnt) == len(vals), "one count per value")
        for k in range(len(vals)):
            V.true(int(cnt[k]) == len(pos[k]), "counts are numbers of occurrences")

OPTS = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]

def options(V):
    o = V.choice("options", OPTS)
    kw = {}
    for name, x in zip(("return_index", "return_inverse", "return_counts"), o):
        if x or (not V.proof and V.rng.random() < 0.5):
            kw[name] = bool(x)
    return o, kw

class module:
    def __init__(self, V):
        self.mod = V.lib("arraysetops")
        self.ctx = []
        if V.proof:
            self.ctx = [patched(self.mod, Dict=dict_standin())]
    def __enter__(self):
        for c in self.ctx:
            c.__enter__()
        return self.mod
    def __exit__(self, *a):
        for c in self.ctx:
            c.__exit__(*a)

def draw(V, k):
    top = V.rng.choice([1, 2, 5, 1000, 2 ** 40])
    v = [V.rng.randrange(-top, top + 1) for _ in range(k)]
    return [x + V.rng.choice([0, 2 ** 16, 2 ** 32, -2 ** 53]) for x in v] if V.rng.random() < 0.2 else v

@case("matrices", level="bounded", reps=80, paths=20000, budget=200, note="matrices of at most four entries (any shape), entries arbitrary integers, every option")
def matrices(V):
    np = V.np
    if V.proof:
        n, m = V.choice("shape", [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1)])
        A = V.arr("A", (n, m), "i")
    else:
        n, m = V.dim("n", 1, 8), V.dim("m", 1, 8)
        if "A" in V.model:
            A = V.arr("A", (n, m), "i")
        else:
            A = np.array(draw(V, n * m), dtype=np.int64).reshape(n, m)
            V.used["A"] = A.tolist()
        k = V.rng.random()
        if k < 0.25:
            A = np.asfortranarray(A)
        elif k < 0.5:
            A = np.ascontiguousarray(A.T).T
        elif k < 0.6 and abs(A).max() < 2 ** 30:
            A = A.astype(np.int32)
        elif k < 0.7:
            A = np.repeat(np.repeat(A, 2, 0), 2, 1)[::2, ::2]
    keep = V.copy(A)
    o, kw = options(V)
    with module(V) as mod:
        res = mod.unique2d(A, **kw)
    V.unchanged(A, keep, "the matrix given")
    if o[1]:
        V.shape(res[1 + o[0]], (n, m), "the inverse has the shape of the matrix")
    check(V, res, o, [A[i, j] for i in range(n) for j in range(m)],
          lambda g, t: int(g[t, 0]) * m + int(g[t, 1]), lambda inv, p: inv[p // m, p % m], n)

@case("jagged arrays", level="bounded", reps=80, paths=20000, budget=200, note="at most three rows with at most four entries in all, entries arbitrary integers, every option")
def jagged(V):
    np = V.np
    if V.proof:
        w = V.choice("widths", [(1,), (2,), (1, 1), (2, 1), (1, 2), (0, 2), (2, 0, 1), (1, 1, 1), (3, 1), (1, 0, 2)])
        a = V.arr("A", (sum(w),), "i")
    else:
        w = tuple(V.rng.randrange(0, 6) for _ in range(V.dim("rows", 1, 6)))
        if V.rng.random() < 0.3:
            w = (max(w),) * len(w)
        if sum(w) == 0:
            w = (1,) + w
        V.used["widths"] = list(w)
        a = np.array(draw(V, sum(w)), dtype=np.int64)
        V.used["A"] = a.tolist()
    o, kw = options(V)
    start = [sum(w[:i]) for i in range(len(w))]
    where = [(i, j) for i in range(len(w)) for j in range(w[i])]
    with setting(V) as S, module(V) as mod:
        JA = S.jag.JaggedArray
        how = V.choice("how", ["awkward", "jagged", "jagged kept awkward", "method"] + ([] if V.proof else ["np.unique"]))
        ctx = [patched(mod, akarray=S.ak.Array, ak=S.ak)] if V.proof else [nothing()]
        J = JA(a, cuts=list(w), force_numpy=how != "jagged kept awkward")
        dense = not J.is_jagged() and how != "awkward"
        with ctx[0]:
            if how == "awkward":
                res = mod.unique2d(S.ak.unflatten(a, list(w)), **kw)
            elif how == "method":
                if V.proof:
                    with patched(S.jag, unique2d=mod.unique2d):
                        res = S.jag.unique(J, **kw)
                else:
                    res = J.unique(**kw)
            elif how == "np.unique":
                res = np.unique(J, **kw)
            else:
                res = mod.unique2d(J, **kw)
        if dense and not (how in ("method", "np.unique") and isinstance(J._wrapped, S.ak.Array)):
            m = w[0]
            idx = lambda g, t: int(g[t, 0]) * m + int(g[t, 1])
            inv = lambda x, p: x[p // m, p % m]
        else:
            idx = lambda g, t: int(g[t])
            inv = lambda x, p: x[where[p][0]][where[p][1]]
        if o[1]:
            x = res[1 + o[0]]
            V.true(len(x) == len(w), "the inverse has the rows of the array")
            V.true([len(x[i]) for i in range(len(w))] == list(w), "the inverse has the row lengths of the array")
        check(V, res, o, [a[k] for k in range(sum(w))], idx, inv, len(w))

@case("inputs of other types are rejected", proof=False, reps=3)
def reject(V):
    for x in ([[1, 2]], "ab", None, 4):
        try:
            V.lib("arraysetops").unique2d(x)
        except TypeError:
            continue
        V.true(False, "other types are rejected with a TypeError")
