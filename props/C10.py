"""C10: sparse and jagged arrays represent the same matrix through every conversion."""
from pyvc.harness import case
from props.util import patched

# ---------------------------------------------------------------- contracts of the dependencies (proof reading)

class Recorder:
    """scipy's csr_matrix((data, indices, indptr), shape): holds what it was given"""
    def __init__(self, arg, shape=None, **kw):
        if kw:
            raise NotImplementedError("options of scipy's csr_matrix")
        self.data, self.indices, self.indptr = arg
        self.shape = shape
        self.arg = arg
    def toarray(self):
        return ("dense", self)

def ak_standin(np):
    """the awkward functions used, by their documented meaning, on a bounded number of rows"""
    class Layout(list):
        def to_numpy(self):
            return np.array(list(self))
    class Array:
        def __init__(self, data):
            if isinstance(data, Array):
                data = data.rows
            if hasattr(data, "shape"):
                data = [[data[i, j] for j in range(int(data.shape[1]))] for i in range(int(data.shape[0]))]
            if not all(isinstance(r, (list, tuple)) or hasattr(r, "shape") for r in data):
                raise TypeError("awkward stand-in")
            self.rows = [list(r) for r in data]
            self.ndim = 2
        def __len__(self):
            return len(self.rows)
        def __getitem__(self, i):
            return self.rows[int(i)]
        def to_numpy(self):
            w = {len(r) for r in self.rows}
            if len(w) != 1:
                raise ValueError("rows of different length")
            return np.array(self.rows)
        def __iter__(self):
            return iter(self.rows)
        def to_list(self):
            return [list(r) for r in self.rows]
    def flatten(a):
        if isinstance(a, Array):
            return Layout(x for r in a.rows for x in r)
        return Layout(x for r in a for x in r)
    def unflatten(data, counts):
        counts = [int(c) for c in counts]
        n = int(data.shape[0])
        if sum(counts) != n:
            raise ValueError("structure imposed by 'counts' does not fit")
        out, k = [], 0
        for c in counts:
            out.append([data[k + j] for j in range(c)])
            k += c
        return Array(out)
    def concatenate(arrs, axis=0):
        arrs = [Array(a) for a in arrs]
        if axis == 0:
            return Array([r for a in arrs for r in a.rows])
        if axis in (1, -1):
            if len({len(a) for a in arrs}) != 1:
                raise ValueError("cannot broadcast")
            return Array([sum((list(a.rows[i]) for a in arrs), []) for i in range(len(arrs[0]))])
        raise ValueError("axis")
    class ArrayBuilder:
        def __init__(self):
            self.stack = [[]]
        def begin_list(self):
            self.stack.append([])
        def end_list(self):
            x = self.stack.pop()
            self.stack[-1].append(x)
        def integer(self, x):
            self.stack[-1].append(int(x))
        def snapshot(self):
            return self.stack[0]
    class ak:
        pass
    ak.Array, ak.flatten, ak.unflatten, ak.concatenate, ak.ArrayBuilder = Array, flatten, unflatten, concatenate, ArrayBuilder
    return ak

class nothing:
    def __enter__(self): pass
    def __exit__(self, *a): pass

class setting:
    """the modules of the library with the dependencies replaced by their contracts (proof), or as they are"""
    def __init__(self, V):
        self.csr, self.jag = V.lib("linalg.sparse.csr"), V.lib("linalg.sparse.jaggedarray")
        if V.proof:
            ak = ak_standin(V.np)
            self.ak = ak
            self.ctx = [patched(self.csr, ak=ak, csr_scipy=Recorder, issparse=lambda x: hasattr(x, "tocsr")),
                        patched(self.jag, ak=ak, akarray=ak.Array, unflatten=ak.unflatten, csr_scipy=Recorder)]
        else:
            import awkward as ak
            self.ak = ak
            self.ctx = [nothing()]
    def __enter__(self):
        for c in self.ctx:
            c.__enter__()
        return self
    def __exit__(self, *a):
        for c in reversed(self.ctx):
            c.__exit__(*a)

def i32(np, a):
    return np.array(a)

def pattern(V, n, m, dens):
    """a random sparsity pattern: list of column lists (concrete reading)"""
    return [sorted(j for j in range(m) if V.rng.random() < dens) for _ in range(n)]

def compiled_rows(V):
    """row access in compiled code"""
    if "f" not in _cache:
        from numba import jit
        @jit(nopython=True)
        def f(csr, i):
            return csr.row(i), csr.irow(i), csr.shape
        @jit(nopython=True)
        def g(csr):
            return csr
        @jit(nopython=True)
        def dense(csr):
            n, m = csr.shape
            t = 0.0
            for i in range(n):
                r, c = csr.row(i), csr.irow(i)
                for k in range(len(r)):
                    t += r[k] * (1 + i) * (2 + c[k])
            return t
        _cache["f"], _cache["g"], _cache["d"] = f, g, dense
    return _cache["f"], _cache["g"], _cache["d"]
_cache = {}

def check_csr(V, M, rows, shape, note=""):
    """M denotes exactly the rows [[(col, value)...]...] of the given shape (concrete reading)"""
    np = V.np
    n, m = shape
    V.true(tuple(int(x) for x in M.shape) == (n, m), "the shape" + note)
    D = np.zeros((n, m))
    for i, r in enumerate(rows):
        for j, x in r:
            D[i, j] += x
    V.eq(M.to_numpy(), D, "to_numpy" + note)
    S = M.to_scipy()
    V.true(tuple(S.shape) == (n, m), "shape of to_scipy" + note)
    V.eq(S.toarray(), D, "to_scipy" + note)
    f, g, d = compiled_rows(V)
    for i in range(n):
        want = sorted(rows[i])
        for which, (a, b) in (("", (M.row(i), M.irow(i))), (" in compiled code", f(M, i)[:2])):
            got = sorted(zip([int(c) for c in b], [float(x) for x in a]))
            V.true(len(a) == len(b), "row and column indices have the same length" + which + note)
            V.true([c for c, _ in got] == [c for c, _ in want] and np.allclose([x for _, x in got], [x for _, x in want]), "row access" + which + note)
    if n:
        V.true(tuple(f(M, 0)[2]) == (n, m), "shape in compiled code" + note)
    V.eq(d(M), sum(x * (1 + i) * (2 + j) for i, r in enumerate(rows) for j, x in r), "walk in compiled code" + note)
    B = g(M)
    V.true(tuple(int(x) for x in B.shape) == (n, m), "shape after a round trip through compiled code" + note)
    V.eq(B.to_numpy(), D, "round trip through compiled code" + note)

# ---------------------------------------------------------------- compressed rows

@case("compressed rows of a dense matrix of any shape", reps=40)
def dense(V):
    np = V.np
    n, m = V.dim("n", 1, 7), V.dim("m", 1, 7)
    A = V.arr("A", (n, m))
    if not V.proof:
        k = V.rng.random()
        if k < 0.2:
            A = np.asfortranarray(A)
        elif k < 0.4:
            A = np.ascontiguousarray(A.T).T
        elif k < 0.6:
            A = np.round(4 * A).astype(int)
        A = np.where(V.np.random.default_rng(V.rng.randrange(10**6)).random(A.shape) < 0.5, A, 0 * A)
    keep = V.copy(A)
    with setting(V):
        M = V.lib("linalg.sparse.csr").csr_matrix(A)
        V.unchanged(A, keep, "the matrix given")
        V.shape(M.data, (n * m,), "all entries are stored")
        V.shape(M.indices, (n * m,), "one column index each")
        V.shape(M.indptr, (n + 1,), "one start per row and the end")
        V.true(M.shape[0] == n, "number of rows")
        V.true(M.shape[1] == m, "number of columns")
        V.forall((n, m), lambda i, j: V.eq(M.row(i)[j], A[i, j], "row access"))
        V.forall((n, m), lambda i, j: V.eq(M.irow(i)[j], j, "column index access"))
        V.forall((n,), lambda i: V.shape(M.row(i), (m,), "length of a row"))
        V.forall((n,), lambda i: V.shape(M.irow(i), (m,), "number of column indices of a row"))
        if V.proof:
            S = M.to_scipy()
            V.true(S.shape is M.shape and S.data is M.data and S.indices is M.indices and S.indptr is M.indptr, "handed on to scipy as it is")
            V.true(M.to_numpy()[1].data is M.data, "dense form is that of scipy")
        else:
            check_csr(V, M, [[(j, float(A[i, j])) for j in range(m)] for i in range(n)], (n, m))

class Sp:
    """a scipy sparse matrix: tocsr() gives data, indices, indptr, shape"""
    def __init__(self, data, indices, indptr, shape):
        self.data, self.indices, self.indptr, self.shape = data, indices, indptr, shape
    def tocsr(self):
        return self
    def toarray(self):
        raise NotImplementedError

@case("compressed rows from raw arrays or a scipy matrix of any shape", reps=60)
def raw(V):
    np = V.np
    if V.proof:
        n, m, nz = V.dim("n", 1), V.dim("m", 1), V.dim("nz", 1)
        data, indices, indptr = V.arr("data", (nz,)), V.arr("ind", (nz,), "i"), V.arr("ptr", (n + 1,), "i")
        with setting(V) as L:
            how = V.choice("how", ["scipy", "raw"])
            if how == "scipy":
                M = L.csr.csr_matrix(Sp(data, indices, indptr, (n, m)))
            else:
                M = L.csr.csr_matrix(data, indices, indptr, shape=(n, m))
            V.true(M.shape[0] == n, "number of rows")
            V.true(M.shape[1] == m, "number of columns")
            V.alleq(M.data, (nz,), lambda k: data[k], "the entries")
            V.alleq(M.indices, (nz,), lambda k: indices[k], "the column indices")
            V.alleq(M.indptr, (n + 1,), lambda k: indptr[k], "the row starts")
            i = V.int("i")
            V.assume(i >= 0)
            V.assume(i < n)
            s, e = indptr[i], indptr[i + 1]
            V.assume(s >= 0)
            V.assume(e >= s)
            V.assume(e <= nz)
            V.shape(M.row(i), (e - s,), "length of a row")
            V.shape(M.irow(i), (e - s,), "number of column indices of a row")
            V.forall((e - s,), lambda k: V.eq(M.row(i)[k], data[s + k], "row access"))
            V.forall((e - s,), lambda k: V.eq(M.irow(i)[k], indices[s + k], "column index access"))
            S = M.to_scipy()
            V.true(S.shape is M.shape and S.data is M.data and S.indices is M.indices and S.indptr is M.indptr, "handed on to scipy as it is")
            V.true(M.to_numpy()[1].data is M.data, "dense form is that of scipy")
        return
    import scipy.sparse as sp
    csr_matrix = V.lib("linalg.sparse").csr_matrix
    n, m = V.dim("n", 1, 8), V.dim("m", 1, 8)
    cols = pattern(V, n, m, V.rng.choice([0.0, 0.1, 0.4, 0.8, 1.0]))
    rows = [[(j, round(V.rng.uniform(-5, 5), 3) or 1.0) for j in c] for c in cols]
    if V.rng.random() < 0.2:      # explicit zeros are entries too
        rows = [[(j, 0.0 if V.rng.random() < 0.3 else x) for j, x in r] for r in rows]
    V.used["rows"] = rows
    V.used["shape"] = (n, m)
    data = np.array([x for r in rows for _, x in r], dtype=float)
    ind = np.array([j for r in rows for j, _ in r], dtype=V.rng.choice([np.int32, np.int64]))
    ptr = np.cumsum([0] + [len(r) for r in rows]).astype(V.rng.choice([np.int32, np.int64]))
    how = V.choice("how", ["csr", "csc", "coo", "lil", "raw", "lists", "no shape", "csr array", "dok"])
    if how == "raw":
        d0, i0, p0 = data.copy(), ind.copy(), ptr.copy()
        M = csr_matrix(data, ind, ptr, shape=(n, m))
        V.unchanged(data, d0, "data"); V.unchanged(ind, i0, "indices"); V.unchanged(ptr, p0, "indptr")
    elif how == "lists":
        M = csr_matrix(data.tolist(), ind.tolist(), ptr.tolist(), (n, m))
    elif how == "no shape":
        M = csr_matrix(data, ind, ptr) if V.rng.random() < 0.5 else csr_matrix(data.tolist(), ind.tolist(), ptr.tolist())
        m = max([j + 1 for r in rows for j, _ in r] + [0])
    else:
        S = sp.csr_matrix((data, ind, ptr), shape=(n, m))
        if how in ("lil", "dok"):
            S.eliminate_zeros()
            rows = [[(j, x) for j, x in r if x] for r in rows]
        S = sp.csr_array(S) if how == "csr array" else S.asformat(how)
        M = csr_matrix(S)
    check_csr(V, M, rows, (n, m))

@case("the column count without a shape covers every entry", proof=True, reps=0, concrete=False)
def noshape(V):
    np = V.np
    n, nz = V.dim("n", 1), V.dim("nz", 1)
    data, indices, indptr = V.arr("data", (nz,)), V.arr("ind", (nz,), "i"), V.arr("ptr", (n + 1,), "i")
    with setting(V) as L:
        M = L.csr.csr_matrix(data, indices, indptr)
        V.true(M.shape[0] == n, "number of rows")
        V.forall((nz,), lambda k: V.true(indices[k] < M.shape[1], "every column index lies within the shape"))

@case("identity matrices of any size", reps=10)
def eye(V):
    n = V.dim("n", 1, 9)
    with setting(V) as L:
        M = L.csr.csr_matrix.eye(n)
        V.true(M.shape[0] == n, "rows")
        V.true(M.shape[1] == n, "columns")
        V.forall((n,), lambda i: V.shape(M.row(i), (1,), "one entry per row"))
        V.forall((n,), lambda i: V.eq(M.row(i)[0], 1, "which is one"))
        V.forall((n,), lambda i: V.eq(M.irow(i)[0], i, "on the diagonal"))
    if not V.proof:
        check_csr(V, M, [[(i, 1.0)] for i in range(n)], (n, n))

@case("row access in compiled code", concrete=False)
def overloads(V):
    """the method bodies registered for compiled code, on a structure with the attributes of the matrix"""
    L = V.lib("linalg.sparse.csr")
    n, nz = V.dim("n", 1), V.dim("nz", 1)
    class T(L.csr_matrix_nb):
        def __init__(self):
            self.name = "contract"
    class St: pass
    st = St()
    st.data, st.indices, st.indptr = V.arr("data", (nz,)), V.arr("ind", (nz,), "i"), V.arr("ptr", (n + 1,), "i")
    i = V.int("i")
    V.assume(i >= 0); V.assume(i < n)
    s, e = st.indptr[i], st.indptr[i + 1]
    V.assume(s >= 0); V.assume(e >= s); V.assume(e <= nz)
    r, c = L.row(T(), i)(st, i), L.irow(T(), i)(st, i)
    V.shape(r, (e - s,), "length of a row")
    V.shape(c, (e - s,), "number of column indices")
    V.forall((e - s,), lambda k: V.eq(r[k], st.data[s + k], "row access"))
    V.forall((e - s,), lambda k: V.eq(c[k], st.indices[s + k], "column index access"))

@case("shape and widths from row starts, triangles of coordinate data", reps=40)
def utils(V):
    np = V.np
    U = V.lib("linalg.sparse.utils")
    n = V.dim("n", 1, 9)
    if V.proof:
        p = V.arr("p", (n + 1,), "i")
        nE, w = U.get_shape_sp(p)
        V.true(nE == n, "number of rows")
        V.forall((n,), lambda i: V.true(p[i + 1] - p[i] <= w, "no row is wider than the width"))
        m = V.dim("m", 0)
        c = U.count_cols(V.arr("A", (n, m)))
        V.shape(c, (n,), "one count per row")
        V.forall((n,), lambda i: V.eq(c[i], m, "counts are the row lengths"))
    else:
        wd = [V.rng.randrange(0, 6) for _ in range(n)]
        p = np.cumsum([0] + wd)
        nE, w = U.get_shape_sp(p)
        V.true(int(nE) == n and int(w) == max(wd), "shape from row starts")
        m = V.dim("m", 1, 5)
        V.true(list(U.count_cols(np.zeros((n, m)))) == [m] * n, "counts of a matrix")
        k = V.dim("k", 0, 12)
        d = np.array([V.rng.uniform(-1, 1) for _ in range(k)])
        r = np.array([V.rng.randrange(5) for _ in range(k)], dtype=int)
        c = np.array([V.rng.randrange(5) for _ in range(k)], dtype=int)
        for f, ok in ((U.lower_spdata, lambda i, j: i >= j), (U.upper_spdata, lambda i, j: j >= i)):
            x, y, z = f(d, r, c)
            V.true(list(zip(x, y, z)) == [(a, b, e) for a, b, e in zip(d, r, c) if ok(b, e)], "exactly the entries of the triangle, in order")

@case("triangles of coordinate data", level="bounded", concrete=False, note="up to four entries")
def triangles(V):
    np = V.np
    U = V.lib("linalg.sparse.utils")
    k = V.choice("k", [1, 2, 3])
    d, r, c = V.arr("d", (k,)), V.arr("r", (k,), "i"), V.arr("c", (k,), "i")
    for f, ok in ((U.lower_spdata, lambda i, j: i >= j), (U.upper_spdata, lambda i, j: j >= i)):
        x, y, z = f(d, r, c)
        keep = [i for i in range(k) if ok(r[i], c[i])]
        V.shape(x, (len(keep),), "as many as lie in the triangle")
        for t, i in enumerate(keep):
            V.eq(x[t], d[i], "entries in order")
            V.eq(y[t], r[i], "row of the entry")
            V.eq(z[t], c[i], "column of the entry")

# ---------------------------------------------------------------- jagged arrays

def widths_of(V, np, nmax=3, wmax=3):
    if V.proof:
        n = V.choice("rows", list(range(1, nmax + 1)))
        return [V.choice("w%d" % i, list(range(wmax + 1))) for i in range(n)]
    n = V.dim("rows", 1, 8)
    k = V.rng.random()
    if k < 0.3:
        return [V.rng.randrange(1, 6)] * n
    return [V.rng.randrange(0 if k > 0.6 else 1, 6) for _ in range(n)]

def check_jagged(V, J, rows, dense_ok=True, note=""):
    np = V.np
    n, w = len(rows), [len(r) for r in rows]
    V.true(len(J) == n, "number of rows" + note)
    wd = J.widths()
    V.true([int(x) for x in wd] == w, "widths" + note)
    V.true(int(J.size) == sum(w), "size" + note)
    V.true(bool(J.is_jagged()) == (len(set(w)) > 1), "is_jagged" + note)
    shp = J.shape
    V.true(int(shp[0]) == n, "first entry of the shape" + note)
    if hasattr(shp[1], "shape") and len(shp[1].shape):
        V.true([int(x) for x in shp[1]] == w, "row lengths in the shape" + note)
    else:
        V.true(all(int(shp[1]) == x for x in w), "row length in the shape" + note)
    for i, r in enumerate(rows):
        V.true(len(J[i]) == w[i], "row length" + note)
        for j, x in enumerate(r):
            V.eq(J[i][j], x, "row contents" + note)
    flat = [x for r in rows for x in r]
    F = J.flatten()
    V.true(len(F) == len(flat), "length of the flat form" + note)
    cuts, G = J.flatten(return_cuts=True)
    V.true([int(x) for x in cuts] == w, "cuts of the flat form" + note)
    V.true(len(G) == len(flat), "length of the flat form with cuts" + note)
    for k, x in enumerate(flat):
        V.eq(F[k], x, "flat form" + note)
        V.eq(G[k], x, "flat form with cuts" + note)
    L = J.to_list()
    V.true([len(r) for r in L] == w, "to_list" + note)
    A = J.to_ak()
    V.true(len(A) == n, "to_ak" + note)
    for i, r in enumerate(rows):
        V.true(len(A[i]) == w[i], "row lengths of to_ak" + note)
        for j, x in enumerate(r):
            V.eq(L[i][j], x, "to_list" + note)
            V.eq(A[i][j], x, "to_ak" + note)
    V.true(len(J.to_array()) == n, "to_array" + note)
    C = J.to_csr()
    m = max(w)
    V.true(int(C.shape[0]) == n and int(C.shape[1]) == m, "shape of the sparse form" + note)
    for i, r in enumerate(rows):
        V.true([int(x) for x in C.irow(i)] == list(range(w[i])), "columns of the sparse form" + note)
        V.true(len(C.row(i)) == w[i], "row length of the sparse form" + note)
        for j, x in enumerate(r):
            V.eq(C.row(i)[j], x, "rows of the sparse form" + note)
    if not V.proof:
        D = np.zeros((n, m))
        for i, r in enumerate(rows):
            D[i, :w[i]] = r
        V.eq(J.to_scipy().toarray(), D, "scipy form" + note)
        V.eq(np.asarray(J.to_numpy()), D, "matrix form" + note)
        check_csr(V, C, [[(j, float(x)) for j, x in enumerate(r)] for r in rows], (n, m), note)

def content(V, w, name="x"):
    np = V.np
    kind = "int" if not V.proof and V.rng.random() < 0.5 else "float"
    if V.proof:
        a = V.arr(name, (sum(w),))
    elif kind == "int":
        a = np.array([V.rng.randrange(-9, 10) for _ in range(sum(w))], dtype=int)
    else:
        a = np.array([round(V.rng.uniform(-9, 9), 2) for _ in range(sum(w))], dtype=float)
    rows, k = [], 0
    for c in w:
        rows.append([a[k + j] for j in range(c)])
        k += c
    return a, rows

@case("jagged arrays from flat data, lists and matrices", level="bounded", reps=60, paths=4000, budget=120, note="at most three rows of at most three entries, entries arbitrary")
def jagged(V):
    np = V.np
    w = widths_of(V, np)
    V.assume(sum(w) > 0)
    a, rows = content(V, w)
    with setting(V) as S:
        JA = S.jag.JaggedArray
        how = V.choice("how", ["cuts", "cuts kept awkward", "list", "matrix", "awkward"])
        keep = V.copy(a)
        if how == "cuts":
            c = V.choice("cuts as", ["list", "array", "tuple"])
            J = JA(a, cuts=w if c == "list" else tuple(w) if c == "tuple" else np.array(w))
        elif how == "cuts kept awkward":
            J = JA(a, cuts=w, force_numpy=False)
        elif how == "list":
            J = JA([[x for x in r] for r in rows]) if V.proof else JA([[x.item() for x in r] for r in rows])
        elif how == "matrix":
            V.assume(len(set(w)) == 1)
            J = JA(np.array(rows))
        else:
            J = JA(S.ak.Array(rows) if V.proof else S.ak.unflatten(a, w))
        V.unchanged(a, keep, "the data given")
        check_jagged(V, J, rows)

@case("stacking and concatenation of jagged arrays", level="bounded", reps=60, paths=6000, budget=150, note="two arrays of at most two rows of at most two entries (proof), entries arbitrary")
def stacking(V):
    np = V.np
    parts = []
    with setting(V) as S:
        JA = S.jag.JaggedArray
        k = 2 if V.proof else V.choice("parts", [1, 2, 3])
        for p in range(k):
            if V.proof:
                n = V.choice("rows%d" % p, [1, 2])
                w = [V.choice("w%d%d" % (p, i), [0, 1, 2]) for i in range(n)]
            else:
                w = widths_of(V, np)
            V.assume(sum(w) > 0)
            a, rows = content(V, w, "x%d" % p)
            parts.append((JA(a, cuts=w), rows))
        how = V.choice("how", ["vstack", "concatenate", "axis0", "axis1"])
        arrs = [j for j, _ in parts]
        if V.choice("as", ["list", "tuple"]) == "tuple":
            arrs = tuple(arrs)
        want = [r for _, rows in parts for r in rows]
        H = {"vstack": "vstack"}.get(how, "concatenate")
        if V.proof:
            call = getattr(S.jag, H)
        else:
            call = getattr(np, H)
        if how == "axis1":
            V.assume(len({len(rows) for _, rows in parts}) == 1)
            want = [sum((list(rows[i]) for _, rows in parts), []) for i in range(len(parts[0][1]))]
            J = call(arrs, axis=1)
        elif how == "axis0":
            J = call(arrs, axis=0)
        else:
            J = call(arrs)
        V.true(isinstance(J, JA), "the result is a jagged array")
        check_jagged(V, J, want)
        for j, rows in parts:
            V.true([int(x) for x in j.widths()] == [len(r) for r in rows], "the parts keep their widths")
            for i, r in enumerate(rows):
                for c, x in enumerate(r):
                    V.eq(j[i][c], x, "the parts keep their contents")

@case("inputs that do not fit are rejected", proof=False, reps=10)
def reject(V):
    np = V.np
    JA, csr = V.lib("linalg.sparse").JaggedArray, V.lib("linalg.sparse").csr_matrix
    w = widths_of(V, np)
    a, _ = content(V, w)
    for f in (lambda: JA(np.append(a, 1), cuts=w), lambda: JA(np.zeros((2, 2, 2))), lambda: JA(5), lambda: csr(np.zeros(3))):
        try:
            f()
        except Exception:
            continue
        V.true(False, "input that does not fit is rejected")
