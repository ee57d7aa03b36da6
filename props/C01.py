"""C01: changing the frame never changes the physical vector or tensor."""
import copy as cp
from itertools import product
from pyvc.harness import case
from props.util import I, mm, rotation, orthogonal, patched

def F(V):
    return V.lib("linalg.frame")

def T(V):
    return V.lib("linalg.tensor")

def Vec(V):
    return V.lib("linalg.vector").Vector

def phys(c, A, d, rank):
    """ambient components of the quantity with components c (indexable) in the frame with axes A"""
    out = {}
    for ix in product(range(d), repeat=rank):
        t = 0
        for jx in product(range(d), repeat=rank):
            x = c[jx if rank > 1 else jx[0]]
            for i, j in zip(ix, jx):
                x = A[j, i] * x
            t = t + x
        out[ix] = t
    return out

def phys_eq(V, P1, P2, what, tol=1e-6):
    ks = sorted(P1)
    if V.proof:
        for k in ks:
            V.eq(P1[k], P2[k], what)
    else:
        V.eq([P1[k] for k in ks], [P2[k] for k in ks], what, tol=tol)

def quantity(V, o):
    """the physical quantity the library object denotes now"""
    d = o.frame.axes.shape[-1]
    return phys(o.array, o.frame.axes, d, o.rank)

KINDS = {"Vector": 1, "Tensor2": 2, "Tensor": 2, "Tensor rank 3": 3, "Tensor2x3": 2, "Tensor4": 4}

def make(V, kind, name, d, frame):
    r = KINDS[kind]
    a = V.arr(name, (d,) * r)
    cls = Vec(V) if kind == "Vector" else getattr(T(V), kind.split()[0])
    return cls(a, frame=frame)

def frame_of(V, cls, name, d):
    if cls == "ReferenceFrame":
        return F(V).ReferenceFrame(V.nonsing(name, d))
    if cls == "CartesianFrame":
        return F(V).CartesianFrame(orthogonal(V, name, d), assume_cartesian=True)
    R = orthogonal(V, name, d)
    s = [V.real("%s s%d" % (name, i)) for i in range(d)]
    for x in s:
        if V.proof:
            V.c.declare_nonzero(x)
        else:
            V.assume(abs(x) > 0.05)
    return F(V).RectangularFrame(V.np.array([[s[i] * R[i, j] for j in range(d)] for i in range(d)]), assume_rectangular=True)

CLS = ["ReferenceFrame", "CartesianFrame", "RectangularFrame"]

def pick(V, opts):
    kind = V.choice("kind", [k for k, _ in opts])
    return kind, dict(opts)[kind]

@case("show: components in another frame denote the same quantity", reps=80, budget=150)
def show(V):
    kind, ds = pick(V, [("Vector", [1, 2, 3]), ("Tensor2", [2, 3]), ("Tensor", [2]), ("Tensor rank 3", [2]), ("Tensor2x3", [3])])
    d = V.choice("d", ds)
    src = V.choice("source", CLS if d == 2 else CLS[:1])
    to = V.choice("target", ["frame", "ambient", "cartesian"])
    f = frame_of(V, src, "A", d)
    t = make(V, kind, "t", d, f)
    A, a0 = V.copy(f.axes), V.copy(t.array)
    P0 = quantity(V, t)
    if to == "ambient":
        r, B = t.show(), V.np.array(I(d))
    else:
        g = F(V).ReferenceFrame(V.nonsing("B", d)) if to == "frame" else F(V).CartesianFrame(orthogonal(V, "B", d), assume_cartesian=True)
        B = V.copy(g.axes)
        r = t.show(g)
        V.eq(g.axes, B, "target frame unchanged")
    phys_eq(V, phys(r, B, d, t.rank), P0, "same physical quantity")
    V.eq(t.array, a0, "stored components unchanged")
    V.eq(f.axes, A, "own frame unchanged")
    V.same(t.frame, f, "still in its own frame")

@case("show: fourth order tensors", reps=15, budget=150)
def show4(V):
    """three dimensions in the proof: the transformation matrix Q satisfies target^T Q = source^T (proved here for the real dcm),
    then every index is contracted with Q"""
    d = 3 if V.proof else V.choice("dim", [3, 2])
    A, B = V.nonsing("A", d), V.nonsing("B", d)
    f, g = F(V).ReferenceFrame(A), F(V).ReferenceFrame(B)
    t = (T(V).Tensor4x3 if d == 3 and V.choice("class", [0, 1]) else T(V).Tensor4)(V.arr("t", (d,) * 4), frame=f)
    how = V.choice("how", ["show", "assign frame", "axes"])
    if V.proof:
        real = F(V).ReferenceFrame.dcm
        Q = V.arr("Q", (3, 3))
        asked = []
        def contract(self, *, target=None, source=None):
            if target is None:
                return real(self, target=target, source=source)
            r = real(self, target=target)
            asked.append(target)
            V.eq(mm(V.np.array([[target.axes[j, i] for j in range(3)] for i in range(3)]), r, 3),
                 [[self.axes[j, i] for j in range(3)] for i in range(3)], "contract of dcm: target^T Q = source^T")
            return V.np.array(Q)
        old = V.copy(t.array)
        with patched(F(V).ReferenceFrame, dcm=contract):
            if how == "show":
                r = t.show(g)
            elif how == "assign frame":
                t.frame = g
                r = t.array
            else:
                f.axes = B
                r = t.array
        V.true(len(asked) == 1 and V.np.array(asked[0].axes).shape == (3, 3), "one transformation, to the new frame")
        V.eq(asked[0].axes, B, "the transformation is to the new axes")
        for ix in product(range(3), repeat=4):
            e = 0
            for jx in product(range(3), repeat=4):
                e = e + Q[ix[0], jx[0]] * Q[ix[1], jx[1]] * Q[ix[2], jx[2]] * Q[ix[3], jx[3]] * old[jx]
            V.eq(r[ix], e, "every index contracted with the transformation matrix")
        if how != "show":
            V.eq(t.frame.axes, B, "the tensor is in the new axes")
    else:
        P0 = V.np.einsum("pi,qj,rk,sl,pqrs->ijkl", A, A, A, A, t.array)
        if how == "show":
            r = t.show(g)
        elif how == "assign frame":
            t.frame = g
            r = t.array
        else:
            f.axes = B
            r = t.array
        V.eq(V.np.einsum("pi,qj,rk,sl,pqrs->ijkl", B, B, B, B, r), P0, "same physical quantity", tol=1e-5)

@case("show with a given transformation matrix", reps=20)
def showdcm(V):
    d = V.choice("d", [2, 3])
    kind = V.choice("kind", ["Vector", "Tensor2", "Tensor"])
    f = F(V).ReferenceFrame(V.nonsing("A", d))
    t = make(V, kind, "t", d, f)
    Q = V.nonsing("Q", d)
    r = t.show(dcm=Q)
    e = phys(t.array, V.np.array([[Q[j, i] for j in range(d)] for i in range(d)]), d, t.rank)
    phys_eq(V, {ix: r[ix if len(ix) > 1 else ix[0]] for ix in e}, e, "every index contracted with the given matrix")

@case("assigning a frame keeps the quantity", reps=60, budget=150)
def assign(V):
    kind, ds = pick(V, [("Vector", [2, 3]), ("Tensor2", [2, 3]), ("Tensor", [2]), ("Tensor rank 3", [2]), ("Tensor2x3", [3])])
    d = V.choice("d", ds)
    src = V.choice("source", CLS if d == 2 else CLS[:1])
    how = V.choice("how", ["frame", "array", "cartesian", "itself"])
    f = frame_of(V, src, "A", d)
    t = make(V, kind, "t", d, f)
    other = make(V, "Vector", "o", d, f)
    A, o0, P0 = V.copy(f.axes), V.copy(other.array), quantity(V, t)
    if how == "frame":
        g = F(V).ReferenceFrame(V.nonsing("B", d))
    elif how == "array":
        g = V.nonsing("B", d)
    elif how == "itself":
        g = f
    else:
        g = F(V).CartesianFrame(orthogonal(V, "B", d), assume_cartesian=True)
    t.frame = g
    if how == "array":
        V.eq(t.frame.axes, g, "the frame has the given axes")
    else:
        V.same(t.frame, g, "the object is in the assigned frame")
    phys_eq(V, quantity(V, t), P0, "same physical quantity")
    V.eq(f.axes, A, "the old frame is unchanged")
    V.eq(other.array, o0, "other objects in the old frame are untouched")
    # attached to the new frame only: modifying the old one must not touch it
    if d == 2 and kind in ("Vector", "Tensor2") and how != "itself":
        a1 = V.copy(t.array)
        f.axes = V.nonsing("C", d) if src == "ReferenceFrame" else orthogonal(V, "C", d)
        V.eq(t.array, a1, "no longer attached to the old frame")
        P1 = phys(o0, A, d, 1)
        phys_eq(V, quantity(V, other), P1, "the other object follows its frame")

def modify(V, f, d, how, tag, cls="ReferenceFrame"):
    """modify the frame in place; -> the frame object that now stands for it"""
    M = F(V)
    A = V.copy(f.axes)
    def new():
        return V.nonsing("X" + tag, d) if cls == "ReferenceFrame" else V.copy(frame_of(V, cls, "X" + tag, d).axes)
    def ns(B):
        """the new axes have to be independent"""
        from props.util import leibniz
        det = leibniz(B, d)
        if V.proof:
            V.c.declare_nonzero(det)
        else:
            V.assume(V.np.linalg.cond(V.np.array(B, dtype=float)) < 500)
    if how == "axes":
        f.axes = new()
        return f
    if how == "transposed axes":
        X = new()
        if cls == "RectangularFrame":
            X = V.np.array([[X[j, i] for j in range(d)] for i in range(d)])   # so that the transposed one is rectangular
        f.axes = X.T
        V.eq(f.axes, [[X[j, i] for j in range(d)] for i in range(d)], "axes as given")
        return f
    if how == "rotate":
        R = rotation(V, "r" + tag, d) if V.proof or d == 2 else None
        if V.proof or d == 2:
            with patched(M, rotation_matrix=lambda *a, **k: R):
                return f.orient("Body", [0, 0, 0], "XYZ")
        return f.orient("Body", [V.real("a%d%s" % (i, tag)) for i in range(3)], "XYZ")
    if how == "transpose":
        return f.transpose(inplace=True)
    if how == "*=":
        f *= V.choice("scale" + tag, [2, -4])
        return f
    if how == "/=":
        f /= V.choice("scale" + tag, [2, -4])
        return f
    X = V.nonsing("X" + tag, d)
    if how == "+=":
        ns(A + X)
        f += X
    elif how == "-=":
        ns(A - X)
        f -= X
    elif how == "@=":
        f @= X
    elif how == "*= array":
        ns(A * X)
        f *= X
    elif how == "out":
        ns(A + X)
        V.np.add(f, X, out=f) if not V.proof else __import__("numpy").add(f, X, out=(f,))
    return f

HOWS = ["axes", "transposed axes", "rotate", "transpose", "*=", "/=", "+=", "-=", "@=", "*= array", "out"]

@case("modifying a frame in place keeps every attached quantity", reps=120, budget=200)
def modified(V):
    d = V.choice("d", [2, 3])
    cls = V.choice("class", CLS if d == 2 else CLS[:2])
    how = V.choice("how", HOWS if cls == "ReferenceFrame" else [h for h in HOWS if h not in ("out", "transpose")])
    f = frame_of(V, cls, "A", d)
    g = F(V).ReferenceFrame(V.nonsing("G", d))
    kinds = ["Vector", "Tensor2"] if d == 2 else ["Vector"]
    if not V.proof:
        kinds = ["Vector", "Tensor2", "Tensor rank 3", "Vector"]
    obs = [make(V, k, "t%d" % i, d, f) for i, k in enumerate(kinds)]
    far = make(V, "Vector", "far", d, g)
    P0 = [quantity(V, o) for o in obs]
    far0, G0 = V.copy(far.array), V.copy(g.axes)
    r = modify(V, f, d, how, "", cls=cls)
    V.true(all(o.frame is r for o in obs), "every attached object is attached to the resulting frame")
    for o, p in zip(obs, P0):
        phys_eq(V, quantity(V, o), p, "same physical quantity", tol=1e-5)
    V.eq(far.array, far0, "objects in other frames untouched")
    V.eq(g.axes, G0, "other frames untouched")

@case("sequences of frame changes keep every quantity", reps=120, budget=250, note="all pairs of steps from an arbitrary state; longer sequences by induction")
def sequences(V):
    """state invariant: an object is attached to exactly the frame it reports; every step preserves it and the quantity"""
    d = 2
    n = 2 if V.proof else V.rng.randrange(2, 6)
    f = F(V).ReferenceFrame(V.nonsing("A", d))
    g = F(V).ReferenceFrame(V.nonsing("G", d))
    u, w = make(V, "Vector", "u", d, f), make(V, "Tensor2" if not V.proof else "Vector", "w", d, f)
    obs = [u, w]
    P0 = [quantity(V, o) for o in obs]
    steps = ["f axes", "g axes", "u to g", "w to g", "u to f", "copy u", "f +=", "f *=", "f @=", "deepcopy w", "w array to f"]
    for k in range(n):
        s = V.choice("step%d" % k, steps)
        if s == "f axes":
            f.axes = V.nonsing("X%d" % k, d)
        elif s == "g axes":
            g.axes = V.nonsing("X%d" % k, d)
        elif s == "u to g":
            u.frame = g
        elif s == "w to g":
            w.frame = g
        elif s == "u to f":
            u.frame = f
        elif s == "w array to f":
            w.frame = V.copy(f.axes)
        elif s == "copy u":
            obs.append(u.copy())
            P0.append(P0[0])
        elif s == "deepcopy w":
            obs.append(w.deepcopy())
            P0.append(P0[1])
        elif s == "f +=":
            f = modify(V, f, d, "+=", str(k))
        elif s == "f *=":
            f = modify(V, f, d, "*=", str(k))
        elif s == "f @=":
            f = modify(V, f, d, "@=", str(k))
        for o, p in zip(obs, P0):
            phys_eq(V, quantity(V, o), p, "same physical quantity after the sequence", tol=1e-4)

@case("copies denote the same quantity and are independent", reps=80)
def copies(V):
    kind, ds = pick(V, [("Vector", [2, 3]), ("Tensor2", [2, 3]), ("Tensor", [2]), ("Tensor rank 3", [2]), ("Tensor2x3", [3]), ("Tensor4", [3])])
    d = V.choice("d", ds)
    how = V.choice("how", ["copy", "deepcopy", "copy deep", "copy.copy", "copy.deepcopy"])
    f = frame_of(V, V.choice("source", CLS if d == 2 else CLS[:2]), "A", d)
    t = make(V, kind, "t", d, f)
    A, a = V.copy(f.axes), V.copy(t.array)
    r = {"copy": lambda: t.copy(), "deepcopy": lambda: t.deepcopy(), "copy deep": lambda: t.copy(deep=True), "copy.copy": lambda: cp.copy(t),
         "copy.deepcopy": lambda: cp.deepcopy(t)}[how]()
    V.true(type(r) is type(t), "same class")
    V.true(r is not t, "a new object")
    V.eq(r.array, a, "same components")
    V.eq(r.frame.axes, A, "in the same frame")
    V.true(r.rank == t.rank, "same rank")
    r *= 2
    V.eq(t.array, a, "changing the copy leaves the original")
    if how in ("deepcopy", "copy deep", "copy.deepcopy"):
        V.true(r.frame is not f, "a deep copy has a frame of its own")
        if kind != "Tensor4" or not V.proof:
            r.frame.axes = orthogonal(V, "C", d)
        V.eq(f.axes, A, "changing the copy's frame leaves the original frame")
        V.eq(t.array, a, "and the original's components")

@case("stacks of vectors: every item keeps its quantity", reps=50, level="bounded", note="two items in the proof")
def vstack(V):
    d = V.choice("d", [2, 3])
    n = 2 if V.proof else V.rng.randrange(1, 5)
    per = V.choice("frames", ["one", "per item"])
    a = V.arr("a", (n, d))
    if per == "one":
        A = V.nonsing("A", d)
        ax = [A] * n
        f = F(V).ReferenceFrame(A)
    else:
        ax = [V.nonsing("A%d" % k, d) for k in range(n)]
        f = F(V).ReferenceFrame(V.np.array(ax))
    t = Vec(V)(a, frame=f)
    how = V.choice("how", ["show", "ambient", "assign", "modify", "dual"])
    B = V.nonsing("B", d)
    P0 = [phys(a[k], ax[k], d, 1) for k in range(n)]
    if how == "show":
        r, bx = t.show(F(V).ReferenceFrame(B)), [B] * n
    elif how == "ambient":
        r, bx = t.show(), [V.np.array(I(d))] * n
    elif how == "assign":
        t.frame = F(V).ReferenceFrame(B)
        r, bx = t.array, [B] * n
    elif how == "dual":
        V.assume(per == "one")
        u = t.dual()
        r, bx = u.array, [u.frame.axes] * n
    else:
        if per == "one":
            f.axes = B
            bx = [B] * n
        else:
            bx = [B] + ax[1:]
            f.axes = V.np.array(bx)
        r = t.array
    for k in range(n):
        phys_eq(V, phys(r[k], bx[k], d, 1), P0[k], "every item denotes the same vector")

@case("stacks of tensors: every item keeps its quantity", reps=40, level="bounded", note="two items in the proof", budget=150)
def tstack(V):
    cls = V.choice("class", ["Tensor2", "Tensor2x3", "Tensor4x3"] if not V.proof else ["Tensor2"])
    d = 2 if V.proof else 3
    rank = 4 if cls == "Tensor4x3" else 2
    n = 2 if V.proof else V.rng.randrange(1, 4)
    items = V.arr("a", (n,) + (d,) * rank)
    A, B = V.nonsing("A", d), V.nonsing("B", d)
    f = F(V).ReferenceFrame(A)
    t = getattr(T(V), cls)(items, frame=f, bulk=True)
    how = V.choice("how", ["show", "ambient", "assign", "modify", "copy", "mul"])
    P0 = [phys(items[k], A, d, rank) for k in range(n)]
    if how == "show":
        r, X = t.show(F(V).ReferenceFrame(B)), B
    elif how == "ambient":
        r, X = t.show(), V.np.array(I(d))
    elif how == "assign":
        t.frame = F(V).ReferenceFrame(B)
        r, X = t.array, B
    elif how == "copy":
        u = t.deepcopy()
        r, X = u.array, u.frame.axes
    elif how == "mul":
        u = t * 2
        r, X = u.array, u.frame.axes
        P0 = [{k: 2 * v for k, v in p.items()} for p in P0]
    else:
        f.axes = B
        r, X = t.array, B
    for k in range(n):
        phys_eq(V, phys(r[k], X, d, rank), P0[k], "every item denotes the same tensor", tol=1e-5)
