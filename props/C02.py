"""C02: frame algebra."""
from pyvc.harness import case
from props.util import I, mm, leibniz, rotation, orthogonal, patched

def F(V):
    return V.lib("linalg.frame")

def tr(A, n):
    return [[A[j, i] for j in range(n)] for i in range(n)]

def dims(V):
    return V.choice("d", [1, 2, 3])

def lay(V, a):
    if V.proof:
        return a
    np = V.np
    k = V.rng.randrange(3)
    if k == 1:
        a = np.asfortranarray(a)
    elif k == 2:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[..., ::2] = a
        a = b[..., ::2]
    return a

def arr(V, x):
    return V.np.array(x)

@case("transformation between two frames maps components of the same vector", reps=40, note="dimension 1 to 3, all entries symbolic")
def dcm(V):
    d = dims(V)
    A, B = V.nonsing("A", d), V.nonsing("B", d)
    f, g = F(V).ReferenceFrame(lay(V, A)), F(V).ReferenceFrame(lay(V, B))
    form = V.choice("form", ["target", "source"])
    Q = f.dcm(target=g) if form == "target" else g.dcm(source=f)
    V.shape(Q, (d, d), "shape")
    # a vector with components c in f is c.A; its components Q c in g have to combine with B to the same
    V.eq(mm(arr(V, tr(B, d)), Q, d), tr(A, d), "same physical vector in both frames", tol=1e-6)
    V.eq(f.axes, A, "the frame is unchanged")
    V.eq(g.axes, B, "the other frame is unchanged")
    V.eq(f.dcm(), A, "without arguments: the axes")
    S = f.show(g)
    V.eq(mm(S, B, d), A, "show: components of the base vectors in the other frame", tol=1e-6)
    V.eq(f.show(), A, "show without a target: ambient components")

@case("transformations: identity, reversal, composition", reps=40, note="dimension 1 to 3, all entries symbolic")
def compose(V):
    d = dims(V)
    A, B, C = V.nonsing("A", d), V.nonsing("B", d), V.nonsing("C", d)
    f, g, h = (F(V).ReferenceFrame(X) for X in (A, B, C))
    V.eq(f.dcm(target=f), I(d), "to itself: identity", tol=1e-6)
    V.eq(f.dcm(source=f), I(d), "from itself: identity", tol=1e-6)
    fg, gf = f.dcm(target=g), g.dcm(target=f)
    V.eq(mm(fg, gf, d), I(d), "reversed direction is the inverse", tol=1e-5)
    V.eq(g.dcm(source=f), fg, "source and target forms agree", tol=1e-6)
    if d < 3 or not V.proof:
        V.eq(mm(g.dcm(target=h), fg, d), f.dcm(target=h), "composition along a chain", tol=1e-5)

@case("composition along a chain in three dimensions", concrete=False, budget=100)
def compose3(V):
    """by the contract of dcm (target^T Q = source^T, first case): the two factors satisfy C^T P Q = B^T Q = A^T"""
    d = 3
    A, B, C = V.nonsing("A", d), V.nonsing("B", d), V.nonsing("C", d)
    f, g, h = (F(V).ReferenceFrame(X) for X in (A, B, C))
    P_, Q = g.dcm(target=h), f.dcm(target=g)
    V.eq(mm(arr(V, tr(C, d)), P_, d), tr(B, d), "first link")
    V.eq(mm(arr(V, tr(B, d)), Q, d), tr(A, d), "second link")
    V.eq(mm(arr(V, tr(C, d)), f.dcm(target=h), d), tr(A, d), "direct link")

@case("dual frame: biorthogonal, involutive, inverse metric", reps=40, note="dimension 1 to 3, all entries symbolic")
def dual(V):
    d = dims(V)
    A = V.nonsing("A", d)
    f = F(V).ReferenceFrame(lay(V, A))
    D = f.dual()
    V.true(isinstance(D, F(V).ReferenceFrame), "a frame")
    V.eq(mm(D.axes, arr(V, tr(A, d)), d), I(d), "biorthogonal", tol=1e-6)
    V.eq(f.axes, A, "the frame is unchanged")
    V.eq(D.dual().axes, A, "the dual of the dual is the frame", tol=1e-6)
    G, H = f.Gram(), D.Gram()
    V.eq(G, mm(A, arr(V, tr(A, d)), d), "metric: products of the base vectors")
    V.eq(mm(G, H, d), I(d), "the metric of the dual is the inverse metric", tol=1e-5)
    V.true(D is not f, "a new frame")

@case("volume: absolute determinant", reps=30)
def volume(V):
    d = dims(V)
    A = V.nonsing("A", d)
    v = F(V).ReferenceFrame(A).volume()
    V.eq(v * v, leibniz(A, d) ** 2, "volume squared is the squared determinant", tol=1e-6)
    V.true(v >= 0, "nonnegative")

@case("frames given by stacks: item by item", reps=30, level="bounded", note="two items per stack in the proof")
def stacks(V):
    d = V.choice("d", [2, 3])
    n = 2 if V.proof else V.rng.randrange(1, 4)
    items = [V.nonsing("A%d" % k, d) for k in range(n)]
    A = V.np.array(items)
    B = V.nonsing("B", d)
    f, g = F(V).ReferenceFrame(A), F(V).ReferenceFrame(B)
    D, G, Q = f.dual().axes, f.Gram(), f.dcm(target=g)
    for k in range(n):
        V.eq(mm(D[k], arr(V, tr(items[k], d)), d), I(d), "dual of every item", tol=1e-6)
        V.eq(G[k], mm(items[k], arr(V, tr(items[k], d)), d), "metric of every item")
        V.eq(mm(arr(V, tr(B, d)), Q[k], d), tr(items[k], d), "transformation of every item", tol=1e-6)
    V.eq(f.axes, A, "unchanged")

ROT = [("Body", "XYZ"), ("Body", "ZXZ"), ("Space", "XYZ"), ("Space", "zyx"), ("Axis", ""), ("Quaternion", ""), ("Body", "123")]

def elementary(V, ax, t):
    np = V.np
    c, s = np.cos(t), np.sin(t)
    return {"X": np.array([[1, 0, 0], [0, c, -s], [0, s, c]]), "Y": np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]),
            "Z": np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])}[ax]

def active_rotation(V):
    """(arguments, the matrix that rotates the base vectors), independent of sympy"""
    np, r = V.np, V.rng
    kind, order = V.choice("rotation", ROT)
    if kind in ("Body", "Space"):
        am = [V.real("angle%d" % i) for i in range(3)]
        if r.random() < 0.2:
            am = [0.0, am[1], np.pi]
        seq = [{"1": "X", "2": "Y", "3": "Z"}.get(x, x.upper()) for x in order]
        E = [elementary(V, a, t) for a, t in zip(seq, am)]
        R = E[0] @ E[1] @ E[2] if kind == "Body" else E[2] @ E[1] @ E[0]
        return (kind, am, order), R
    if kind == "Axis":
        import sympy.physics.vector as pv
        t = V.real("angle0")
        ax = V.choice("axis", ["x", "y", "z"])
        S = pv.ReferenceFrame("S")
        am = [t, getattr(S, ax)]
        return None, None
    w = [V.real("q%d" % i) for i in range(4)]
    n = sum(x * x for x in w) ** 0.5
    V.assume(n > 1e-3)
    w = [x / n for x in w]
    a, b, c, d = w
    R = np.array([[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
                  [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
                  [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]])
    return (kind, w, ""), R

@case("rotation_matrix: the matrix of the named rotation", proof=False, reps=25)
def rotmat(V):
    args, R = active_rotation(V)
    V.assume(args is not None)
    U = V.lib("linalg.utils")
    M = U.rotation_matrix(args[0], args[1], args[2])
    V.eq(M, R.T, "rows are the rotated base vectors", tol=1e-9)
    V.eq(M @ M.T, V.np.eye(3), "orthogonal", tol=1e-9)

@case("rotating a frame multiplies its axes and preserves the metric", reps=25)
def rotate(V):
    """proof: the rotation matrix is any rotation (contract of rotation_matrix, which is checked against sympy-free formulas)"""
    A = V.nonsing("A", 3)
    f = F(V).ReferenceFrame(A)
    how = V.choice("how", ["orient", "orient_new", "rotate", "rotate copy", "rotate_new"])
    if V.proof:
        R = rotation(V, "q", 3)
        args = ("Body", [0, 0, 0], "XYZ")
        pm = patched(F(V), rotation_matrix=lambda *a, **k: V.np.array(tr(R, 3)))
    else:
        args, R = active_rotation(V)
        V.assume(args is not None)
        pm = patched(F(V))
    G = V.copy(f.Gram())
    with pm:
        if how == "orient":
            r = f.orient(*args)
        elif how == "orient_new":
            r = f.orient_new(*args)
        elif how == "rotate":
            r = f.rotate(*args)
        elif how == "rotate copy":
            r = f.rotate(*args, inplace=False)
        else:
            r = f.rotate_new(*args)
    new = mm(A, arr(V, tr(R, 3)), 3)
    V.eq(r.axes, new, "every base vector is rotated", tol=1e-7)
    if how in ("orient", "rotate"):
        V.same(r, f, "in place")
    else:
        V.true(r is not f, "a new frame")
        V.eq(f.axes, A, "the original is unchanged")
    V.eq(r.Gram(), G, "metric preserved", tol=1e-6)

@case("orient_new without a rotation is a copy", reps=5)
def orient_none(V):
    A = V.nonsing("A", 3)
    f = F(V).ReferenceFrame(A)
    r = f.orient_new()
    V.eq(r.axes, A, "same axes")
    r.axes = V.nonsing("B", 3)
    V.eq(f.axes, A, "independent of the original")

@case("Cartesian and rectangular frames agree with the general definitions", reps=40)
def special(V):
    d = V.choice("d", [2, 3])
    R = orthogonal(V, "q", d)
    kind = V.choice("kind", ["cartesian", "rectangular"])
    if kind == "rectangular":
        s = [V.real("s%d" % i) for i in range(d)]
        for x in s:
            if V.proof:
                V.c.declare_nonzero(x)
            else:
                V.assume(abs(x) > 1e-2)
        A = arr(V, [[s[i] * R[i, j] for j in range(d)] for i in range(d)])
        f = F(V).RectangularFrame(A, assume_rectangular=True)
    else:
        A = R
        f = F(V).CartesianFrame(A, assume_cartesian=True)
    g = F(V).ReferenceFrame(A)
    V.eq(f.axes, A, "axes")
    V.eq(f.Gram(), g.Gram(), "metric", tol=1e-7)
    V.eq(f.dual().axes, g.dual().axes, "dual", tol=1e-6)
    v, w = f.volume(), g.volume()
    V.eq(v * v, w * w, "volume", tol=1e-7)
    B = V.nonsing("B", d)
    h = F(V).ReferenceFrame(B)
    if d == 2 or not V.proof:
        V.eq(f.dcm(target=h), g.dcm(target=h), "transformation to another frame", tol=1e-6)
        V.eq(h.dcm(target=f), h.dcm(target=g), "transformation from another frame", tol=1e-6)
    V.true(f.is_rectangular, "rectangular")
    V.true(f.is_independent, "independent")
    if kind == "cartesian":
        V.true(f.is_cartesian, "cartesian")

@case("construction of special frames accepts exactly what they stand for", reps=60)
def construct(V):
    """in the proof 'close' means equal"""
    d = V.choice("d", [2, 3])
    kind = V.choice("kind", ["good cartesian", "good rectangular", "scaled", "skew"])
    R = orthogonal(V, "q", d)
    M = F(V)
    if kind == "good cartesian":
        V.eq(M.CartesianFrame(R).axes, R, "an orthonormal frame is Cartesian")
        V.eq(M.RectangularFrame(R).axes, R, "an orthonormal frame is rectangular")
        g = M.ReferenceFrame(R)
        V.true(g.is_cartesian, "is_cartesian")
        V.true(g.is_rectangular, "is_rectangular")
    elif kind in ("good rectangular", "scaled"):
        s = [V.real("s%d" % i) for i in range(d)]
        if V.proof:
            V.assume(s[0] > 1)
            for x in s[1:]:
                V.c.declare_nonzero(x)
        else:
            s[0] = 1.1 + abs(s[0])
            V.assume(min(map(abs, s)) > 1e-2)
        A = arr(V, [[s[i] * R[i, j] for j in range(d)] for i in range(d)])
        if kind == "scaled":
            f, e = V.attempt(lambda: M.CartesianFrame(A), AssertionError)
            V.true(e is not None, "base vectors not of unit length are rejected")
            return
        V.eq(M.RectangularFrame(A).axes, A, "orthogonal base vectors")
        V.true(M.ReferenceFrame(A).is_rectangular, "is_rectangular")
    else:
        A = V.nonsing("A", d)
        g01 = sum(A[0, k] * A[1, k] for k in range(d))
        if V.proof:
            V.assume(g01 > 0)
        else:
            V.assume(abs(g01) > 1e-3 * (1 + float(V.np.sum(V.np.asarray(A) ** 2))))
        f, e = V.attempt(lambda: M.RectangularFrame(A), AssertionError)
        V.true(e is not None, "a skew frame is not rectangular")
        f, e = V.attempt(lambda: M.CartesianFrame(A), AssertionError)
        V.true(e is not None, "a skew frame is not Cartesian")
        V.true(not M.ReferenceFrame(A).is_rectangular, "is_rectangular")
        V.true(not M.ReferenceFrame(A).is_cartesian, "is_cartesian")

@case("normalising a rectangular frame makes it Cartesian", proof=False, reps=20)
def normalised(V):
    d = V.choice("d", [2, 3])
    R = orthogonal(V, "q", d)
    s = V.np.array([0.1 + abs(V.real("s%d" % i)) for i in range(d)])
    f = F(V).CartesianFrame(s[:, None] * R, normalize=True)
    V.eq(f.axes, R, "unit vectors in the same directions", tol=1e-9)

OPS = {"*": lambda a, b: a * b, "/": lambda a, b: a / b, "+": lambda a, b: a + b, "-": lambda a, b: a - b, "@": lambda a, b: a @ b,
       "**": lambda a, b: a ** b}

def expected(V, op, A, B, d):
    if op == "@":
        return mm(A, B, d)
    if op == "**":
        return [[A[i, j] * A[i, j] for j in range(d)] for i in range(d)]
    if not hasattr(B, "shape") or B.shape == ():
        return [[OPS[op](A[i, j], B) for j in range(d)] for i in range(d)]
    return [[OPS[op](A[i, j], B[i, j]) for j in range(d)] for i in range(d)]

@case("out-of-place arithmetic yields a new frame and leaves the original", reps=60)
def outofplace(V):
    d = V.choice("d", [2, 3])
    cls = V.choice("class", ["ReferenceFrame", "RectangularFrame", "CartesianFrame"])
    op = V.choice("op", list(OPS))
    A = orthogonal(V, "q", d) if cls != "ReferenceFrame" else V.nonsing("A", d)
    f = {"ReferenceFrame": lambda: F(V).ReferenceFrame(A), "RectangularFrame": lambda: F(V).RectangularFrame(A, assume_rectangular=True),
         "CartesianFrame": lambda: F(V).CartesianFrame(A, assume_cartesian=True)}[cls]()
    what = V.choice("operand", ["scalar", "array"])
    if op == "**":
        B = 2
    elif op == "@":
        B = V.nonsing("B", d)
    elif what == "scalar":
        B = V.choice("scalar", [2, 4, -8])
    else:
        V.assume(op != "/")
        B = V.mat("B", d)
    r = OPS[op](f, B)
    V.eq(r.axes, expected(V, op, A, B, d), "axes of the result", tol=1e-7)
    V.true(isinstance(r, F(V).ReferenceFrame), "a frame")
    V.true(r is not f, "a new frame")
    V.eq(f.axes, A, "the original is unchanged")
    if not (op in "*/" and what == "scalar"):
        V.true(type(r) is F(V).ReferenceFrame, "no regularity claimed for the result")
    else:
        V.true(type(r) is not F(V).CartesianFrame, "a scaled frame is not called Cartesian")

IOPS = {"*": "__imul__", "/": "__itruediv__", "+": "__iadd__", "-": "__isub__", "@": "__imatmul__", "**": "__ipow__"}

@case("in-place arithmetic sets the axes and keeps no false claim", reps=60)
def inplace(V):
    d = V.choice("d", [2, 3])
    cls = V.choice("class", ["ReferenceFrame", "RectangularFrame", "CartesianFrame"])
    op = V.choice("op", list(OPS))
    A = orthogonal(V, "q", d) if cls != "ReferenceFrame" else V.nonsing("A", d)
    f = {"ReferenceFrame": lambda: F(V).ReferenceFrame(A), "RectangularFrame": lambda: F(V).RectangularFrame(A, assume_rectangular=True),
         "CartesianFrame": lambda: F(V).CartesianFrame(A, assume_cartesian=True)}[cls]()
    what = V.choice("operand", ["scalar", "array"])
    if op == "**":
        B = 2
    elif op == "@":
        B = V.nonsing("B", d)
    elif what == "scalar":
        B = V.choice("scalar", [2, 4, -8])
    else:
        V.assume(op != "/")
        B = V.mat("B", d)
    r = getattr(f, IOPS[op])(B)
    V.eq(r.axes, expected(V, op, A, B, d), "axes of the result", tol=1e-7)
    if cls == "ReferenceFrame":
        V.same(r, f, "in place")
    if not (op in "*/" and what == "scalar"):
        V.true(type(r) is F(V).ReferenceFrame, "no regularity claimed for the result")
    else:
        V.true(type(r) is not F(V).CartesianFrame, "a scaled frame is not called Cartesian")

@case("transposition, copies and assigned axes", reps=40)
def transpcopy(V):
    d = V.choice("d", [2, 3])
    A, B = V.nonsing("A", d), V.nonsing("B", d)
    how = V.choice("how", ["T", "transpose", "transpose in place", "copy", "deepcopy", "axes", "axes transposed", "axes list", "wrong shape"])
    f = F(V).ReferenceFrame(A)
    if how in ("T", "transpose"):
        r = f.T if how == "T" else f.transpose()
        V.eq(r.axes, tr(A, d), "transposed axes")
        V.eq(f.axes, A, "the original is unchanged")
    elif how == "transpose in place":
        V.same(f.transpose(inplace=True), f, "in place")
        V.eq(f.axes, tr(A, d), "transposed axes")
    elif how in ("copy", "deepcopy"):
        r = getattr(f, how)()
        V.true(type(r) is type(f), "same class")
        V.eq(r.axes, A, "same axes")
        r.axes = B
        V.eq(f.axes, A, "the original is unchanged by changes of the copy")
        r = getattr(f, how)()
        f.axes = B
        V.eq(r.axes, A, "the copy is unchanged by changes of the original")
    elif how == "wrong shape":
        r, e = V.attempt(lambda: setattr(f, "axes", V.np.zeros((d + 1, d + 1))), ValueError)
        V.true(e is not None, "axes of another shape are rejected")
        V.eq(f.axes, A, "unchanged")
    else:
        C = V.copy(B)
        given = {"axes": lambda: lay(V, C), "axes transposed": lambda: C.T, "axes list": lambda: [list(r) for r in C]}[how]()
        f.axes = given
        V.eq(f.axes, tr(B, d) if how == "axes transposed" else B, "the axes are those given")
        C[0, 0] = C[0, 0] + 1
        V.eq(f.axes, tr(B, d) if how == "axes transposed" else B, "later changes of the caller's array do not reach the frame")

@case("construction: from dimensions, arrays and lists", reps=30)
def build(V):
    d = V.choice("d", [2, 3])
    M = F(V)
    how = V.choice("how", ["dim", "dim tuple", "stack", "eye", "array", "int array", "transposed"])
    if how == "dim":
        V.eq(M.ReferenceFrame(dim=d).axes, I(d), "standard basis")
    elif how == "dim tuple":
        V.eq(M.ReferenceFrame(dim=(d,)).axes, I(d), "standard basis")
    elif how == "stack":
        V.eq(M.ReferenceFrame(dim=(4, d)).axes, [I(d)] * 4, "standard basis for every item")
    elif how == "eye":
        V.eq(M.ReferenceFrame.eye(dim=d).axes, I(d), "standard basis")
        V.eq(M.CartesianFrame.eye(dim=d).axes, I(d), "standard basis")
    else:
        A = V.nonsing("A", d)
        if how == "int array" and not V.proof:
            A = V.np.round(5 * A).astype(int)
        B = A.T if how == "transposed" else A
        old = V.copy(B)
        f = M.ReferenceFrame(B)
        V.eq(f.axes, old, "axes as given")
        f.axes = V.nonsing("C", d)
        V.eq(B, old, "the caller's array is not modified")

def everything(V, M, f, B, d, note):
    """all derived quantities of a frame whose axes are B"""
    V.eq(f.axes, B, "axes" + note)
    V.eq(f.Gram(), mm(B, arr(V, tr(B, d)), d), "metric" + note, tol=1e-6)
    V.eq(mm(f.dual().axes, arr(V, tr(B, d)), d), I(d), "dual" + note, tol=1e-6)
    v = f.volume()
    V.eq(v * v, leibniz(B, d) ** 2, "volume" + note, tol=1e-6)
    V.eq(f.show(), B, "show" + note)
    e = M.ReferenceFrame(dim=d)
    V.eq(f.dcm(target=e), tr(B, d), "transformation to the standard frame" + note)
    V.eq(mm(arr(V, tr(B, d)), f.dcm(source=e), d), I(d), "transformation from the standard frame" + note, tol=1e-6)

@case("derived quantities follow every change of the axes", reps=60, budget=150, note="dimension two in the proof; everything is asked for before and after each change")
def follow(V):
    d = 2 if V.proof else V.choice("d", [2, 3])
    M = F(V)
    cls = V.choice("class", ["ReferenceFrame", "RectangularFrame", "CartesianFrame"])
    f = getattr(M, cls)(orthogonal(V, "q", d)) if cls != "ReferenceFrame" else M.ReferenceFrame(V.nonsing("A", d))
    everything(V, M, f, V.copy(f.axes), d, "")
    for step in range(1 if V.proof else 3):
        t = "%d" % step
        B = V.copy(f.axes)
        kind = type(f).__name__
        how = V.choice("how" + t, ["axes", "*=", "/=", "@=", "+=", "orient", "transpose"] + (["out"] if kind == "ReferenceFrame" else []))
        if how == "axes":
            B = V.nonsing("B" + t, d) if kind == "ReferenceFrame" else orthogonal(V, "p" + t, d)
            f.axes = V.copy(B)
        elif how in ("*=", "/="):
            f = f.__imul__(2) if how == "*=" else f.__itruediv__(4)
            B = B * 2 if how == "*=" else B / 4
        elif how == "@=":
            X = V.nonsing("X" + t, d)
            f = f.__imatmul__(X)
            B = arr(V, mm(B, X, d))
        elif how in ("+=", "out"):
            X = V.mat("X" + t, d)
            B = B + X
            if V.proof:
                V.c.declare_nonzero(leibniz(B, d))
            else:
                V.assume(V.np.linalg.cond(B) < 500)
            if how == "+=":
                f = f.__iadd__(X)
            elif V.proof:
                __import__("numpy").add(f, X, out=(f,))
            else:
                V.np.add(f, X, out=f)
        elif how == "transpose":
            V.assume(kind != "RectangularFrame")
            f.transpose(inplace=True)
            B = arr(V, tr(B, d))
        else:
            R = rotation(V, "r" + t, d)
            with patched(M, rotation_matrix=lambda *a, **k: arr(V, tr(R, d))):
                f.orient("Body", [0, 0, 0], "XYZ")
            B = arr(V, mm(B, arr(V, tr(R, d)), d))
        if not V.proof:
            V.assume(V.np.linalg.cond(B) < 1e4)
        everything(V, M, f, B, d, " after a change")

@case("special frames reject axes they do not stand for", reps=40)
def rejected(V):
    """in the proof 'close' means equal"""
    d = V.choice("d", [2, 3])
    M = F(V)
    cls = V.choice("class", ["RectangularFrame", "CartesianFrame"])
    R = orthogonal(V, "q", d)
    f = getattr(M, cls)(R)
    s = [V.real("s%d" % i) for i in range(d)]
    what = V.choice("axes", ["skew", "scaled", "orthonormal"])
    if what == "skew":
        B = V.nonsing("B", d)
        g01 = sum(B[0, k] * B[1, k] for k in range(d))
        V.assume(g01 > 0 if V.proof else abs(g01) > 1e-3 * (1 + float(V.np.sum(V.np.asarray(B) ** 2))))
    elif what == "scaled":
        Q = orthogonal(V, "p", d)
        if V.proof:
            V.assume(s[0] > 1)
            for x in s[1:]:
                V.c.declare_nonzero(x)
        else:
            s[0] = 1.1 + abs(s[0])
            V.assume(min(map(abs, s)) > 1e-2)
        B = arr(V, [[s[i] * Q[i, j] for j in range(d)] for i in range(d)])
    else:
        B = orthogonal(V, "p", d)
    ok = what == "orthonormal" or (what == "scaled" and cls == "RectangularFrame")
    _, e = V.attempt(lambda: setattr(f, "axes", B), ValueError)
    V.true((e is None) == ok, "axes are accepted exactly if they are of the kind the class stands for")
    V.eq(f.axes, B if ok else R, "axes afterwards")
