"""C03: tensor algebra is independent of frames and leaves operands untouched."""
from itertools import product
from pyvc.harness import case
from props.util import I, mm, rotation, orthogonal, patched, perm_sign
from props.C01 import F, T, Vec, phys, phys_eq, quantity, make, frame_of, CLS, KINDS

EPS = {p: perm_sign(p) for p in product(range(3), repeat=3) if len(set(p)) == 3}

def ambient_result(V, r, d, rank):
    """ambient components of what the operation returned"""
    return phys(r.array, r.frame.axes, d, rank)

class Watch:
    """operands and frames before the operation"""
    def __init__(self, V, *objs):
        self.V, self.objs = V, objs
        self.state = [(V.copy(o.array), o.frame, V.copy(o.frame.axes)) for o in objs]
    def unchanged(self, but=None):
        V = self.V
        for o, (a, f, ax) in zip(self.objs, self.state):
            if o is not but:
                V.eq(o.array, a, "operand unchanged")
            V.same(o.frame, f, "operand stays in its frame")
            V.eq(f.axes, ax, "operand's frame unchanged")
    def separate(self, r):
        """changing the result does not reach the operands"""
        V = self.V
        r._array[...] = r._array * 3 + 1
        self.unchanged()

def operand(V, kind, name, d, cls, frame=None):
    f = frame_of(V, cls, "F" + name, d) if frame is None else frame
    return make(V, kind, name, d, f)

def two(V, kind, d, kinds2=None):
    """two operands, in frames of any class, the same frame or different ones"""
    how = V.choice("frames", ["different", "same object", "equal axes", "cartesian and skew", "rectangular and skew"] if d == 2 or not V.proof else ["different", "same object"])
    c1 = {"cartesian and skew": "CartesianFrame", "rectangular and skew": "RectangularFrame"}.get(how, "ReferenceFrame")
    a = operand(V, kind, "a", d, c1)
    if how == "same object":
        b = operand(V, kinds2 or kind, "b", d, None, frame=a.frame)
    elif how == "equal axes":
        b = operand(V, kinds2 or kind, "b", d, None, frame=F(V).ReferenceFrame(V.copy(a.frame.axes)))
    else:
        b = operand(V, kinds2 or kind, "b", d, "ReferenceFrame")
    return a, b

def kd(V, opts):
    kind = V.choice("kind", [k for k, _ in opts])
    return kind, V.choice("d", dict(opts)[kind])

@case("sum and difference", reps=80, budget=200)
def addsub(V):
    kind, d = kd(V, [("Vector", [1, 2, 3]), ("Tensor2", [2, 3]), ("Tensor", [2]), ("Tensor rank 3", [2]), ("Tensor2x3", [3])])
    a, b = two(V, kind, d)
    op = V.choice("op", ["+", "-"])
    Pa, Pb = quantity(V, a), quantity(V, b)
    w = Watch(V, a, b)
    r = a + b if op == "+" else a - b
    V.true(type(r) is type(a), "same class")
    V.true(r is not a and r is not b, "a new object")
    s = 1 if op == "+" else -1
    phys_eq(V, ambient_result(V, r, d, a.rank), {k: Pa[k] + s * Pb[k] for k in Pa}, "a %s b on ambient components" % op)
    w.unchanged()
    V.true(r.frame is not b.frame or a.frame is b.frame, "not attached to the right operand's frame")
    w.separate(r)

@case("sum and difference of fourth order tensors", reps=10, budget=100)
def addsub4(V):
    d = 3
    A = V.nonsing("A", d)
    f = F(V).ReferenceFrame(A)
    cls = V.choice("class", ["Tensor4", "Tensor4x3"])
    a = getattr(T(V), cls)(V.arr("a", (3,) * 4), frame=f)
    g = f if V.proof else F(V).ReferenceFrame(V.nonsing("B", d))
    b = getattr(T(V), cls)(V.arr("b", (3,) * 4), frame=g)
    a0, b0, G = V.copy(a.array), V.copy(b.array), V.copy(g.axes)
    s = V.choice("sign", [1, -1])
    if V.proof:
        # contract of show (proved in C01): the components of the same tensor in the frame asked for
        sh = V.arr("s", (3,) * 4)
        asked = []
        def show(self, target=None, *, dcm=None):
            asked.append((self, target))
            return V.np.array(sh)
        with patched(T(V).Tensor, show=show):
            r = a + b if s == 1 else a - b
        V.true(len(asked) == 1 and asked[0][0] is b and asked[0][1] is f, "the right operand is shown in the left operand's frame")
        V.eq(r.array, a0 + s * sh, "sum of the components")
        V.eq(r.frame.axes, A, "in the left operand's frame")
    else:
        r = a + b if s == 1 else a - b
        ein = lambda M, c: V.np.einsum("pi,qj,rk,sl,pqrs->ijkl", M, M, M, M, c)
        V.eq(ein(r.frame.axes, r.array), ein(A, a0) + s * ein(G, b0), "on ambient components", tol=1e-5)
    V.eq(a.array, a0, "operand unchanged")
    V.eq(b.array, b0, "operand unchanged")
    V.eq(f.axes, A, "frame unchanged")
    V.eq(g.axes, G, "frame unchanged")

@case("scalar multiples, quotients and negation", reps=60)
def scal(V):
    kind, d = kd(V, [("Vector", [1, 2, 3]), ("Tensor2", [2, 3]), ("Tensor", [2]), ("Tensor rank 3", [2]), ("Tensor2x3", [3]), ("Tensor4", [3])])
    cls = V.choice("class", CLS if d == 2 else CLS[:1])
    a = operand(V, kind, "a", d, cls)
    op = V.choice("op", ["*", "/", "neg", "np.negative"])
    s = V.choice("s", [3, -2, 0.5])
    w = Watch(V, a)
    a0, A = V.copy(a.array), V.copy(a.frame.axes)
    if op == "*":
        r, e = a * s, a0 * s
    elif op == "/":
        r, e = a / s, a0 / s
    elif op == "neg":
        r, e = -a, -a0
    else:
        r, e = V.np.negative(a), -a0
    V.true(type(r) is type(a), "same class")
    V.true(r.rank == a.rank, "same rank")
    V.eq(r.array, e, "the operation on the components")
    V.eq(r.frame.axes, A, "in the same axes")
    w.unchanged()
    w.separate(r)

@case("in-place sum and difference", reps=80, budget=200)
def inplace(V):
    kind, d = kd(V, [("Vector", [1, 2, 3]), ("Tensor2", [2, 3]), ("Tensor", [2]), ("Tensor rank 3", [2])])
    op = V.choice("op", ["+=", "-="])
    s = 1 if op == "+=" else -1
    what = V.choice("right", ["tensor", "itself"])
    if what == "itself":
        a = operand(V, kind, "a", d, "ReferenceFrame")
        b = a
    else:
        a, b = two(V, kind, d)
    third = make(V, "Vector", "c", d, a.frame)
    Pa, Pb = quantity(V, a), quantity(V, b)
    w = Watch(V, a, b, third)
    x = a
    if op == "+=":
        x += b
    else:
        x -= b
    V.same(x, a, "the same object")
    phys_eq(V, ambient_result(V, a, d, a.rank), {k: Pa[k] + s * Pb[k] for k in Pa}, "a %s b on ambient components" % op)
    w.unchanged(but=a)

@case("in-place operations with numbers", reps=60)
def inplace_num(V):
    kind, d = kd(V, [("Vector", [1, 2, 3]), ("Tensor2", [2, 3]), ("Tensor rank 3", [2]), ("Tensor4", [3])])
    op = V.choice("op", ["*=", "/=", "+=", "-="])
    s = V.choice("s", [3, -2, 0.5])
    a = operand(V, kind, "a", d, V.choice("class", CLS if d == 2 else CLS[:1]))
    third = make(V, "Vector", "c", d, a.frame)
    w = Watch(V, a, third)
    a0 = V.copy(a.array)
    x = a
    if op == "*=":
        x *= s
        e = a0 * s
    elif op == "/=":
        x /= s
        e = a0 / s
    elif op == "+=":
        x += s
        e = a0 + s
    else:
        x -= s
        e = a0 - s
    V.same(x, a, "the same object")
    V.eq(a.array, e, "the operation the symbol names, on every component")
    w.unchanged(but=a)

def call(V, name, a, b, **kw):
    L = V.lib("linalg.utils")
    k = V.choice("through", ["library", "numpy"]) if not kw else "library"
    return getattr(L, name)(a, b, **kw) if k == "library" else getattr(V.np, name)(a, b, **kw)

@case("dot product of vectors", reps=40, budget=150)
def dot11(V):
    d = V.choice("d", [1, 2, 3])
    a, b = two(V, "Vector", d)
    Pa, Pb = quantity(V, a), quantity(V, b)
    w = Watch(V, a, b)
    r = call(V, "dot", a, b)
    V.eq(r, sum(Pa[k] * Pb[k] for k in Pa), "sum of the products of ambient components", tol=1e-6)
    w.unchanged()

@case("dot products of vectors and second order tensors", reps=80, budget=250)
def dot2(V):
    which = V.choice("which", ["tensor.vector", "vector.tensor", "tensor.tensor"])
    d = V.choice("d", [2, 3])
    kinds = {"tensor.vector": ("Tensor2", "Vector"), "vector.tensor": ("Vector", "Tensor2"), "tensor.tensor": ("Tensor2", "Tensor2")}[which]
    if not V.proof and d == 3 and V.choice("3d class", [0, 1]):
        kinds = tuple("Tensor2x3" if k == "Tensor2" else k for k in kinds)
    a, b = two(V, kinds[0], d, kinds[1])
    out = V.choice("result frame", ["default", "given"] if d == 2 else ["default"])
    Pa, Pb = quantity(V, a), quantity(V, b)
    w = Watch(V, a, b)
    kw = {}
    if out == "given":
        C = V.nonsing("C", d)
        kw["frame"] = F(V).ReferenceFrame(C)
    r = call(V, "dot", a, b, **kw)
    if which == "tensor.vector":
        e = {(i,): sum(Pa[i, k] * Pb[(k,)] for k in range(d)) for i in range(d)}
    elif which == "vector.tensor":
        e = {(i,): sum(Pa[(k,)] * Pb[k, i] for k in range(d)) for i in range(d)}
    else:
        e = {(i, j): sum(Pa[i, k] * Pb[k, j] for k in range(d)) for i in range(d) for j in range(d)}
    rank = 2 if which == "tensor.tensor" else 1
    phys_eq(V, ambient_result(V, r, d, rank), e, "contraction of ambient components", tol=1e-5)
    V.true(r.rank == rank, "rank of the result")
    w.unchanged()
    if out == "given":
        V.same(r.frame, kw["frame"], "in the frame asked for")
        V.eq(r.frame.axes, C, "which is unchanged")
    w.separate(r)

@case("contraction of general tensors over given axes", reps=50, budget=200)
def contraction(V):
    ra, rb = V.choice("ranks", [(3, 1), (3, 2), (2, 3), (3, 3)] if not V.proof else [(3, 1), (3, 2), (2, 3)])
    d = 2
    A, B = V.nonsing("A", d), V.nonsing("B", d)
    f, g = F(V).ReferenceFrame(A), F(V).ReferenceFrame(B)
    def mk(n, r, fr):
        c = V.arr(n, (d,) * r)
        return (Vec(V) if r == 1 else T(V).Tensor2 if r == 2 else T(V).Tensor)(c, frame=fr)
    a, b = mk("a", ra, f), mk("b", rb, g)
    ax = (V.choice("axis a", list(range(ra))), V.choice("axis b", list(range(rb))))
    Pa, Pb = quantity(V, a), quantity(V, b)
    w = Watch(V, a, b)
    got = V.attempt(lambda: V.lib("linalg.utils").dot(a, b, axes=ax), ValueError)
    V.assume(got[1] is None)
    r = got[0]
    rr = ra + rb - 2
    e = {}
    for ix in product(range(d), repeat=rr):
        t = 0
        for k in range(d):
            ia, ib = list(ix[:ra - 1]), list(ix[ra - 1:])
            ia.insert(ax[0], k)
            ib.insert(ax[1], k)
            t = t + Pa[tuple(ia)] * Pb[tuple(ib)]
        e[ix] = t
    V.true(len(r.array.shape) == rr, "rank of the result")
    phys_eq(V, ambient_result(V, r, d, rr), e, "contraction of the given axes of the ambient components", tol=1e-5)
    w.unchanged()

@case("contraction of general tensors needs the axes", reps=3)
def contraction_missing(V):
    d = 2
    a = T(V).Tensor(V.arr("a", (d,) * 3), frame=F(V).ReferenceFrame(dim=d))
    b = Vec(V)(V.arr("b", (d,)), frame=F(V).ReferenceFrame(dim=d))
    E = V.lib("linalg.exceptions")
    r = V.attempt(lambda: V.lib("linalg.utils").dot(a, b), E.LinalgMissingInputError)
    V.true(r[1] is not None, "rejected")

@case("cross product of vectors", reps=50, budget=200)
def cross11(V):
    d = 3
    a, b = two(V, "Vector", d)
    Pa, Pb = quantity(V, a), quantity(V, b)
    w = Watch(V, a, b)
    r = call(V, "cross", a, b)
    e = {(i,): sum(EPS[i, j, k] * Pa[(j,)] * Pb[(k,)] for j in range(3) for k in range(3) if (i, j, k) in EPS) for i in range(3)}
    phys_eq(V, ambient_result(V, r, d, 1), e, "cross product of ambient components", tol=1e-5)
    w.unchanged()
    w.separate(r)

@case("cross product of vectors: result in a given frame", reps=25, budget=150)
def crossframe(V):
    d = 3
    f = F(V).ReferenceFrame(dim=3) if V.proof else F(V).ReferenceFrame(V.nonsing("A", 3))
    a, b = make(V, "Vector", "a", 3, f), make(V, "Vector", "b", 3, f)
    C = V.nonsing("C", 3)
    g = F(V).ReferenceFrame(C)
    Pa, Pb = quantity(V, a), quantity(V, b)
    w = Watch(V, a, b)
    r = call(V, "cross", a, b, frame=g)
    e = {(i,): sum(EPS[i, j, k] * Pa[(j,)] * Pb[(k,)] for j in range(3) for k in range(3) if (i, j, k) in EPS) for i in range(3)}
    phys_eq(V, ambient_result(V, r, d, 1), e, "cross product of ambient components", tol=1e-5)
    V.same(r.frame, g, "in the frame asked for")
    V.eq(g.axes, C, "which is unchanged")
    w.unchanged()

@case("cross product of a vector and a second order tensor", reps=40, budget=200)
def cross2(V):
    """the first index of the tensor takes part"""
    which = V.choice("which", ["tensor x vector", "vector x tensor"])
    kinds = ("Tensor2", "Vector") if which == "tensor x vector" else ("Vector", "Tensor2")
    a, b = two(V, kinds[0], 3, kinds[1])
    Pa, Pb = quantity(V, a), quantity(V, b)
    w = Watch(V, a, b)
    r = call(V, "cross", a, b)
    e = {}
    for i, j in product(range(3), repeat=2):
        t = 0
        for k, l in product(range(3), repeat=2):
            if (i, k, l) in EPS:
                t = t + EPS[i, k, l] * (Pa[k, j] * Pb[(l,)] if which == "tensor x vector" else Pa[(k,)] * Pb[l, j])
        e[i, j] = t
    phys_eq(V, ambient_result(V, r, 3, 2), e, "cross product of ambient components over the first index", tol=1e-5)
    w.unchanged()

@case("dual: the same quantity in the dual frame", reps=50, budget=200)
def dual(V):
    kind, d = kd(V, [("Vector", [1, 2, 3]), ("Tensor2", [2, 3]), ("Tensor", [2]), ("Tensor rank 3", [2]), ("Tensor2x3", [3])])
    a = operand(V, kind, "a", d, V.choice("class", CLS if d == 2 else CLS[:1]))
    P = quantity(V, a)
    w = Watch(V, a)
    r = a.dual()
    V.true(type(r) is type(a), "same class")
    phys_eq(V, ambient_result(V, r, d, a.rank), P, "the same physical quantity", tol=1e-5)
    V.eq(mm(r.frame.axes, V.np.array([[a.frame.axes[j, i] for j in range(d)] for i in range(d)]), d), I(d), "in the dual frame", tol=1e-6)
    w.unchanged()

@case("transpose: reversed indices", reps=50, budget=150)
def transpose(V):
    kind, d = kd(V, [("Tensor2", [2, 3]), ("Tensor", [2]), ("Tensor rank 3", [2]), ("Tensor2x3", [3]), ("Vector", [2])])
    a = operand(V, kind, "a", d, V.choice("class", CLS if d == 2 else CLS[:1]))
    P = quantity(V, a)
    w = Watch(V, a)
    form = V.choice("form", ["T", "transpose", "inplace"])
    if form == "inplace":
        f = a.frame
        r = a.transpose(inplace=True)
        V.same(r, a, "the same object")
        V.same(a.frame, f, "in the same frame")
        w.unchanged(but=a)
    else:
        r = a.T if form == "T" else a.transpose()
        V.true(r is not a and type(r) is type(a), "a new object of the same class")
        w.unchanged()
    phys_eq(V, ambient_result(V, r, d, a.rank), {k: P[k[::-1]] for k in P}, "indices of the ambient components reversed", tol=1e-5)
    if form != "inplace":
        w.separate(r)

@case("stacks: every item separately", reps=60, level="bounded", note="two items in the proof", budget=200)
def stacks(V):
    n = 2 if V.proof else V.rng.randrange(1, 5)
    d = V.choice("d", [2, 3]) if not V.proof else 2
    kind = V.choice("kind", ["Vector", "Tensor2"])
    rank = KINDS[kind]
    op = V.choice("op", ["+", "-", "*", "/", "neg", "+=", "-=", "transpose"])
    V.assume(not (kind == "Vector" and op == "transpose"))
    A, B = V.nonsing("A", d), V.nonsing("B", d)
    f, g = F(V).ReferenceFrame(A), F(V).ReferenceFrame(B)
    cls = Vec(V) if kind == "Vector" else T(V).Tensor2
    x, y = V.arr("x", (n,) + (d,) * rank), V.arr("y", (n,) + (d,) * rank)
    kw = {} if kind == "Vector" else dict(bulk=True)
    a, b = cls(x, frame=f, **kw), cls(y, frame=g, **kw)
    Pa = [phys(x[k], A, d, rank) for k in range(n)]
    Pb = [phys(y[k], B, d, rank) for k in range(n)]
    w = Watch(V, a, b)
    u = a
    if op == "+":
        r, e = a + b, lambda p, q: p + q
    elif op == "-":
        r, e = a - b, lambda p, q: p - q
    elif op == "*":
        r, e = a * 3, lambda p, q: p * 3
    elif op == "/":
        r, e = a / 4, lambda p, q: p * 0.25
    elif op == "neg":
        r, e = -a, lambda p, q: -p
    elif op == "+=":
        u += b
        r, e = u, lambda p, q: p + q
    elif op == "-=":
        u -= b
        r, e = u, lambda p, q: p - q
    else:
        r, e = a.T, None
    for k in range(n):
        ex = {i: e(Pa[k][i], Pb[k][i]) for i in Pa[k]} if e else {i: Pa[k][i[::-1]] for i in Pa[k]}
        phys_eq(V, phys(r.array[k], r.frame.axes, d, rank), ex, "every item", tol=1e-5)
    w.unchanged(but=a if op in ("+=", "-=") else None)

@case("operands of another shape or class are rejected", reps=20)
def reject(V):
    E = V.lib("linalg.exceptions")
    d = V.choice("d", [2, 3])
    f = F(V).ReferenceFrame(V.nonsing("A", d))
    v, t = make(V, "Vector", "v", d, f), make(V, "Tensor2", "t", d, f)
    u = Vec(V)(V.arr("u", (d + 1,)), frame=F(V).ReferenceFrame(dim=d + 1))
    w = Watch(V, v, t, u)
    def iadd(x, y):
        x += y
    def isub(x, y):
        x -= y
    def imul(x, y):
        x *= y
    def idiv(x, y):
        x /= y
    for what, fn in [("v+t", lambda: v + t), ("v-t", lambda: v - t), ("v+1", lambda: v + 1), ("v-1", lambda: v - 1), ("v+u", lambda: v + u), ("v-u", lambda: v - u),
                     ("v*t", lambda: v * t), ("v/t", lambda: v / t), ("v+=u", lambda: iadd(v, u)), ("v-=u", lambda: isub(v, u)), ("v*=t", lambda: imul(v, t)), ("v/=t", lambda: idiv(v, t))]:
        r = V.attempt(fn, TypeError, ValueError, E.TensorShapeMismatchError)
        V.true(r[1] is not None, "%s is rejected" % what)
    w.unchanged()
