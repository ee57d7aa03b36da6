"""C08: weight functions: support, symmetry and true derivatives.

The point is parametrised by its distance from the core in units of the support, x = core - support * u, which covers
every point; W, W1 and W2 are the cubic spline and its derivatives as functions of the signed distance u."""
from pyvc.harness import case

def M(V):
    return V.lib("approx.functions")

def W(u):
    r = u if u >= 0 else -u
    if r <= 0.5:
        return 4 * r ** 3 - 4 * r ** 2 + THIRD(r) * 2
    if r <= 1:
        return (4 * THIRD(r)) * (1 - r) ** 3
    return 0

def W1(u):
    sg, r = (1, u) if u >= 0 else (-1, -u)
    if r <= 0.5:
        return sg * (12 * r ** 2 - 8 * r)
    if r <= 1:
        return sg * (-4 * (1 - r) ** 2)
    return 0

def W2(u):
    r = u if u >= 0 else -u
    if r <= 0.5:
        return 24 * r - 8
    if r <= 1:
        return 8 * (1 - r)
    return 0

def THIRD(r):
    """one third in the number type of r"""
    return (r * 0 + 1) / 3

def distance(V, name):
    """any signed distance; the concrete draws favour the knots"""
    if V.proof:
        return V.real(name)
    if name in V.model:
        return V.real(name)
    k = V.rng.choice([0.0, 0.5, -0.5, 1.0, -1.0, 1e-13, 0.999, -0.501, 1.2, -3.0, None, None, None, None, None, None])
    u = V.rng.uniform(-1.3, 1.3) if k is None else k
    V.used[name] = u
    return u

def cubic(V, d, form=True):
    """a cubic weight function and a point at the signed distances u"""
    c = [V.real("core%d" % i) for i in range(d)]
    s = [V.real("support%d" % i, 0.01, None) for i in range(d)]
    u = [distance(V, "u%d" % i) for i in range(d)]
    if V.proof:
        for x in s:
            V.assume(x > 0)
            V.c.declare_nonzero(x)
    x = [a - b * e for a, b, e in zip(c, s, u)]
    np = V.np
    how = V.choice("support given as", ["sd", "supportdomain"]) if form else "sd"
    core, sup = (np.array(c), np.array(s)) if form and V.choice("arrays", [True, False]) else (list(c), list(s))
    w = M(V).CubicWeightFunction(core=core, **{how: sup})
    return w, c, s, u, (np.array(x) if form and V.choice("point", ["array", "list"]) == "array" else x)

def call(V, w, what, x):
    forms = {"value": [w.value, w.f, w], "gradient": [w.gradient, w.g], "Hessian": [w.Hessian, w.G]}[what]
    return forms[V.choice(what + " through", list(range(len(forms))))](x)

@case("cubic spline: value", reps=200, note="any core, support and point in one and two directions")
def value(V):
    V.tiny(1e-12)
    d = V.choice("d", [1, 2])
    w, c, s, u, x = cubic(V, d)
    r = call(V, w, "value", x)
    ref = 1
    for e in u:
        ref = ref * W(e)
    V.eq(r, ref, "value of the spline")

@case("cubic spline: nonnegative, largest at the core, zero outside the support, even", reps=100, note="any core, support and point")
def shape(V):
    V.tiny(1e-12)
    d = V.choice("d", [1, 2])
    w, c, s, u, x = cubic(V, d, form=False)
    r = w.value(x)
    top = w.value(list(c))
    eps = 0 if V.proof else 1e-12
    V.true(r >= -eps, "nonnegative")
    V.true(r <= top + eps, "largest at the core")
    V.true(top > 0, "positive at the core")
    k = V.choice("direction", list(range(d)))
    V.eq(w.value([a + b * e if i == k else a - b * e for i, (a, b, e) in enumerate(zip(c, s, u))]), r, "symmetric in every direction")
    if u[k] > 1 or u[k] < -1:
        V.eq(r, 0, "zero outside the support")
        for g in w.gradient(x):
            V.eq(g, 0, "gradient zero outside the support")
        for g in w.Hessian(x).flatten():
            V.eq(g, 0, "Hessian zero outside the support")

@case("cubic spline: gradient and Hessian are derivatives with respect to the core", reps=250, budget=200, note="any core, support and point")
def derivatives(V):
    V.tiny(1e-12)
    np = V.np
    d = V.choice("d", [1, 2])
    w, c, s, u, x = cubic(V, d, form=False)
    g = call(V, w, "gradient", x)
    H = call(V, w, "Hessian", x)
    V.shape(g, (d,), "gradient")
    V.shape(H, (d, d), "Hessian")
    for i in range(d):
        ref = W1(u[i]) / s[i]
        for k in range(d):
            if k != i:
                ref = ref * W(u[k])
        V.eq(g[i], ref, "gradient")
        for j in range(d):
            if i == j:
                ref = W2(u[i]) / (s[i] * s[i])
                for k in range(d):
                    if k != i:
                        ref = ref * W(u[k])
            else:
                ref = (W1(u[i]) / s[i]) * (W1(u[j]) / s[j])
                for k in range(d):
                    if k not in (i, j):
                        ref = ref * W(u[k])
            V.eq(H[i, j], ref, "Hessian")

@case("the spline used as reference is twice continuously differentiable and W1, W2 are its derivatives", concrete=False)
def lemma(V):
    u, h = V.real("u"), V.real("h")
    one = V.real("one")
    V.assume(one == 1)
    half = one / 2
    # the pieces as polynomials p(u), and their Taylor expansions p(u + h)
    p = [lambda r: 4 * r ** 3 - 4 * r ** 2 + 2 * one / 3, lambda r: 4 * one / 3 * (1 - r) ** 3, lambda r: 0 * r]
    p1 = [lambda r: 12 * r ** 2 - 8 * r, lambda r: -4 * (1 - r) ** 2, lambda r: 0 * r]
    p2 = [lambda r: 24 * r - 8, lambda r: 8 * (1 - r), lambda r: 0 * r]
    p3 = [24, -8, 0]
    for k in range(3):
        V.eq(p[k](u + h), p[k](u) + h * p1[k](u) + h * h * p2[k](u) / 2 + h ** 3 * p3[k] / 6, "Taylor expansion of a piece")
        V.eq(p1[k](u + h), p1[k](u) + h * p2[k](u) + h * h * p3[k] / 2, "Taylor expansion of its derivative")
    for q in (p, p1, p2):
        V.eq(q[0](half), q[1](half), "continuous at one half")
        V.eq(q[1](one), q[2](one), "continuous at one")
    V.eq(p1[0](0 * one), 0, "the slope vanishes at the core, so the even extension is differentiable")
    V.assume(u >= 0)
    r = u
    if r <= half:
        V.eq(W(u), p[0](u), "first piece")
        V.eq(W1(u), p1[0](u), "first piece")
        V.eq(W2(u), p2[0](u), "first piece")
    elif r <= 1:
        V.eq(W(u), p[1](u), "second piece")
        V.eq(W1(u), p1[1](u), "second piece")
        V.eq(W2(u), p2[1](u), "second piece")
    V.assume(u > 0)
    V.eq(W(-u), W(u), "even")
    V.eq(W1(-u), -W1(u), "odd")
    V.eq(W2(-u), W2(u), "even")

@case("moving the core moves the function", reps=80, note="core set through the property, any values")
def moved(V):
    V.tiny(1e-12)
    d = V.choice("d", [1, 2])
    w, c, s, u, x = cubic(V, d, form=False)
    t = [V.real("shift%d" % i) for i in range(d)]
    before = w.value(x)
    new = [a + b for a, b in zip(c, t)]
    w.core = V.np.array(new) if V.choice("core as", ["array", "list"]) == "array" else new
    V.eq(w.value([a + b for a, b in zip(x, t)]), before, "the value depends on the distance from the core only")

@case("constant weight function", reps=150, note="any core, support, point and constant in one to three directions")
def constant(V):
    np = V.np
    d = V.choice("d", [1, 2, 3])
    v = V.real("value")
    c = [V.real("core%d" % i) for i in range(d)]
    sup = V.choice("support", [True, False])
    if sup:
        s = [V.real("support%d" % i, 0.01, None) for i in range(d)]
        u = [distance(V, "u%d" % i) for i in range(d)]
        if V.proof:
            for e in s:
                V.c.declare_nonzero(e)
        x = [a - b * e for a, b, e in zip(c, s, u)]
        w = M(V).ConstantWeightFunction(core=list(c), sd=list(s), value=v)
        inside = all([-0.999999 < e and e < 0.999999 for e in u]) if not V.proof else all([-1 < e and e < 1 for e in u])
        outside = any([e > 1.000001 or e < -1.000001 for e in u]) if not V.proof else any([e > 1 or e < -1 for e in u])
    else:
        x = [V.real("x%d" % i) for i in range(d)]
        w = M(V).ConstantWeightFunction(core=list(c), value=v) if V.choice("core", [True, False]) else M(V).ConstantWeightFunction(dim=d, value=v)
        inside, outside = True, False
    r = call(V, w, "value", x)
    if inside:
        V.eq(r, v, "the constant inside the support")
    elif outside:
        V.eq(r, 0, "zero outside the support")
    g, H = call(V, w, "gradient", x), call(V, w, "Hessian", x)
    V.eq(g, [0] * d, "gradient")
    V.eq(H, [[0] * d] * d, "Hessian")

@case("singular weight function", reps=150, note="any core, eps and point in one to three directions")
def singular(V):
    d = V.choice("d", [1, 2, 3])
    eps = V.real("eps", 0.05, 3)
    c = [V.real("core%d" % i) for i in range(d)]
    x = [V.real("x%d" % i) for i in range(d)]
    w = M(V).SingularWeightFunction(core=list(c), eps=eps)
    q = sum((a - b) ** 2 for a, b in zip(c, x)) + eps ** 2
    if V.proof:
        V.c.declare_nonzero(q)
    V.eq(call(V, w, "value", x), 1 / q, "value")
    g, H = call(V, w, "gradient", x), call(V, w, "Hessian", x)
    V.shape(g, (d,), "gradient")
    V.shape(H, (d, d), "Hessian")
    for i in range(d):
        V.eq(g[i], -2 * (c[i] - x[i]) / q ** 2, "gradient")
        for j in range(d):
            V.eq(H[i, j], 8 * (c[i] - x[i]) * (c[j] - x[j]) / q ** 3 - (2 / q ** 2 if i == j else 0), "Hessian")
