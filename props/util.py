from itertools import permutations

def perm_sign(p):
    s = 1
    p = list(p)
    for i in range(len(p)):
        while p[i] != i:
            j = p[i]
            p[i], p[j] = p[j], p[i]
            s = -s
    return s

def leibniz(A, n):
    t = 0
    for p in permutations(range(n)):
        x = perm_sign(p)
        for i in range(n):
            x = x * A[i, p[i]]
        t = t + x
    return t

def I(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]

def mm(A, B, n):
    return [[sum(A[i, k] * B[k, j] for k in range(n)) for j in range(n)] for i in range(n)]

def maybe_int(V, A):
    """sometimes an integer array with the same kind of content"""
    if V.proof:
        return A
    if V.rng.random() < 0.25:
        A = V.np.round(3 * A).astype(int)
    return A

def rotation(V, name, d):
    """any proper rotation: rational parametrisation by a quaternion (d=3) or a half-angle pair (d=2)"""
    np = V.np
    if d == 1:
        return np.array([[1]]) * 1
    k = 4 if d == 3 else 2
    q = [V.real("%s%d" % (name, i)) for i in range(k)]
    n = sum(x * x for x in q)
    if V.proof:
        V.c.declare_nonzero(n)
    else:
        V.assume(n > 1e-6)
    if d == 2:
        c, s = q
        M = [[c * c - s * s, -2 * c * s], [2 * c * s, c * c - s * s]]
    else:
        w, x, y, z = q
        M = [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
             [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
             [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]
    return np.array([[e / n for e in r] for r in M])

def orthogonal(V, name, d):
    """any orthogonal matrix, reflections included"""
    R = rotation(V, name, d)
    if V.choice(name + " reflect", [False, True]):
        R[0] = -R[0]
    return R

class patched:
    """replace a module attribute for the duration (proof: a callee by its contract)"""
    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw
    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)
    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)
