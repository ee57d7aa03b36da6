"""C13: genetic operators keep the population valid for every random outcome."""
from itertools import permutations
from contextlib import contextmanager
from pyvc.harness import case
from props.util import patched

class Draws:
    """numpy.random by contract: every value the documentation allows"""
    def __init__(self, V):
        self.V, self.k = V, 0
    def name(self):
        self.k += 1
        return "draw%d" % self.k
    def rand(self, *shape):
        V = self.V
        if not shape:
            r = V.real(self.name())
            V.assume(r >= 0)
            V.assume(r < 1)
            return r
        a = V.arr(self.name(), shape)
        if all(isinstance(s, int) for s in shape):
            for x in a.ravel():
                V.assume(x >= 0)
                V.assume(x < 1)
        return a                     # of symbolic length: any reals (more than what may be drawn)
    def random(self, size=None):
        return self.rand() if size is None else self.rand(*(size if isinstance(size, tuple) else (size,)))
    random_sample = random
    def integer(self, lo, hi):
        V = self.V
        if isinstance(lo, int) and isinstance(hi, int):
            if hi <= lo:
                raise ValueError("low >= high")
            return V.choice(self.name(), range(lo, hi))
        if not bool(lo < hi):
            raise ValueError("low >= high")
        r = V.int(self.name())
        V.assume(r >= lo)
        V.assume(r < hi)
        return r
    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if size is None:
            return self.integer(lo, hi)
        V = self.V
        a = V.arr(self.name(), size if isinstance(size, tuple) else (size,), kind="i")
        for x in a.ravel():
            V.assume(x >= lo)
            V.assume(x < hi)
        return a
    def permutation(self, x):
        V, n = self.V, x if isinstance(x, int) else len(x)
        rest, out = list(range(n)), []
        while rest:
            out.append(rest.pop(V.choice(self.name(), range(len(rest)))))
        return V.np.array(out) if isinstance(x, int) else V.np.array([x[i] for i in out])
    def choice(self, a, size=None, replace=True, p=None):
        import numpy
        V = self.V
        if p is not None:
            raise NotImplementedError
        if hasattr(a, "vlen") or hasattr(a, "shape") and not isinstance(a.shape[0], int):
            n = a.vlen() if hasattr(a, "vlen") else a.shape[0]      # a pool of symbolic size: any different members
            if replace or size is None:
                raise NotImplementedError
            if not bool(n >= size):
                raise ValueError("larger sample than population")
            out = []
            for _ in range(size):
                r = V.int(self.name())
                V.assume(r >= 0)
                V.assume(r < n)
                for o in out:
                    V.assume(r != o)
                out.append(r)
            return V.np.array([a[r] for r in out])
        pool = list(range(a)) if isinstance(a, int) else list(a)
        if size is None:
            return pool[V.choice(self.name(), range(len(pool)))]
        if not replace and size > len(pool):
            raise ValueError("Cannot take a larger sample than population when replace is False")
        out = []
        for _ in range(size):
            k = V.choice(self.name(), range(len(pool)))
            out.append(pool[k] if replace else pool.pop(k))
        return numpy.array(out)
    def hooks(self):
        self.V.hook(**{"random__" + k: getattr(self, k) for k in ("rand", "random", "random_sample", "randint", "permutation", "choice")})

def extreme(V):
    """in some of the readings on compiled code the uniform draws sit at the ends of their range"""
    np = V.np
    if V.rng.random() < 0.6:
        return {}
    vals = [0.0, 0.5, 1 - 2.0 ** -53, 0.2, 1e-300]
    def rand(*s):
        return V.rng.choice(vals) if not s else np.array([V.rng.choice(vals) for _ in range(int(np.prod(s)))]).reshape(s)
    return {"rand": rand}

def objective(x):
    return sum(x)

@contextmanager
def noise(V):
    if V.proof:
        Draws(V).hooks()
        yield
    else:
        with patched(V.np.random, **extreme(V)):
            yield

def make(V, dim, length, nPop, fnc=None, **kw):
    """an algorithm object; its first population is arbitrary"""
    GA = V.lib("optimize.bga").BinaryGeneticAlgorithm
    np = V.np
    ranges = V.arr("ranges", (dim, 2))
    if V.proof:
        for d in range(dim):
            V.assume(ranges[d, 0] <= ranges[d, 1])
        first = np.array([[0] * (dim * length)] * nPop)
        class Quick(GA):
            started = False
            def populate(self, *a, **k):
                # the initial population is not what this contract is about
                return first if not self.started else GA.populate(self, *a, **k)
        A = Quick(fnc or objective, ranges, length=length, nPop=nPop, **kw)
        A.started = True
    else:
        ranges = np.sort(ranges, axis=1)
        A = GA(fnc or objective, ranges, length=length, nPop=nPop, **kw)
    V.true(A.nPop == nPop and A.dim == dim and A.length == length, "sizes are kept")
    return A, ranges

def genes(V, name, shape):
    g = V.arr(name, shape, kind="i", lo=0, hi=1)
    if V.proof:
        if all(isinstance(s, int) for s in shape):
            for x in g.ravel():
                V.assume(x >= 0)
                V.assume(x <= 1)
    return g

@case("population size", level="bounded", note="requested sizes 1..64 enumerated", reps=30)
def _(V):
    n = V.choice("nPop", list(range(1, 65)))
    GA = V.lib("optimize.bga").BinaryGeneticAlgorithm
    with noise(V):
        if V.proof:
            class Quick(GA):
                def populate(self, *a, **k):
                    return V.np.array([[0] * 3] * 4)
        else:
            Quick = GA
        A = Quick(objective, [[0, 1]], length=3, nPop=n)
    V.true(A.nPop % 4 == 0, "the population size is a multiple of four")
    V.true(n <= A.nPop < n + 4, "the population is the smallest such size that is not below the requested one")
    if not V.proof:
        V.shape(A.genotypes, (A.nPop, 3), "first population")

@contextmanager
def crossed(V, A):
    """crossover by its contract: two chromosomes of genes 0 and 1"""
    if not V.proof:
        yield
        return
    cls, k = type(A), [0]
    def cross(self, a, b, *r):
        k[0] += 1
        return genes(V, "c%d" % k[0], (len(a),)), genes(V, "d%d" % k[0], (len(a),))
    cls.crossover = cross
    try:
        yield
    finally:
        del cls.crossover

@case("first population", level="bounded", note="dim*length <= 4, nPop in {4, 8}", reps=40)
def _(V):
    dim, length = V.choice("sizes", [(1, 3), (3, 1), (2, 2), (1, 4)])
    nPop = V.choice("nPop", [4, 8] if not V.proof else [4])
    with noise(V):
        A, _ = make(V, dim, length, nPop, p_m=V.choice("p_m", [0, 0.2, 1]))
        with crossed(V, A):
            g = A.populate()
    D = dim * length
    V.shape(g, (nPop, D), "shape of the first population")
    V.forall((nPop, D), lambda i, j: V.true((g[i, j] == 0) | (g[i, j] == 1), "genes are 0 or 1"))

@case("mutation", reps=60)
def _(V):
    """any gene count, any mutation probability, any draws"""
    np = V.np
    with noise(V):
        A, _ = make(V, 1, 3, 4)
        A.dim, A.length = V.dim("dim", 1, 4), V.choice("length", [3, 1, 5])
        D = A.dim * A.length
        A.p_m = V.real("p_m", 0, 1)
        c = genes(V, "child", (D,))
        c0 = V.copy(c)
        m = A.mutate(c)
        V.shape(m, (D,), "shape of the mutant")
        V.forall((D,), lambda j: V.true((m[j] == c0[j]) | (m[j] == 1 - c0[j]), "mutation keeps or flips a gene"))
        V.unchanged(c, c0, "mutation leaves its argument alone")

@case("mutation probability ends", reps=40)
def _(V):
    with noise(V):
        A, _ = make(V, 1, 3, 4)
        A.dim, A.length = V.dim("dim", 1, 4), 3
        D = A.dim * 3
        p = V.choice("p", ["none", "all"])
        A.p_m = -1 if p == "none" else 1
        if V.proof:
            u = V.arr("u", (D,))
            V.hook(random__rand=lambda *s: u)
        c = genes(V, "child", (D,))
        m = A.mutate(c)
        def at(j):
            if V.proof:
                V.assume(u[j] >= 0)
                V.assume(u[j] < 1)
            V.eq(m[j], c[j] if p == "none" else 1 - c[j], "no gene is flipped below probability zero, every gene at probability one")
        V.forall((D,), at)

def check_children(V, D, p1, p2, c1, c2):
    V.shape(c1, (D,), "first child")
    V.shape(c2, (D,), "second child")
    V.forall((D,), lambda j: V.true(((c1[j] == p1[j]) & (c2[j] == p2[j])) | ((c1[j] == p2[j]) & (c2[j] == p1[j])),
                                    "at every position one child takes the gene of one parent and the other child the gene of the other"))

@case("crossover", level="bounded", note="dim*length <= 6, every number of cuts, every cut position", reps=120, paths=20000, budget=120)
def _(V):
    dim, length = V.choice("sizes", [(1, 3), (3, 1), (2, 2), (1, 5)] + ([(2, 3), (3, 2)] if V.tier == "thorough" or not V.proof else []))
    D = dim * length
    with noise(V):
        A, _ = make(V, dim, length, 4)
        A.p_m = -1
        A.p_c = V.real("p_c", 0, 1)
        p1, p2 = genes(V, "p1", (D,)), genes(V, "p2", (D,))
        q1, q2 = V.copy(p1), V.copy(p2)
        nc = V.choice("nCut", [None] + list(range(1, D - 1)))
        r = A.crossover(p1, p2) if nc is None else A.crossover(p1, p2, nc)
    V.true(len(r) == 2, "two children")
    check_children(V, D, q1, q2, r[0], r[1])
    V.unchanged(p1, q1, "the first parent is left alone")
    V.unchanged(p2, q2, "the second parent is left alone")

@case("crossover of long chromosomes", note="any length, one to three cuts anywhere", concrete=False, budget=120)
def _(V):
    with noise(V):
        A, _ = make(V, 1, 3, 4)
        A.dim, A.length = V.dim("dim", 1), 5
        D = A.dim * A.length
        A.p_m = -1
        A.p_c = 1
        rand = Draws(V).rand
        V.hook(random__rand=lambda *s: rand() if not s else V.np.zeros(s))      # mutation is turned off here
        p1, p2 = genes(V, "p1", (D,)), genes(V, "p2", (D,))
        nc = V.choice("nCut", [1, 2, 3])
        r = A.crossover(p1, p2, nc)
    check_children(V, D, p1, p2, r[0], r[1])

@case("crossover then mutation", level="bounded", note="dim*length <= 3", reps=60)
def _(V):
    with noise(V):
        A, _ = make(V, 1, 3, 4)
        A.p_m = V.real("p_m", 0, 1)
        p1, p2 = genes(V, "p1", (3,)), genes(V, "p2", (3,))
        r = A.crossover(p1, p2)
    for c in r:
        V.shape(c, (3,), "child")
        for j in range(3):
            V.true((c[j] == 0) | (c[j] == 1), "genes of the children are 0 or 1")

@case("decoding", reps=60, note="any population size and ranges; dim <= 3, length <= 4")
def _(V):
    np = V.np
    dim, length = V.choice("sizes", [(1, 3), (2, 2), (3, 1), (1, 4), (2, 3)] + ([] if V.proof else [(1, 20), (2, 31), (1, 32), (2, 53), (1, 62), (1, 64), (2, 70)]))
    with noise(V):
        A, ranges = make(V, dim, length, 4)
    A.nPop = n = V.dim("n", 1, 6)
    D = dim * length
    g = genes(V, "g", (n, D))
    if not V.proof and V.rng.random() < 0.5:
        g = g.astype(float)
    x = A.decode(g)
    V.shape(x, (n, dim), "shape of the decoded population")
    def at(k, d):
        lo, hi = ranges[d, 0], ranges[d, 1]
        num = sum(g[k, d * length + i] * 2 ** i for i in range(length))
        if V.proof:
            for i in range(length):
                V.assume(g[k, d * length + i] >= 0)
                V.assume(g[k, d * length + i] <= 1)
        V.eq(x[k, d], lo + (hi - lo) * num / (2 ** length - 1), "decoded value")
        if V.proof:
            V.true(x[k, d] >= lo, "decoded values stay above the lower end")
            V.true(x[k, d] <= hi, "decoded values stay below the upper end")
        else:
            t = 1e-12 * max(1, abs(lo), abs(hi))
            V.true(lo - t <= x[k, d] <= hi + t, "decoded values stay within the range")
    V.forall((n, dim), at)

@case("pairs of parents", level="bounded", note="pools of up to six parents, every sequence of draws", reps=60)
def _(V):
    n = V.choice("n", [2, 4, 6] if V.proof else [0, 2, 4, 6, 10, 20])
    GA = V.lib("optimize.bga").BinaryGeneticAlgorithm
    g = V.np.array([[i, 100 + i] for i in range(n)])
    with noise(V):
        out = []
        for a, b in GA.random_parents_generator(g):
            out.append((a, b))
            V.true(len(out) <= n, "the generator ends")
    ids = [int(p[0]) for pr in out for p in pr]
    V.true(len(out) * 2 == n, "every parent is handed out")
    V.true(sorted(ids) == list(range(n)), "parents are distinct and used once")
    V.true(all(int(p[1]) == 100 + int(p[0]) for pr in out for p in pr), "parents are members of the pool")

@case("odd pools are refused", proof=False, reps=6)
def _(V):
    GA = V.lib("optimize.bga").BinaryGeneticAlgorithm
    g = V.np.zeros((V.choice("n", [1, 3, 5]), 2))
    _, e = V.attempt(lambda: list(GA.random_parents_generator(g)), AssertionError, ValueError)
    V.true(e is not None, "an odd pool is refused")

@case("refilled population", level="bounded", note="nPop <= 8, dim*length = 3; children by the contract of crossover", reps=60)
def _(V):
    nPop = V.choice("nPop", [4, 8])
    nPar = V.choice("parents", [nPop // 2, nPop - 2, nPop])
    np = V.np
    with noise(V):
        A, _ = make(V, 1, 3, nPop)
        g = genes(V, "g", (nPar, 3))
        g0 = V.copy(g)
        A.p_m = 0.3
        with crossed(V, A):
            r = A.populate(g)
    V.shape(r, (nPop, 3), "the population has the configured size")
    for i in range(nPop):
        for j in range(3):
            V.true((r[i, j] == 0) | (r[i, j] == 1), "genes are 0 or 1")
    for i in range(nPar):
        V.eq(r[i], g0[i], "the parents stay in the population")
    V.unchanged(g, g0, "the pool is left alone")

ELITE = {4: [None, 1, 2, 3, 0.5, 0.3, 0.75, 1.0], 8: [None, 1, 2, 4, 5, 7, 0.5, 0.1]}

@case("selection", level="bounded", note="nPop = 4, every order of fitness values with ties, every draw", reps=80, paths=30000, budget=120)
def _(V):
    nPop = V.choice("nPop", [4] if V.proof else [4, 8, 12])
    selection(V, nPop, V.choice("elitism", [1, 3, 0.5] if V.proof else ELITE[min(nPop, 8)]))

@case("selection without elite", level="bounded", note="nPop = 4, every order of fitness values with ties, every outcome of one tournament while the other entrants are fixed", reps=40, paths=30000, budget=120)
def _(V):
    selection(V, 4, None)

def selection(V, nPop, el):
    np = V.np
    mini = V.choice("minimize", [False, True])
    with noise(V):
        A, _ = make(V, 1, 3, nPop, elitism=el, minimize=mini)
        fit = V.vec("fit", nPop)
        if not V.proof and V.rng.random() < 0.4:
            fit = np.round(fit)
        g = np.array([[i, 10 * i, i * i] for i in range(nPop)])       # recognisable rows
        A.genotypes = g
        A._phenotypes = g
        A.evaluate = None
        A._fitness = fit
        if V.proof and el is None:
            d, k, free = Draws(V).choice, [0], V.choice("free tournament", [0, 1] if V.tier == "thorough" else [0])
            def choice(a, size=None, replace=True, p=None):
                k[0] += 1
                return d(a, size, replace, p) if k[0] - 1 == free else np.array(list(a)[:size])
            V.hook(random__choice=choice)
        r = A.select()
    V.true(len(r) >= nPop // 2 and len(r) % 2 == 0 and len(r) <= nPop, "half of the population is selected (more only to keep the elite), an even number")
    ids = [int(x[0]) for x in r]
    for i, row in zip(ids, r):
        V.true([int(x) for x in row] == [i, 10 * i, i * i], "selected individuals are members of the population")
    ne = 0 if el is None else int(nPop * el) if el < 1 else int(el)
    V.true(len(r) == max(nPop // 2, ne + ne % 2), "number of selected individuals")
    better = (lambda a, b: a < b) if mini else (lambda a, b: a > b)
    elite, rest = ids[:ne], ids[ne:]
    V.true(len(set(elite)) == ne, "elites are different individuals")
    out = [k for k in range(nPop) if k not in elite]
    for e in elite:
        for k in out:
            V.true(not bool(better(fit[k], fit[e])), "nobody outside the elite is better than an elite")
    others = len(out)
    for w in rest:
        V.true(w in out, "tournament winners come from outside the elite")
        beaten = [k for k in out if k != w and not bool(better(fit[k], fit[w]))]
        V.true(len(beaten) >= min(3, others) - 1, "a tournament winner is not beaten by the other entrants")

@case("elite split", level="bounded", note="nPop = 4", reps=60)
def _(V):
    np = V.np
    nPop = V.choice("nPop", [4] if V.proof else [4, 8, 20])
    mini = V.choice("minimize", [False, True])
    el = V.choice("elitism", ELITE[min(nPop, 8)])
    with noise(V):
        A, _ = make(V, 1, 3, nPop, elitism=el, minimize=mini)
        fit = V.vec("fit", nPop)
        e, o = A.divide(fit)
    ne = 0 if el is None else int(nPop * el) if el < 1 else int(el)
    e, o = [int(k) for k in e], [int(k) for k in o]
    V.true(len(e) == ne, "size of the elite")
    V.true(sorted(e + o) == list(range(nPop)), "elite and others make up the population")
    for i in e:
        for k in o:
            V.true((fit[i] <= fit[k]) if mini else (fit[i] >= fit[k]), "elites are the best")

@case("generations stay valid", proof=False, reps=60)
def _(V):
    np = V.np
    dim, length = V.choice("dim", [1, 2, 3]), V.choice("length", [3, 4, 8, 12])
    nPop = V.choice("nPop", [4, 5, 8, 10, 16, 30])
    kw = dict(p_c=V.choice("p_c", [0, 0.5, 1]), p_m=V.choice("p_m", [0, 0.2, 1]), elitism=V.choice("el", [None, 1, 2, 3, 0.3, 0.5, 0.9]), minimize=V.choice("min", [False, True]))
    GA = V.lib("optimize.bga").BinaryGeneticAlgorithm
    lo = V.vec("lo", dim)
    hi = lo + np.abs(V.vec("w", dim))
    with noise(V):
        A = GA(lambda x: float(np.sum(np.sin(3 * x))), np.stack([lo, hi], 1), length=length, nPop=nPop, **kw)
        n = A.nPop
        for _ in range(4):
            A.evolve(V.choice("cycles", [1, 2]))
            g = np.asarray(A.genotypes)
            V.shape(g, (n, dim * length), "population")
            V.true(np.all((g == 0) | (g == 1)), "genes are 0 or 1")
            x = A.phenotypes
            V.shape(x, (n, dim), "phenotypes")
            t = 1e-9 * (1 + np.abs(lo) + np.abs(hi))
            V.true(np.all(x >= lo - t) and np.all(x <= hi + t), "phenotypes stay within the ranges")

@case("invalid settings are rejected", proof=False, reps=20)
def _(V):
    GA = V.lib("optimize.bga").BinaryGeneticAlgorithm
    kw = V.choice("kw", [dict(elitism=0), dict(elitism=-1), dict(elitism=1.5), dict(elitism=8), dict(elitism=80), dict(miniter=5, maxiter=4)])
    _, e = V.attempt(lambda: GA(objective, [[0, 1]], length=3, nPop=8, **kw), ValueError)
    V.true(e is not None, "invalid settings are rejected")
    A = GA(objective, [[0, 1]], length=3, nPop=8)
    _, e = V.attempt(lambda: A.set_solution_params(**kw), ValueError)
    V.true(e is not None, "invalid settings are rejected later as well")

@case("dimension of the objective", proof=False, reps=20)
def _(V):
    F = V.lib("function").Function
    GA = V.lib("optimize.bga").BinaryGeneticAlgorithm
    kind = V.choice("kind", ["callable", "attribute", "function", "function d", "symbolic"])
    f = {"callable": lambda: objective, "function": lambda: F(objective), "function d": lambda: F(objective, d=2), "symbolic": lambda: F("x+y", variables=["x", "y"])}
    if kind == "attribute":
        def g(x):
            return x[0] + x[1]
        g.dimension = 2
    else:
        g = f[kind]()
    A = GA(g, [[0, 1], [2, 5]], length=4, nPop=8)
    A.evolve(2)
    V.true(A.dim == 2, "the dimension matches the ranges")
    V.shape(A.phenotypes, (8, 2), "phenotypes")
    V.eq(A.fitness, A.phenotypes.sum(axis=1), "fitness values are those of the objective at the phenotypes")
