"""C14: the reported champion is the best individual ever evaluated."""
import ast, inspect, os
from contextlib import contextmanager
from pyvc.harness import case
from props.util import patched
from props.C13 import objective, genes

class Cut(BaseException):
    """end of the arbitrary iteration of a loop"""

@contextmanager
def model(V):
    """pydantic by contract: the fields are stored (as lists where the field is a list)"""
    ga = V.lib("optimize.ga")
    if not V.proof:
        yield ga
        return
    G = ga.Genom
    def build(**kw):
        for k in ("phenotype", "genotype"):
            if k in kw:
                kw[k] = list(kw[k])
        return G.model_construct(**kw)
    with patched(ga, Genom=Meta("Genom", (), {"cls": G, "build": staticmethod(build)})):
        yield ga

class Meta(type):
    """stands for the class Genom: instances are recognised, calls construct without validation"""
    def __call__(cls, *a, **k):
        return cls.build(*a, **k)
    def __instancecheck__(cls, o):
        return isinstance(o, cls.cls)

class Log:
    def __init__(self, V):
        self.V, self.seen, self.fail_at = V, [], None
    def __call__(self, x):
        if self.fail_at is not None and len(self.seen) >= self.fail_at:
            raise ZeroDivisionError("objective fails")
        x = [x[i] for i in range(len(x))]
        for y, v in self.seen:
            if len(x) == len(y) and all(a is b for a, b in zip(x, y)):
                return v
        v = self.V.real("f%d" % len(self.seen)) if self.V.proof else float(self.V.rng.choice([self.V._real(), float(self.V.rng.randint(-2, 2))]))
        self.seen.append((x, v))
        return v

def algorithm(V, ga, fnc, nPop, minimize, **kw):
    """a genetic algorithm with arbitrary populations (operators by their contract, property C13)"""
    np = V.np
    k = [0]
    class Any(ga.GeneticAlgorithm):
        def populate(self, genotypes=None):
            k[0] += 1
            return genes(V, "g%d" % k[0], (self.nPop, self.dim * self.length))
        def decode(self, genotypes):
            return V.np.array([[genotypes[i, 0] * 2 + genotypes[i, 1]] for i in range(self.nPop)]) if V.proof else (genotypes[:, :1] * 2 + genotypes[:, 1:2]).astype(float)
        def select(self, *a):
            return None
        def crossover(self, a, b):
            return a, b
        def mutate(self, c):
            return c
    return Any(fnc, [[0, 3]], length=2, nPop=nPop, minimize=minimize, **kw)

def best(V, vals, mini):
    """contract of the best value: attained, and nothing beats it"""
    b = vals[0]
    for v in vals[1:]:
        if bool(v < b) if mini else bool(v > b):
            b = v
    return b

def champion_ok(V, A, vals, mini):
    ch = A.champion
    V.true(ch is not None, "there is a champion")
    for v in vals:
        V.true((ch.fitness <= v) if mini else (ch.fitness >= v), "nothing met so far beats the champion")
    V.true(any_(V, [ch.fitness == v for v in vals]), "the champion's fitness was met")
    V.eq(A.state.fun, ch.fitness, "the state carries the champion's fitness")
    V.true(len(A.state.x) == len(ch.phenotype), "the state carries the champion's phenotype")
    for a, b in zip(A.state.x, ch.phenotype):
        V.eq(a, b, "the state carries the champion's phenotype")

def any_(V, bs):
    r = bs[0]
    for b in bs[1:]:
        r = r | b
    return r

@case("best candidate", level="bounded", note="populations of four", reps=40)
def _(V):
    mini = V.choice("minimize", [False, True])
    n = 4 if V.proof else V.choice("n", [4, 8, 12])
    with model(V) as ga:
        f = Log(V)
        A = algorithm(V, ga, f, n, mini)
        c = A.best_candidate()
        fit = A.fitness
        V.shape(fit, (n,), "one fitness value per candidate")
        i = int(c.index)
        V.true(0 <= i < n, "index within the population")
        V.eq(c.fitness, fit[i], "fitness of the candidate")
        V.eq(V.np.array(c.phenotype), A.phenotypes[i], "phenotype of the candidate")
        V.eq(V.np.array(c.genotype), A.genotypes[i], "genotype of the candidate")
        for k in range(n):
            V.true((c.fitness <= fit[k]) if mini else (c.fitness >= fit[k]), "no candidate is better")
        V.true(len(f.seen) == A.state.n_fev, "evaluations are counted")

@case("evaluation", level="bounded", note="populations of four", reps=40)
def _(V):
    with model(V) as ga:
        f = Log(V)
        A = algorithm(V, ga, f, 4, False)
        fit = A.fitness
        again = A.fitness
        V.true(len(f.seen) == 4 and A.state.n_fev == 4, "every candidate is evaluated once and counted")
        for k in range(4):
            x, v = f.seen[k]
            V.eq(V.np.array(x), A.phenotypes[k], "the objective is evaluated at the phenotypes")
            V.eq(fit[k], v, "fitness values are those of the objective")
        V.eq(again, fit, "fitness values are kept")
        d = A.decode(A.genotypes)
        V.eq(A.phenotypes, d, "phenotypes decode the genotypes")
        g2 = genes(V, "h", (4, 2))
        A.genotypes = g2
        V.eq(A.phenotypes, A.decode(g2), "phenotypes follow the genotypes")
        fit2 = A.fitness
        for k in range(4):
            V.eq(fit2[k], f.seen[4 + k][1], "fitness values follow the genotypes")
        V.true(A.state.n_fev == 8, "evaluations are counted")

@case("one generation", level="bounded", note="inductive step over histories of any length: any champion, any next population of four", reps=60)
def _(V):
    mini = V.choice("minimize", [False, True])
    with model(V) as ga:
        f = Log(V)
        A = algorithm(V, ga, f, 4, mini)
        fresh = V.choice("first", [True, False])
        if fresh:
            A.evolve(1)
            vals = [v for _, v in f.seen]
            champion_ok(V, A, vals, mini)
            V.true(A.champion.age == 1, "a new champion has age one")
            V.true(A.state.n_fev == 4, "evaluations are counted")
            return
        # any earlier history: the champion is the best value met, whatever it is
        A.evolve(1)
        n0 = len(f.seen)
        old = A.champion
        b, age = V.real("best"), V.int("age", 1, 9)
        V.assume(age >= 1)
        A._champion = old = ga.Genom(phenotype=[V.real("xb")], genotype=[0, 1], fitness=b, age=age, index=0)
        A.evolve(1)
        vals = [v for _, v in f.seen[n0:]]
        V.true(len(vals) == 4 and A.state.n_fev == 8, "the new population is evaluated once and counted")
        champion_ok(V, A, [b] + vals, mini)
        ch = A.champion
        if ch is old:
            V.eq(ch.age, age + 1, "the champion ages")
            for v in vals:
                V.true((b <= v) if mini else (b >= v), "the champion stays while unbeaten")
        else:
            V.eq(ch.age, 1, "a new champion has age one")
            V.true((ch.fitness < b) if mini else (ch.fitness > b), "a champion is only replaced by a better one")
            i = int(ch.index)
            V.eq(ch.fitness, vals[i], "the champion's fitness is the objective at its phenotype")
            V.eq(V.np.array(ch.phenotype), A.phenotypes[i], "the champion's phenotype")
            V.eq(V.np.array(ch.genotype), A.genotypes[i], "the champion's genotype")

def carried_locals(fn):
    """local names a while loop of fn may carry from one iteration to the next (read before they are assigned)"""
    src = inspect.getsource(fn)
    import textwrap
    t = ast.parse(textwrap.dedent(src)).body[0]
    loops = [n for n in ast.walk(t) if isinstance(n, (ast.While, ast.For))]
    if len(loops) != 1 or not isinstance(loops[0], ast.While):
        return None
    w = loops[0]
    params = {a.arg for a in t.args.args + t.args.kwonlyargs} | ({t.args.kwarg.arg} if t.args.kwarg else set())
    assigned = {n.id for n in ast.walk(w) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    bad, done = set(), set()
    def reads(node):
        return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} & assigned
    test = reads(w.test)
    for st in w.body:
        if isinstance(st, ast.Assign) and all(isinstance(x, ast.Name) for x in st.targets):
            bad |= reads(st.value) - done
            done |= {x.id for x in st.targets}
        else:
            bad |= (reads(st) | {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}) - done
    return bad, test

@case("run loop, any iteration", reps=30, concrete=False, note="the loop of solve is cut: one arbitrary iteration from an arbitrary state; frame: nothing local is carried over")
def _(V):
    from pyvc.poly import Unsupported
    with model(V) as ga:
        c = carried_locals(ga.GeneticAlgorithm.solve)
        if c is None or c[0]:
            raise Unsupported("the run loop carries local state")
        A = algorithm(V, ga, objective, 4, False)
        n0, mini, maxi, age, maxage = V.dim("n0", 0), V.int("miniter"), V.int("maxiter"), V.int("age"), V.int("maxage")
        V.assume(mini <= maxi)
        ok = ga.GeneticAlgorithm.Status
        A.miniter, A.maxiter, A.maxage = mini, maxi, maxage
        A.state.n_iter = n0
        calls = [0]
        def evolve(cycles=1):
            if calls[0] == 1:
                raise Cut()
            calls[0] += 1
            V.true(cycles == 1, "one generation per iteration")
            A._champion = ga.Genom(phenotype=[0], genotype=[0, 0], fitness=V.real("c"), age=age, index=0)
        A.evolve = evolve
        cut = False
        try:
            r = A.solve(recycle=True)
        except Cut:
            cut = True
        n1 = A.state.n_iter
        V.eq(n1, n0 + 1, "iterations are counted")
        if cut:
            V.true((n1 < mini) | (age <= maxage), "the run goes on only until convergence or the minimum number of iterations")
            V.true(n1 < maxi, "never more iterations than the maximum")
            return
        V.same(r, A.champion, "the champion is returned")
        V.true(n1 >= mini, "never fewer iterations than the minimum")
        V.true((n1 >= maxi) | (age > maxage), "the run stops for a reason")
        V.true(A.state.success is True, "success")
        st = A.state.stage
        if bool(n1 >= maxi):
            V.true(st == 1, "status: maximum number of iterations reached")
        else:
            V.true(st == 2, "status: converged")

@case("short runs", level="bounded", note="up to three iterations, any ages and limits up to three", reps=60)
def _(V):
    with model(V) as ga:
        f = Log(V)
        mini = V.choice("minimize", [False, True])
        maxi = V.choice("maxiter", [1, 2, 3])
        low = V.choice("miniter", list(range(0, maxi + 1)))
        maxage = V.choice("maxage", [0, 1, 2])
        A = algorithm(V, ga, f, 4, mini)
        ages = []
        if V.proof:
            def evolve(cycles=1):
                for _ in range(cycles):
                    ages.append(V.int("age%d" % len(ages)))
                    A._champion = ga.Genom(phenotype=[0], genotype=[0, 0], fitness=0, age=ages[-1], index=0)
            A.evolve = evolve
        else:
            real = A.evolve
            def evolve(cycles=1):
                r = real(cycles)
                ages.append(A.champion.age)
                return r
            A.evolve = evolve
        A.solve(maxiter=maxi, miniter=low, maxage=maxage)
        n = len(ages)
        V.true(A.state.n_iter == n, "iterations are counted")
        V.true(max(low, 1) <= n <= maxi, "number of iterations within the limits")
        for k, a in enumerate(ages[:-1]):
            if k + 1 >= low:
                V.true(a <= maxage, "the run goes on only while not converged")
        if n < maxi:
            V.true(ages[-1] > maxage, "the run stops for a reason")
            V.true(A.state.stage == 2, "status: converged")
        else:
            V.true(A.state.stage == 1, "status: maximum number of iterations reached")
        V.true(A.state.success is True, "success")

@case("failing objective", level="bounded", note="populations of four, failure at any evaluation of the first two generations", reps=40)
def _(V):
    with model(V) as ga:
        f = Log(V)
        A = algorithm(V, ga, f, 4, V.choice("minimize", [False, True]))
        f.fail_at = V.choice("at", list(range(8)))
        _, e = V.attempt(lambda: A.solve(maxiter=5, maxage=9), Exception)
        V.true(e is not None, "the failure is reported to the caller")
        V.true(isinstance(e, RuntimeError), "as a RuntimeError")
        V.true(A.state.stage == -1, "status: error")
        V.true(A.state.success is False, "no success")
        V.true(len(A.state.message) > 0, "with a message")
        if f.fail_at >= 4:
            champion_ok(V, A, [v for _, v in f.seen[:4]], A._minimize)

@case("reset", level="bounded", note="populations of four", reps=20)
def _(V):
    with model(V) as ga:
        f = Log(V)
        A = algorithm(V, ga, f, 4, False)
        A.evolve(1)
        A.state.n_iter = 7
        r = A.reset()
        V.same(r, A, "reset returns the object")
        V.true(A.champion is None, "reset forgets the champion")
        s = A.state
        V.true(s.n_iter == 0 and s.n_fev == 0 and s.x is None and s.fun is None and s.stage is None, "reset clears the state")
        n0 = len(f.seen)
        A.evolve(1)
        champion_ok(V, A, [v for _, v in f.seen[n0:]], False)

@case("comparing candidates", reps=40)
def _(V):
    with model(V) as ga:
        a, b = V.real("a"), V.real("b")
        g, h = ga.Genom(phenotype=[0.0], genotype=[1, 0], fitness=a), ga.Genom(phenotype=[0.0], genotype=[1, V.choice("bit", [0, 1])], fitness=b)
        V.eq(g > h, a > b, "greater")
        V.eq(g < h, a < b, "less")
        V.eq(g >= h, a >= b, "greater or equal")
        V.eq(g <= h, a <= b, "less or equal")
        same = list(g.genotype) == list(h.genotype)
        V.true(bool(g == h) == same, "candidates are equal when their genotypes are")
        V.true(not same or hash(g) == hash(h), "equal candidates have equal hashes")
        V.true(not (g == 3), "not equal to something else")
        for op in ("__lt__", "__gt__", "__le__", "__ge__"):
            _, e = V.attempt(lambda: getattr(g, op)(3), TypeError)
            V.true(e is not None, "candidates are not compared with something else")

@case("scipy result", reps=10)
def _(V):
    st = V.lib("optimize.state")
    S = st.OptimizerState
    v = dict(fun=V.real("fun"), n_fev=V.int("a", 0, 99), n_jev=V.int("b", 0, 99), n_hev=V.int("c", 0, 99), n_iter=V.int("d", 0, 99), success=V.choice("ok", [True, False]), message="m", stage=V.choice("stage", [-1, 0, 1, 2]))
    x = V.choice("x", [None, [V.real("x0"), V.real("x1")]])
    s = S.model_construct(x=x, **v) if V.proof else S(x=x, **v)
    r = s.to_scipy()
    V.true(r.x is None if x is None else len(r.x) == 2, "solution")
    if x is not None:
        V.eq(V.np.array(list(r.x)), V.np.array(x), "solution")
    for k, kk in (("fun", "fun"), ("nfev", "n_fev"), ("njev", "n_jev"), ("nhev", "n_hev"), ("nit", "n_iter"), ("status", "stage")):
        V.eq(r[k], v[kk], k)
    V.true(r.success == v["success"] and r.message == "m", "success and message")

# ---------------------------------------------------------------- whole runs of the binary algorithm
@case("whole runs", proof=False, reps=60)
def _(V):
    np = V.np
    dim = V.choice("dim", [1, 2, 3])
    mini = V.choice("minimize", [False, True])
    kind = V.choice("objective", ["smooth", "flat", "constant", "steps", "symbolic", "huge"])
    seen = []
    F = V.lib("function").Function
    fs = {"smooth": lambda x: float(np.sum(np.sin(3 * x) + x)), "flat": lambda x: float(x[0] > 0), "constant": lambda x: 2.5,
          "steps": lambda x: float(np.sum(np.round(x))), "huge": lambda x: float(1e30 * np.sum(x))}
    if kind == "symbolic":
        names = ["x", "y", "z"][:dim]
        sym = F("+".join("%s**2-%s" % (n, n) for n in names), variables=names)
        base = lambda x: float(sum(t * t - t for t in x))
    else:
        base = fs[kind]
    def f(x):
        seen.append(base(x))
        return seen[-1]
    GA = V.lib("optimize.bga").BinaryGeneticAlgorithm
    maxi = V.choice("maxiter", [1, 2, 5, 12])
    low = V.choice("miniter", [0, 1, 2, 5, 12])
    V.assume(low <= maxi)
    kw = dict(maxiter=maxi, miniter=low, maxage=V.choice("maxage", [0, 1, 3, 50]), elitism=V.choice("el", [None, 1, 2, 0.5]), p_c=V.choice("p_c", [0.5, 1]), p_m=V.choice("p_m", [0.0, 0.3, 1.0]), minimize=mini)
    A = GA(sym if kind == "symbolic" else f, [[-2, 2]] * dim, length=V.choice("length", [3, 6, 10]), nPop=V.choice("nPop", [4, 8, 20]), **kw)
    better = min if mini else max
    hist, pops = [], [0]
    real = A.evaluate
    done = 0
    steps = []
    orig = type(A).evolve
    def evolve(cycles=1):
        for _ in range(cycles):
            r = orig(A, 1)
            hist.extend(base(x) for x in A.phenotypes)
            steps.append(A.champion.fitness)
            ch = A.champion
            t = 1e-9 * max(1, abs(ch.fitness))
            V.true(abs(ch.fitness - better(hist)) <= t, "the champion's fitness is the best met since the last reset")
            V.true(abs(base(np.array(ch.phenotype)) - ch.fitness) <= t, "the champion's fitness is the objective at its phenotype")
            g = np.tile(np.array(ch.genotype), (A.nPop, 1))
            V.eq(A.decode(g)[0], np.array(ch.phenotype), "the champion's phenotype decodes its genotype")
            V.true(A.state.fun == ch.fitness and list(A.state.x) == list(ch.phenotype), "the state mirrors the champion")
        return r
    runs = V.choice("runs", ["one", "two", "recycle"])
    for k in range(1 if runs == "one" else 2):
        recycle = runs == "recycle" and k > 0
        if not recycle:
            hist.clear(), steps.clear(), seen.clear()
            n0 = 0
        else:
            n0 = A.state.n_iter
        A.__dict__["evolve"] = evolve
        r = A.solve(recycle=recycle)
        V.same(r, A.champion, "the champion is returned")
        n = A.state.n_iter
        V.true(n == len(steps), "iterations are counted")
        V.true(A.state.n_fev == n * A.nPop, "evaluations are counted")
        if kind != "symbolic":
            V.true(len(seen) == A.state.n_fev, "evaluations are those of the objective")
        V.true(n >= low and n <= max(maxi, n0 + 1), "iterations stay within the limits")
        conv = A.champion.age > A.maxage
        V.true(A.state.success and A.state.stage == (1 if n >= maxi else 2), "status")
        V.true(n >= maxi or conv, "the run stops for a reason")
        V.true(all((b <= a if mini else b >= a) for a, b in zip(steps, steps[1:])), "the champion never gets worse")

@case("objective failing in the middle of a run", proof=False, reps=30)
def _(V):
    np = V.np
    k = V.choice("at", [0, 3, 7, 8, 9, 20])
    n = [0]
    def f(x):
        n[0] += 1
        if n[0] > k:
            raise ValueError("no value here")
        return float(x[0])
    GA = V.lib("optimize.bga").BinaryGeneticAlgorithm
    A = GA(f, [[0, 1]], length=5, nPop=8, maxage=99)
    _, e = V.attempt(lambda: A.solve(maxiter=50), Exception)
    V.true(isinstance(e, RuntimeError) and isinstance(e.__cause__, ValueError), "the failure is reported with its cause")
    V.true(A.state.stage == -1 and A.state.success is False and A.state.message != "", "error status")
    V.true(A.state.n_iter == k // 8, "finished iterations are counted")

# ---------------------------------------------------------------- populations of any size
def big(V, ga, mini, n):
    """an algorithm with a population of any size; one variable, the objective is an arbitrary function of it"""
    from pyvc.shim_np import uninterpreted
    F = uninterpreted("objective")
    k = [0]
    class Any(ga.GeneticAlgorithm):
        def populate(self, genotypes=None):
            k[0] += 1
            return V.arr("g%d" % k[0], (self.nPop, 2), kind="i")
        def decode(self, genotypes):
            return V.np.array(genotypes[:, :1] * 2 + genotypes[:, 1:2])
        def select(self, *a):
            return None
    f = lambda x: F(x[0])
    A = Any(f, [[0, 3]], length=2, nPop=4, minimize=mini)
    A.nPop = n
    A.genotypes = A.populate()
    return A, f

@case("any population: evaluation and best candidate", concrete=False)
def _(V):
    mini = V.choice("minimize", [False, True])
    n = V.dim("n", 1)
    with model(V) as ga:
        A, f = big(V, ga, mini, n)
        V.true(A.state.n_fev == 0, "nothing is counted before")
        fit = A.fitness
        V.shape(fit, (n,), "one fitness value per candidate")
        V.eq(A.state.n_fev, n, "evaluations are counted")
        g = A.genotypes
        V.alleq(fit, (n,), lambda i: f([2 * g[i, 0] + g[i, 1]]), "fitness values are those of the objective at the decoded genotypes")
        c = A.best_candidate()
        V.eq(A.state.n_fev, n, "no candidate is evaluated twice")
        V.true((c.index >= 0) & (c.index < n), "index within the population")
        V.eq(c.fitness, fit[c.index], "fitness of the candidate")
        V.eq(c.phenotype[0], 2 * c.genotype[0] + c.genotype[1], "the phenotype decodes the genotype")
        V.eq(c.fitness, f(c.phenotype), "the fitness is the objective at the phenotype")
        for j in range(2):
            V.eq(c.genotype[j], g[c.index, j], "genotype of the candidate")
        V.forall((n,), lambda i: V.true((c.fitness <= fit[i]) if mini else (c.fitness >= fit[i]), "no candidate is better"))

@case("any population: one generation", concrete=False, note="inductive step over histories of any length: any champion, any next population of any size")
def _(V):
    mini = V.choice("minimize", [False, True])
    n = V.dim("n", 1)
    with model(V) as ga:
        A, f = big(V, ga, mini, n)
        next(A._evolver)
        seen = V.int("evaluations so far")
        A.state.n_fev = seen
        A.fitness
        first = V.choice("first", [True, False])
        b, age, xb = V.real("best"), V.int("age"), V.real("xb")
        old = None
        if not first:
            A._champion = old = ga.Genom(phenotype=[xb], genotype=[0, 1], fitness=b, age=age, index=0)
        A.evolve(1)
        ch, fit, g = A.champion, A.fitness, A.genotypes
        V.eq(A.state.n_fev, seen + 2 * n, "the new population is evaluated once and counted")
        V.eq(A.state.fun, ch.fitness, "the state carries the champion's fitness")
        V.eq(A.state.x[0], ch.phenotype[0], "the state carries the champion's phenotype")
        V.forall((n,), lambda i: V.true((ch.fitness <= fit[i]) if mini else (ch.fitness >= fit[i]), "nobody in the population beats the champion"))
        if ch is old:
            V.eq(ch.age, age + 1, "the champion ages")
            V.eq(ch.fitness, b, "the champion keeps its fitness")
            V.eq(ch.phenotype[0], xb, "the champion keeps its phenotype")
        else:
            if not first:
                V.true((ch.fitness < b) if mini else (ch.fitness > b), "a champion is only replaced by a better one")
            V.eq(ch.age, 1, "a new champion has age one")
            V.eq(ch.fitness, fit[ch.index], "the champion is a member of the population")
            V.eq(ch.fitness, f(ch.phenotype), "its fitness is the objective at its phenotype")
            V.eq(ch.phenotype[0], 2 * ch.genotype[0] + ch.genotype[1], "its phenotype decodes its genotype")

@case("any number of given phenotypes is evaluated and counted", note="inductive step: any number of earlier evaluations")
def _(V):
    mini = V.choice("minimize", [False, True])
    with model(V) as ga:
        m = V.dim("m", 1, 9)
        if V.proof:
            A, f = big(V, ga, mini, V.dim("n", 1))
            seen = V.int("evaluations so far")
        else:
            f = lambda x: 3 * x[0] - 1
            A = algorithm(V, ga, f, V.choice("n", [4, 8]), mini)
            seen = V.choice("evaluations so far", [0, 3, 11])
        A.state.n_fev = seen
        p = V.arr("p", (m, 1))
        keep = V.copy(p)
        r = A.evaluate(p)
        V.shape(r, (m,), "one value per phenotype")
        V.alleq(r, (m,), lambda i: f([p[i, 0]]), "values are those of the objective")
        V.eq(A.state.n_fev, seen + m, "evaluations are counted")
        V.unchanged(p, keep, "the phenotypes given")

@case("histories of public calls", proof=False, reps=40)
def _(V):
    np = V.np
    mini = V.choice("minimize", [False, True])
    better = min if mini else max
    seen, count = [], [0]
    kind = V.choice("objective", ["smooth", "steps", "constant"])
    fs = {"smooth": lambda x: float(np.sin(5 * x[0]) - x[0]), "steps": lambda x: float(np.round(x[0])), "constant": lambda x: -1.0}
    def f(x):
        count[0] += 1
        seen.append(fs[kind](x))
        return seen[-1]
    GA = V.lib("optimize.bga").BinaryGeneticAlgorithm
    A = GA(f, [[-2, 2]], length=V.choice("length", [3, 8]), nPop=V.choice("nPop", [4, 8]), elitism=V.choice("el", [None, 1, 0.5]), minimize=mini, p_m=V.choice("p_m", [0.0, 0.3, 1.0]))
    its = 0
    champ = None
    for k in range(V.choice("steps", [2, 4, 6])):
        op = V.choice("op%d" % k, ["evolve", "evolve", "solve", "recycle", "reset", "look", "evaluate"])
        if op in ("solve", "reset"):
            seen.clear()
            count[0] = its = 0
            champ = None
        if op == "evolve":
            c = V.choice("cycles%d" % k, [1, 2, 5])
            V.same(A.evolve(c), A.genotypes, "the genotypes are returned")
        elif op == "solve":
            A.solve(maxiter=V.choice("mx%d" % k, [1, 4]), miniter=0)
            its = A.state.n_iter
        elif op == "recycle":
            n0 = A.state.n_iter
            A.solve(recycle=True, maxiter=n0 + V.choice("more%d" % k, [1, 3]), miniter=0)
            V.true(A.state.n_iter > n0, "iterations are counted on")
            its = A.state.n_iter
        elif op == "reset":
            V.same(A.reset(), A, "reset returns the object")
            V.true(A.champion is None and A.state.n_iter == 0 and A.state.n_fev == 0, "reset forgets everything")
        elif op == "look":
            c = A.best_candidate()
            V.eq(np.array(A.best_phenotype()), np.array(c.phenotype), "best phenotype of the population")
        else:
            x = np.array([[-1.5], [0.25], [1.0]])
            V.eq(A.evaluate(x), np.array([fs[kind](t) for t in x]), "values of the objective")
            del seen[-3:]
        V.true(A.state.n_fev == count[0], "evaluations are counted")
        V.true(A.state.n_iter == its, "iterations are counted")
        if A.champion is not None and op not in ("look", "evaluate"):
            V.true(A.champion.fitness == better(seen), "the champion's fitness is the best met since the last reset")
            V.true(fs[kind](np.array(A.champion.phenotype)) == A.champion.fitness, "the champion's fitness is the objective at its phenotype")
            V.true(A.state.fun == A.champion.fitness and list(A.state.x) == list(A.champion.phenotype), "the state mirrors the champion")
            if champ is not None:
                V.true(better(A.champion.fitness, champ) == A.champion.fitness, "the champion never gets worse")
            champ = A.champion.fitness
