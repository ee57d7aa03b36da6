"""C15: a linear program is handed to the solver exactly as stated."""
from itertools import permutations
from fractions import Fraction
from pyvc.harness import case
from props.util import patched
import operator as O
import sympy as sy

OPS = ["=", "<=", "<", ">=", ">"]
FUN = {"=": O.eq, "<=": O.le, "<": O.lt, ">=": O.ge, ">": O.gt}
TINY = Fraction(1, 10 ** 300)

class SparseRec:
    """scipy.sparse.csr_matrix((data, (rows, cols)), shape, dtype=float): sums the entries"""
    def __init__(self, arg, shape=None, dtype=None):
        data, (rows, cols) = arg
        if not (len(data) == len(rows) == len(cols)):
            raise ValueError("lengths differ")
        self.shape = shape
        self.a = [[0] * int(shape[1]) for _ in range(int(shape[0]))]
        for v, i, j in zip(data, rows, cols):
            if not (0 <= int(i) < int(shape[0]) and 0 <= int(j) < int(shape[1])):
                raise ValueError("index out of range")
            self.a[int(i)][int(j)] = self.a[int(i)][int(j)] + v

class sparse_standin:
    csr_matrix = SparseRec

def functions(V):
    """stand-ins with arbitrary linear coefficients, by the contract of linear_coefficients and of the value (property C20)"""
    F, R = V.lib("function").Function, V.lib("function.relation")
    class Lin:
        def setup(self, coefs, const, variables):
            self.coefs, self.const = coefs, const
            self.expr, self.variables, self.f0, self.f1, self.f2 = "linear", list(variables), None, None, None
            return self
        def linear_coefficients(self, normalize=False):
            d = {v: 0 for v in self.variables}
            d.update(self.coefs)
            d[sy.S.One] = self.const
            return d
        coefficients = linear_coefficients
        def f(self, x):
            t = self.const
            if len(x) != len(self.variables):
                raise ValueError("wrong number of values")
            for v, xi in zip(self.variables, x):
                t = t + self.coefs.get(v, 0) * xi
            return t
        __call__ = f
    class LF(Lin, F):
        def __new__(cls):
            return object.__new__(cls)
        def __init__(self):
            pass
    class LE(Lin, R.Equality):
        def __new__(cls, *a):
            return object.__new__(cls)
        def __init__(self, op, how):
            self.op, self.op_str = R.Relations(op), op
            self.opfunc = self.op.to_opfunc()
    class LI(Lin, R.InEquality):
        def __new__(cls, *a):
            return object.__new__(cls)
        def __init__(self, op, how):
            self.op, self.op_str = R.Relations(op), op
            self.opfunc = self.op.to_opfunc()
            if how == "callable and symbol":
                self.op = None
    return LF, LE, LI

def dense_rows(A):
    if A is None:
        return []
    if isinstance(A, SparseRec):
        return A.a
    if hasattr(A, "toarray"):
        A = A.toarray()
    return [[A[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])]

def same(V, x, y, what):
    if V.proof:
        V.eq(x, y, what)
    else:
        V.true(abs(float(x) - float(y)) <= 1e-10 * max(1, abs(float(y))), "%s: %s instead of %s" % (what, x, y))

def check_arrays(V, c, kw, obj, cons, variables, maximize, note=""):
    """cons: list of (op, {symbol: coef}, const)"""
    n = len(variables)
    sgn = -1 if maximize else 1
    V.true(len(c) == n, "one cost per variable" + note)
    for j, v in enumerate(variables):
        same(V, c[j], sgn * obj[0].get(v, 0), "cost vector" + note)
    eqs = [k for k in cons if k[0] == "="]
    ins = [k for k in cons if k[0] != "="]
    A, b = dense_rows(kw["A_eq"]), kw["b_eq"]
    V.true(len(A) == len(eqs) and (b is None) == (not eqs) and (not eqs or len(b) == len(eqs)), "one row per equality" + note)
    for i, (_, a, k) in enumerate(eqs):
        for j, v in enumerate(variables):
            same(V, A[i][j], a.get(v, 0), "rows of the equalities" + note)
        same(V, b[i], -k, "right sides of the equalities" + note)
    A, b = dense_rows(kw["A_ub"]), kw["b_ub"]
    V.true(len(A) == len(ins) and (b is None) == (not ins) and (not ins or len(b) == len(ins)), "one row per inequality" + note)
    for i, (op, a, k) in enumerate(ins):
        s = 1 if op in ("<", "<=") else -1
        for j, v in enumerate(variables):
            same(V, A[i][j], s * a.get(v, 0), "rows of the inequalities" + note)
        if op in ("<=", ">="):
            same(V, b[i], -s * k, "right sides of the inequalities" + note)
        elif V.proof:
            V.true(b[i] < -s * k, "strict inequalities leave a margin" + note)
            V.true(b[i] >= -s * k - TINY, "the margin is the smallest possible" + note)
        else:
            V.true(abs(float(b[i]) + s * k) <= 1e-12 * (1 + abs(k)), "strict inequalities leave the smallest margin" + note)

class Stop(Exception):
    pass

def bounds_of(V, n):
    return V.choice("bounds", [(0, None), [(0, None)] * n, [(k, k + 5) for k in range(n)], (None, None)])

@case("every coefficient, operator, direction and form", level="bounded", concrete=False, paths=20000, budget=240,
      note="up to two variables and two constraints in every order of declaration; all coefficients and constants arbitrary")
def translation(V):
    L = V.lib("optimize.lp")
    LF, LE, LI = functions(V)
    n = V.choice("n", [1, 2])
    m = V.choice("m", [0, 1, 2])
    if n == 2 and m == 2:
        full = False
    else:
        full = True
    X = list(sy.symbols("u v"))[:n]
    perms = list(permutations(X))
    variables = list(V.choice("order", perms))
    def lin(nm):
        return {x: V.real("%s%s" % (nm, x)) for x in X}
    co, ko = lin("c"), V.real("c0")
    obj = LF().setup(co, ko, V.choice("order of the objective", perms))
    cons, objs = [], []
    for k in range(m):
        op = V.choice("op%d" % k, OPS)
        a, b = lin("a%d" % k), V.real("b%d" % k)
        how = V.choice("how%d" % k, ["string", "callable and symbol"] if op != "=" and m == 1 else ["string"])
        order = V.choice("order%d" % k, perms if full else [perms[k % len(perms)]])
        objs.append((LE if op == "=" else LI)(op, how).setup(a, b, order))
        cons.append((op, a, b))
    sp = V.choice("sparse", [False, True])
    mx = V.choice("maximize", [False, True])
    bounds = V.choice("bounds", [(0, None), [(0, 5)] * n])
    integ = V.choice("integrality", [None, 1]) if full else None
    with patched(L, sparse=sparse_standin):
        p = L.LinearProgrammingProblem(obj, objs, variables=variables, bounds=bounds, integrality=integ, sparsify=sp)
        V.true(list(p.variables) == variables, "the variables are those declared")
        c, kw = p._to_scipy(maximize=mx)
        V.true(set(kw) == {"A_ub", "b_ub", "A_eq", "b_eq", "bounds", "integrality"}, "the arguments of the solver")
        V.true(kw["bounds"] is bounds and kw["integrality"] is integ, "bounds and integrality are passed on unchanged")
        for nm in ("A_eq", "A_ub"):
            V.true(kw[nm] is None or isinstance(kw[nm], SparseRec) == sp, "sparse exactly when requested")
        check_arrays(V, c, kw, (co, ko), cons, variables, mx)

@case("the solver is called with the translated problem and its answer reported", level="bounded", concrete=False, paths=3000, budget=120,
      note="two variables, one constraint; solver answers arbitrary")
def solving(V):
    np = V.np
    L = V.lib("optimize.lp")
    LF, LE, LI = functions(V)
    X = list(sy.symbols("u v"))
    perms = list(permutations(X))
    variables = list(V.choice("order", perms))
    co, ko = {x: V.real("c%s" % x) for x in X}, V.real("c0")
    obj = LF().setup(co, ko, V.choice("order of the objective", perms))
    op = V.choice("op", OPS)
    a, b = {x: V.real("a%s" % x) for x in X}, V.real("b")
    con = (LE if op == "=" else LI)(op, "string").setup(a, b, perms[0])
    mx = V.choice("maximize", [False, True])
    ok = V.choice("success", [True, False])
    x = V.arr("x", (2,))
    seen = []
    class Res:
        pass
    def linprog(c, **kw):
        seen.append((c, kw))
        r = Res()
        r.x, r.fun, r.success = (x if ok else None), "solver", ok
        return r
    more = V.choice("options", [{}, {"method": "highs-ds"}, {"options": {"disp": False}}])
    with patched(L, sparse=sparse_standin, linprog=linprog):
        p = L.LinearProgrammingProblem(obj, [con], variables=variables)
        r = p.solve(maximize=mx, **more)
    V.true(len(seen) == 1, "the solver is called once")
    c, kw = seen[0]
    check_arrays(V, c, kw, (co, ko), [(op, a, b)], variables, mx)
    V.true(kw["method"] == more.get("method", "highs"), "the method asked for")
    V.true(all(kw[k] == v for k, v in more.items()), "options are passed on")
    V.true(r.success is ok, "the status is that of the solver")
    if ok:
        V.true(r.x is x, "the point is that of the solver")
        V.eq(r.fun, ko + sum(co[v] * x[j] for j, v in enumerate(variables)), "the optimum value is the stated objective at the reported point")

@case("integrality is inferred from the symbols", reps=30, level="bounded", note="up to three variables")
def integrality(V):
    L = V.lib("optimize.lp")
    F, R = V.lib("function").Function, V.lib("function.relation")
    n = V.choice("n", [1, 2, 3])
    kinds = [V.choice("kind%d" % k, [None, True, False]) for k in range(n)]
    X = [sy.Symbol("s%d" % k, **({} if kinds[k] is None else {"integer": kinds[k]})) for k in range(n)]
    f = F(sum(X), variables=X)
    given = V.choice("given", [None, 0, 1])
    p = L.LinearProgrammingProblem(f, [R.Relation(sum(X) - 1, op=">=", variables=X)], variables=X, integrality=given, sparsify=False)
    got = p._to_scipy()[1]["integrality"]
    if given is not None:
        V.true(got is given, "integrality given is passed on")
    elif any(k is True for k in kinds):
        V.true([int(g) for g in got] == [int(k is True) for k in kinds], "integer symbols are integer variables")
    else:
        V.true(got is None or all(int(g) == 0 for g in (got if hasattr(got, "__len__") else [got])), "no integer variables without integer symbols")

NUMS = [-3, -2, -1, 0, 0, 1, 2, 5, sy.Rational(1, 3), sy.Rational(-7, 2), 0.25, -1.75]
SPECIAL = [sy.pi, sy.sqrt(2), sy.E, -sy.sqrt(3) / 2]

def draw(V, X, small=()):
    small = list(small)
    pool = NUMS + (SPECIAL if V.rng.random() < 0.3 else []) + (small if V.rng.random() < 0.5 else [])
    return {x: V.rng.choice(pool) for x in X}, V.rng.choice(pool)

def stated(V, R, a, k, op, X, order):
    """the relation  a.x + k op 0  in one of the accepted forms"""
    form = V.rng.choice(["expr", "text", "text moved", "factored", "enum", "callable", "unexpanded"])
    if any(getattr(sy.sympify(c), "is_Float", False) for c in list(a.values()) + [k]) and form.startswith("text"):
        form = "expr"
    e = sum((c * x for x, c in a.items()), sy.Integer(0)) + k
    V.used["form"] = form
    cls = R.Relation if V.rng.random() < 0.5 else (R.Equality if op == "=" else R.InEquality)
    if form == "expr":
        return cls(e, op=op, variables=order)
    if form == "enum":
        return cls(e, op=R.Relations(op), variables=order)
    if form == "callable":
        return cls(e, op=FUN[op], op_str=op, variables=order)
    if form == "unexpanded":
        return cls(sum((sy.Mul(c, x + 1, evaluate=False) for x, c in a.items()), sy.Integer(0)) + k - sum(a.values()), op=op, variables=order)
    if form == "factored":
        return cls(2 * sum((sy.sympify(c) / 2 * x for x, c in a.items()), sy.Integer(0)) + k, op=op, variables=order)
    def tx(c):
        return "(%s)" % sy.sympify(c)
    left = " + ".join("%s*%s" % (tx(c), x) for x, c in a.items())
    if form == "text":
        return cls("%s + %s %s 0" % (left, tx(k), op), variables=order)
    x0 = list(a)[0]
    return cls("%s %s %s - %s" % (" + ".join(["%s*%s" % (tx(c), x) for x, c in a.items() if x is not x0] or ["0"]), op, tx(-sy.sympify(a[x0])) + "*%s" % x0, tx(k)), variables=order)

@case("stated problems on the real library", proof=False, reps=70)
def real(V):
    np = V.np
    L = V.lib("optimize").LinearProgrammingProblem
    F, R = V.lib("function").Function, V.lib("function.relation")
    n = V.dim("n", 1, 4)
    X = list(sy.symbols(["x%d" % k for k in range(n)], **V.rng.choice([{}, {}, {"positive": True}, {"real": True}])))
    def order():
        o = list(X)
        V.rng.shuffle(o)
        return o
    variables = order()
    small = V.choice("range of coefficients", [(), (), (), (1e-7, -3e-8, 2e5)])
    a, k = draw(V, X, small)
    obj = F(sum((c * x for x, c in a.items()), sy.Integer(0)) + k, variables=order())
    cons, rel = [], []
    for _ in range(V.rng.randrange(0, 5)):
        ca, ck = draw(V, X, small)
        if all(c == 0 for c in ca.values()):
            ca[X[0]] = 1
        op = V.rng.choice(OPS)
        rel.append(stated(V, R, ca, ck, op, X, order()))
        cons.append((op, {x: float(c) for x, c in ca.items()}, float(ck)))
    V.used["objective"] = (str(a), str(k), [str(v) for v in variables], [str(v) for v in obj.variables])
    V.used["constraints"] = [(op, {str(x): c for x, c in q.items()}, z) for op, q, z in cons]
    fo = ({x: float(c) for x, c in a.items()}, float(k))
    bounds = V.rng.choice([(0, 10), [(-3, 4)] * n])
    mx = V.rng.random() < 0.5
    for sp in (True, False):
        p = L(obj, rel, variables=variables, bounds=bounds, sparsify=sp)
        c, kw = p._to_scipy(maximize=mx)
        check_arrays(V, c, kw, fo, cons, variables, mx, " (sparse)" if sp else " (dense)")
        V.true(kw["bounds"] == bounds, "bounds are passed on")
        # membership: points satisfy the rows exactly when they satisfy the stated constraints
        for _ in range(4):
            x = np.array([V.rng.randrange(-3, 4) for _ in range(n)], dtype=float)
            vals = dict(zip(variables, x))
            for i, q in enumerate([z for z in cons if z[0] == "="]):
                lhs = np.array(dense_rows(kw["A_eq"])[i]) @ x - kw["b_eq"][i]
                V.true(small or (abs(lhs) < 1e-9) == (abs(sum(q[1][v] * vals[v] for v in X) + q[2]) < 1e-9), "membership of equalities")
            for i, q in enumerate([z for z in cons if z[0] != "="]):
                lhs = float(np.array(dense_rows(kw["A_ub"])[i]) @ x - kw["b_ub"][i])
                w = sum(q[1][v] * vals[v] for v in X) + q[2]
                if abs(w) > 1e-6:
                    V.true((lhs <= 0) == FUN[q[0]](w, 0), "membership of inequalities")
        for r, q in zip(rel, cons):
            V.true(r.op is None or r.op.value == q[0], "operator of the constraint")
        if small:
            continue
        res = p.solve(maximize=mx)
        from scipy.optimize import linprog
        sgn = -1 if mx else 1
        ref = linprog([sgn * fo[0][v] for v in variables],
                      A_eq=[[q[1][v] for v in variables] for q in cons if q[0] == "="] or None, b_eq=[-q[2] for q in cons if q[0] == "="] or None,
                      A_ub=[[(1 if q[0] in "<=" else -1) * q[1][v] for v in variables] for q in cons if q[0] != "="] or None,
                      b_ub=[-(1 if q[0] in "<=" else -1) * q[2] for q in cons if q[0] != "="] or None, bounds=bounds, method="highs")
        V.true(bool(res.success) == bool(ref.success), "solved exactly when the stated problem is")
        if ref.success:
            V.eq(float(res.fun), sgn * ref.fun + fo[1], "the optimum", tol=1e-6)
            V.eq(float(res.fun), sum(fo[0][v] * x for v, x in zip(variables, res.x)) + fo[1], "the optimum value is the objective at the reported point", tol=1e-9)

@case("problems that are not stated completely are rejected", proof=False, reps=5)
def reject(V):
    L = V.lib("optimize").LinearProgrammingProblem
    F, R = V.lib("function").Function, V.lib("function.relation")
    x, y, z = sy.symbols("x y z")
    f = F(x + y, variables=[x, y])
    g = R.Relation(x - 1, op=">=", variables=[x, y])
    for h in (lambda: L(f, [g]), lambda: L(f, [g], variables=[x, z]), lambda: L(f, [g], variables=["x", "y"]), lambda: L(lambda q: q, [g], variables=[x, y]),
              lambda: L(f, [lambda q: q], variables=[x, y]), lambda: L(F(lambda q: q), [g], variables=[x, y]), lambda: L(f, [R.Relation(x - 1, op=O.ge, variables=[x, y])], variables=[x, y]),
              lambda: L(f, [R.InEquality(x - 1, op=O.ge, variables=[x, y])], variables=[x, y])):
        try:
            h()
        except (TypeError, ValueError):
            continue
        V.true(False, "incomplete problems are rejected")
