"""Symbolic scalars, path exploration and the proof interface (z3 behind)."""
import numbers, os, time
from fractions import Fraction
import z3
from . import poly as P
from .poly import Poly, Unsupported, pconst, patom, mk_atom, padd, pmul, pneg, pinv, ppow, is_zero, subst

class PathEnd(BaseException):
    """this path is infeasible or has been cut"""

_UF = {}

def uf(name, n, isint):
    k = (name, n, isint)
    if k not in _UF:
        _UF[k] = z3.Function(name, *([z3.IntSort()] * n), z3.IntSort() if isint else z3.RealSort())
    return _UF[k]

def atom_z(at):
    if at.z is not None:
        return at.z
    k = at.kind
    if k == "var":
        z = z3.Int(at.args[0]) if at.isint else z3.Real(at.args[0])
    elif k == "bv":
        z = z3.Int("bv!%d" % at.args[0])
    elif k == "app":
        if not at.args[1]:
            z = z3.Int(at.args[0]) if at.isint else z3.Real(at.args[0])
        else:
            z = uf(at.args[0], len(at.args[1]), at.isint)(*[to_z(i, True) for i in at.args[1]])
    elif k == "abs":
        x = to_z(at.args[0], at.isint)
        z = z3.If(x >= 0, x, -x)
    elif k == "pol":
        z = to_z(at.args[0])
    elif k == "delta":
        z = z3.If(to_z(at.args[0]) == to_z(at.args[1]), z3.IntVal(1), z3.IntVal(0))
    elif k == "idiv":
        z = to_z(at.args[0], True) / to_z(at.args[1], True)
    elif k == "imod":
        z = to_z(at.args[0], True) % to_z(at.args[1], True)
    elif k in ("sum", "sqrt", "uf"):
        if at.bvs and k != "uf":
            # a term with a free bound variable: an uninterpreted function of it
            bs = sorted(at.bvs)
            z = uf("t!%d" % at.id, len(bs), at.isint)(*[atom_z(P.atom(b)) for b in bs])
        elif k == "uf":
            sig = [z3.ToReal(x) if x.is_int() else x for x in (to_z(a) for a in at.args[1])]
            f = z3.Function("uf!" + at.args[0] + "!%d" % len(sig), *[s.sort() for s in sig],
                            z3.IntSort() if at.isint else z3.RealSort())
            z = f(*sig) if sig else (z3.Int("uf!" + at.args[0]) if at.isint else z3.Real("uf!" + at.args[0]))
        else:
            z = z3.Int("t!%d" % at.id) if at.isint else z3.Real("t!%d" % at.id)
    else:
        raise Unsupported("no z3 form for " + k)
    at.z = z
    return z

def sqrt_facts(p, seen=None):
    """z3 facts about the sqrt / div atoms inside p"""
    out = []
    seen = set() if seen is None else seen
    for a in p.atoms():
        if a in seen:
            continue
        seen.add(a)
        at = P.atom(a)
        if at.kind == "sqrt":
            x = to_z(at.args[0])
            out += [atom_z(at) >= 0, z3.Implies(x >= 0, atom_z(at) * atom_z(at) == x)]
        if at.kind != "sum":
            for q in P._subpolys(at):
                out += sqrt_facts(q, seen)
    return out

def num_z(c, isint):
    if isint:
        return z3.IntVal(int(c))
    return z3.RealVal(str(Fraction(c)))

def to_z(p, isint=None):
    isint = p.isint if isint is None else isint
    terms = []
    for m, c in p.t.items():
        fs = []
        den = []
        for a, e in m:
            z = atom_z(P.atom(a))
            if not isint and P.atom(a).isint:
                z = z3.ToReal(z)
            if abs(e) > 8:
                (fs if e > 0 else den).append(z ** abs(e))
            else:
                (fs if e > 0 else den).extend([z] * abs(e))
        if c.denominator != 1 and isint:
            raise Unsupported("non-integral integer term")
        if c != 1 or not fs:
            fs.insert(0, num_z(c, isint))
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        for f in den:
            t = t / f
        terms.append(t)
    if not terms:
        return num_z(0, isint)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)

# ------------------------------------------------------------------ scalars

def lift(x):
    """anything numeric -> Poly"""
    if isinstance(x, S):
        return x.p
    if isinstance(x, bool):
        return pconst(int(x), True)
    if isinstance(x, int):
        return pconst(x, True)
    if isinstance(x, Fraction):
        return pconst(x, False)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float in symbolic arithmetic")
        return pconst(Fraction(repr(x)), False)
    if isinstance(x, SymBool):
        return lift(x.as_int())
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return pconst(int(x), True)
        if isinstance(x, np.integer):
            return pconst(int(x), True)
        if isinstance(x, np.floating):
            return lift(float(x))
        if isinstance(x, np.ndarray) and x.shape == ():
            return lift(x.item())
    except ImportError:
        pass
    raise TypeError("not a number: %r" % (type(x),))

def lower(p):
    """Poly -> S, or int/Fraction if constant"""
    if not p.t:
        return 0 if p.isint else P.F0
    if len(p.t) == 1 and () in p.t:
        c = p.t[()]
        return int(c) if p.isint and c.denominator == 1 else c
    return S(p)

def numeric(x):
    if isinstance(x, (S, int, float, Fraction, SymBool)):
        return True
    import numpy as np
    return isinstance(x, (np.number, np.bool_))

def _bin(f):
    def op(self, o):
        if not numeric(o):
            return NotImplemented
        return f(self.p, lift(o))
    def rop(self, o):
        if not numeric(o):
            return NotImplemented
        return f(lift(o), self.p)
    return op, rop

def div(a, b):
    a, b = lift(a), lift(b)
    if b.is_const():
        if b.const() == 0:
            raise ZeroDivisionError("division by zero")
        return lower(Poly({m: c / b.const() for m, c in a.t.items()}, False))
    ctx().note_divisor(b)
    return lower(P.cancel(Poly(pmul(Poly(a.t, False), pinv(b)).t, False)))

def fdiv(a, b):
    a, b = lift(a), lift(b)
    if not (a.isint and b.isint):
        raise Unsupported("floor division of reals")
    return lower(P.pidiv(a, b))

def fmod(a, b):
    a, b = lift(a), lift(b)
    if not (a.isint and b.isint):
        raise Unsupported("modulo of reals")
    return lower(P.pimod(a, b))

def _cmp(op):
    def f(self, o):
        if not numeric(o):
            return NotImplemented
        if TINY[0] and isinstance(o, (float, Fraction)) and 0 < o <= TINY[0] * 1.001 and op in ("<", "<=", ">", ">="):
            q = zero_when_small(self.p)
            if q is not None:
                return compare(q, "==" if op in ("<", "<=") else "!=")
        d = padd(self.p, lift(o), -1)
        return compare(d, op)
    return f

TINY = [0]
def zero_when_small(p):
    """p = c * product of absolute values with c > 0: the polynomial that is zero exactly when p is"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if c < 0 or not m:
        return None
    r = P.pconst(1, False)
    for a, e in m:
        at = P.atom(a)
        if e % 2 and at.kind != "abs":
            return None
        if e > 0:
            r = pmul(r, at.args[0] if at.kind == "abs" else patom(at))
    return r

def compare(d, op):
    """SymBool / bool for  d op 0"""
    if d.is_const():
        c = d.const()
        return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
    if any(e < 0 for m in d.t for _, e in m):
        if is_zero(d):
            return op in ("==", "<=", ">=")
        d = P.cancel(d)
        if d.is_const():
            return compare(d, op)
    return SymBool(("cmp", d, op))

class S:
    """symbolic number"""
    __slots__ = ("p",)
    def __init__(self, p):
        self.p = p
    @property
    def isint(self):
        return self.p.isint
    def __repr__(self):
        return "S<%r>" % (self.p,)
    __add__, __radd__ = _bin(lambda a, b: lower(padd(a, b)))
    __sub__, __rsub__ = _bin(lambda a, b: lower(padd(a, b, -1)))
    __mul__, __rmul__ = _bin(lambda a, b: lower(pmul(a, b)))
    __truediv__, __rtruediv__ = _bin(lambda a, b: div(lower(a), lower(b)))
    __floordiv__, __rfloordiv__ = _bin(lambda a, b: fdiv(lower(a), lower(b)))
    __mod__, __rmod__ = _bin(lambda a, b: fmod(lower(a), lower(b)))
    def __neg__(self):
        return lower(pneg(self.p))
    def __pos__(self):
        return self
    def __abs__(self):
        return lower(P.pabs(self.p))
    def __pow__(self, n):
        if isinstance(n, S):
            return lower(patom(mk_atom("uf", ("pow", (self.p, n.p)), self.isint and n.isint)))
        if isinstance(n, Fraction) and n == Fraction(1, 2) or isinstance(n, float) and n == 0.5:
            return self.sqrt()
        n = Fraction(n)
        if n.denominator != 1:
            raise Unsupported("fractional power")
        n = int(n)
        if n >= 0:
            return lower(ppow(self.p, n))
        return div(1, lower(ppow(self.p, -n)))
    def __rpow__(self, b):
        return lower(patom(mk_atom("uf", ("pow", (lift(b), self.p)), self.isint)))
    def sqrt(self):
        return lower(P.psqrt(self.p))
    def conjugate(self):
        return self
    conj = conjugate
    __lt__, __le__, __gt__, __ge__ = _cmp("<"), _cmp("<="), _cmp(">"), _cmp(">=")
    __eq__, __ne__ = _cmp("=="), _cmp("!=")
    def __hash__(self):
        return hash(self.p.key())
    def __bool__(self):
        return bool(compare(self.p, "!="))
    def __index__(self):
        if not self.isint:
            raise TypeError("real number used as an index")
        return ctx().concretize(self)
    __int__ = __index__
    def __float__(self):
        raise Unsupported("a symbolic number reached a native float operation")
    def astype(self, *_):
        return self
    def item(self):
        return self
    @property
    def T(self):
        return self
    @property
    def shape(self):
        return ()
    def tolist(self):
        return self
    def __deepcopy__(self, memo):
        return self
    def __copy__(self):
        return self

numbers.Real.register(S)

class SymBool:
    """a symbolic truth value; form is one of
    ("cmp", Poly, op)   Poly op 0
    ("and", (forms..)) ("or", (forms..)) ("not", form) ("z", z3 expression) ("const", bool)"""
    __slots__ = ("form", "_z", "_facts")
    def __init__(self, form):
        self.form = form
        self._z = None
        self._facts = None
    @property
    def z(self):
        if self._z is None:
            self._z = form_z(self.form)
        return self._z
    @property
    def facts(self):
        if self._facts is None:
            self._facts = form_facts(self.form)
        return self._facts
    def __bool__(self):
        return ctx().decide(self)
    def __invert__(self):
        f = self.form
        if f[0] == "cmp":
            return SymBool(neg_form(f))
        if f[0] == "not":
            return SymBool(f[1])
        return SymBool(("not", f))
    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(("and", (self.form, o.form)))
        return self if o else False
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(("or", (self.form, o.form)))
        return True if o else self
    __ror__ = __or__
    def __eq__(self, o):
        if isinstance(o, SymBool):
            return Or(And(self, o), And(Not(self), Not(o)))
        if isinstance(o, (bool, int, Fraction)) or type(o).__name__ in ("bool_", "bool"):
            if o == 1:
                return self
            if o == 0:
                return ~self
            return False
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (~r if isinstance(r, SymBool) else not r)
    def __hash__(self):
        return hash(repr(self.form))
    def as_int(self):
        return 1 if bool(self) else 0
    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__
    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__
    def __sub__(self, o):
        return self.as_int() - o
    def __rsub__(self, o):
        return o - self.as_int()
    def __int__(self):
        return self.as_int()
    def __index__(self):
        return self.as_int()
    def __repr__(self):
        return "SymBool<%r>" % (self.form,)
    def item(self):
        return self
    def all(self):
        return self
    any = all

def form_z(f):
    k = f[0]
    if k == "cmp":
        z = to_z(f[1])
        op = f[2]
        return z < 0 if op == "<" else z <= 0 if op == "<=" else z > 0 if op == ">" else z >= 0 if op == ">=" \
            else z == 0 if op == "==" else z != 0
    if k == "and":
        return z3.And(*[form_z(x) for x in f[1]])
    if k == "or":
        return z3.Or(*[form_z(x) for x in f[1]])
    if k == "not":
        return z3.Not(form_z(f[1]))
    if k == "const":
        return z3.BoolVal(f[1])
    return f[1]

def form_facts(f):
    k = f[0]
    if k == "cmp":
        return tuple(sqrt_facts(f[1]))
    if k in ("and", "or"):
        return tuple(y for x in f[1] for y in form_facts(x))
    if k == "not":
        return form_facts(f[1])
    return ()

def form_map(f, g):
    """apply the Poly transformer g inside a form; returns SymBool or bool"""
    k = f[0]
    if k == "cmp":
        d = g(f[1])
        return SymBool(f) if d is f[1] else compare(d, f[2])
    if k == "and":
        return And(*[form_map(x, g) for x in f[1]])
    if k == "or":
        return Or(*[form_map(x, g) for x in f[1]])
    if k == "not":
        return Not(form_map(f[1], g))
    if k == "const":
        return f[1]
    return SymBool(f)

def form_polys(f):
    k = f[0]
    if k == "cmp":
        yield f[1]
    elif k in ("and", "or"):
        for x in f[1]:
            yield from form_polys(x)
    elif k == "not":
        yield from form_polys(f[1])

def And(*xs):
    fs = []
    for x in xs:
        if isinstance(x, SymBool):
            if x.form[0] == "and":
                fs.extend(x.form[1])
            else:
                fs.append(x.form)
        elif not x:
            return False
    if not fs:
        return True
    return SymBool(fs[0]) if len(fs) == 1 else SymBool(("and", tuple(fs)))

def Or(*xs):
    fs = []
    for x in xs:
        if isinstance(x, SymBool):
            fs.append(x.form)
        elif x:
            return True
    if not fs:
        return False
    return SymBool(fs[0]) if len(fs) == 1 else SymBool(("or", tuple(fs)))

def Not(x):
    return ~x if isinstance(x, SymBool) else not x

def zb(x):
    return x.z if isinstance(x, SymBool) else z3.BoolVal(bool(x))

# ------------------------------------------------------------------ context

class Obligation:
    __slots__ = ("name", "status", "how", "secs", "detail", "model", "path")

class Level:
    """one decision level (the program, or a loop body being explored)"""
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.conds = []

class Ctx:
    """the verification context: path condition, decisions, obligations"""
    def __init__(self, timeout=4000):
        self.timeout = timeout
        self.obls = []
        self.levels = []
        self.pc = []
        self.eqs = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout)
        self.fresh_n = 0
        self.divisors = []
        self.check_div = False
        self.assumed_div = 0
        self.queries = 0
        self.qtime = 0.0
        self.npaths = 0
        self.inputs = {}
        self.loopstack = []
        self.skolems = set()        # bound variables standing for one arbitrary index of a write being explored
        self.deadline = None
        self.maxpaths = 4000
        self.facts_done = set()
        self.functions = set()
        self.loops_done = 0
        self.loop_obls = 0
        self.on_refute = None
        self.hook = {}
        self.nonzero = set()
        self.nzpolys = []
        self.nonzero_exprs = []
        self.rewrites = []
        self.decide_cache = {}
        self.ipos = []
        self.universals = []
    # -- fresh symbols
    def fresh(self, name, isint=False):
        self.fresh_n += 1
        return lower(patom(mk_atom("var", ("%s!%d" % (name, self.fresh_n),), isint)))
    def var(self, name, isint=False):
        return lower(patom(mk_atom("var", (name,), isint)))
    # -- path condition
    def add(self, b):
        """assume"""
        if isinstance(b, SymBool):
            for f in b.facts:
                self._assert(f)
            self._assert(b.z)
            self._learn(b.form)
            conj_facts(b.form, self.ipos)
        elif not b:
            raise PathEnd()
    assume = add
    def _learn(self, f):
        if f[0] == "cmp" and f[2] == "==":
            self.learn_eq(f[1])
        elif f[0] == "cmp" and f[2] in ("!=", "<", ">") and len(f[1].t) <= 200:
            self.learn_nonzero(f[1])
        if f[0] == "cmp" and f[2] in ("<", ">", "<=", ">="):
            self.learn_sign(f[1], f[2])
        elif f[0] == "and":
            for x in f[1]:
                self._learn(x)
    def normb(self, b):
        """normal form of a truth value under the known equalities"""
        if not isinstance(b, SymBool) or not self.eqs:
            return b
        return form_map(b.form, self.norm)
    def _assert(self, z):
        self.pc.append(z)
        self.solver.add(z)
        self.decide_cache = {}
    def learn_sign(self, p, op):
        """c*x + k >= 0 fixes the sign of x when k is of the right sign: the absolute value of x is then x or -x"""
        if len(p.t) > 2:
            return
        k, at = 0, None
        for m, c in p.t.items():
            if not m:
                k = c
            elif len(m) == 1 and m[0][1] == 1 and P.atom(m[0][0]).kind == "var":
                at, co = P.atom(m[0][0]), c
            else:
                return
        if at is None:
            return
        if op in ("<", "<="):
            k, co = -k, -co
        if k > 0:
            return
        a = patom(at)
        ab = mk_atom("abs", (a,), at.isint)
        self.eqs[ab.id] = a if co > 0 else pneg(a)
    def learn_nonzero(self, p):
        """the path knows p != 0: so are its numerator and every factor of a monomial"""
        if p.is_const():
            return
        self.nonzero.add(monic_key(p))
        try:
            q = P.clear_denominators(p)
        except Unsupported:
            q = p
        if len(q.t) == 1:
            (m, c), = q.t.items()
            for a, e in m:
                self.nonzero.add(monic_key(patom(P.atom(a))))
            return
        self.nonzero.add(monic_key(q))
        if not any(e < 0 for m in q.t for _, e in m):
            self.nzpolys.append(q)
    def learn_eq(self, d):
        """d == 0: remember as a rewriting of one variable if it is linear in a variable atom"""
        d = self.norm(d)
        best = None
        for m, c in d.t.items():
            if len(m) == 1 and m[0][1] == 1:
                at = P.atom(m[0][0])
                if at.kind in ("var", "app", "idiv"):
                    if d.isint and abs(c) != 1:
                        continue
                    # the atom must not occur elsewhere in d
                    rest = Poly({k: v for k, v in d.t.items() if k != m}, d.isint)
                    if at.id in all_atoms(rest):
                        continue
                    rank = (at.kind == "var", at.id)
                    if best is None or rank > best[0]:
                        best = (rank, at.id, Poly({k: -v / c for k, v in rest.t.items()}, d.isint))
        if best is None and not d.isint and d.t and len(d.t) <= 200:
            best = self.solve_linear(d)
        if best is not None:
            _, a, q = best
            self.eqs = {k: subst(v, {a: q}) for k, v in self.eqs.items()}
            self.eqs[a] = q
            for q in list(self.nzpolys):
                if len(q.t) <= 200 and a in all_atoms(q):
                    self.learn_nonzero(self.norm(q))
    def solve_linear(self, d):
        """d == 0 solved for a variable in which d is linear with a coefficient known not to be zero"""
        try:
            n = P.clear_denominators(d)
        except Unsupported:
            return None
        if any(e < 0 for m in n.t for _, e in m):
            return None
        cand = {}
        for m in n.t:
            for a, e in m:
                cand[a] = cand.get(a, True) and e == 1
        for a in sorted((a for a, ok in cand.items() if ok and P.atom(a).kind in ("var", "app")), reverse=True):
            co, rest = {}, {}
            for m, c in n.t.items():
                if any(b == a for b, _ in m):
                    co[tuple((b, e) for b, e in m if b != a)] = c
                else:
                    rest[m] = c
            co, rest = Poly(co, False), Poly(rest, False)
            if a in all_atoms(rest) or a in all_atoms(co):
                continue
            if self.known_nonzero(co):
                return None, a, pmul(pneg(rest), P.pinv(co))
        return None
    def norm(self, p):
        if not self.eqs:
            return p
        for _ in range(4):
            q = subst(p, self.eqs)
            if q is p or q.t == p.t:
                return q
            p = q
        return p
    def sat(self, *bs):
        """is pc and all the truth values bs satisfiable?  products of known inequalities are added when the
        question is nonlinear over the integers"""
        zs, ex, forms = [], [], []
        for b in bs:
            b = self.normb(b)
            if not isinstance(b, SymBool):
                if not b:
                    return "unsat"
                continue
            zs.append(b.z)
            ex += list(b.facts)
            forms.append(b.form)
        h, nl = self.nl_hints(forms)
        z = z3.And(*zs) if zs else z3.BoolVal(True)
        if nl:
            r = self.check(z, ex + h, 1500)
            if r != "unknown" or not h:
                return r
            return "unknown"
        return self.check(z, ex)
    def nl_hints(self, forms):
        qs, pos = [], list(self.ipos)
        for f in forms:
            conj_facts(f, pos)
            qs += [p for p in form_polys(f) if p.isint]
        M = set()
        for p in pos + qs:
            for m in p.t:
                if mdeg(m) > 1:
                    M.add(m)
        M = {m for m in M if all(e > 0 for _, e in m)}
        if not M:
            return [], False
        out, seen = [], set()
        lin = [p for p in pos if all(mdeg(m) <= 2 for m in p.t) and len(p.t) <= 6]
        for i in range(len(lin)):
            for j in range(i, len(lin)):
                f, g = lin[i], lin[j]
                if f.is_const() or g.is_const():
                    continue
                kk = (f.key(), g.key())
                hit = _PAIRS.get(kk)
                if hit is None:
                    q = pmul(f, g)
                    hit = _PAIRS[kk] = (q, [m for m in q.t if mdeg(m) > 1], tuple(sorted(q.t.items())))
                q, nlm, key = hit
                if not nlm or not all(m in M for m in nlm):
                    continue
                if key in seen:
                    continue
                seen.add(key)
                out.append(to_z(q, True) >= 0)
                if len(out) > 120:
                    return out, True
        return out, True
    def check(self, z, extra=(), timeout=None):
        """is pc and z satisfiable?  'sat' | 'unsat' | 'unknown'"""
        t = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        self.solver.add(z)
        r = str(self.solver.check())
        self.model_ = self.solver.model() if r == "sat" else None
        self.solver.pop()
        if timeout:
            self.solver.set("timeout", self.timeout)
        self.queries += 1
        self.qtime += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the proof exhausted")
        return r
    def entails(self, b):
        b = self.normb(b)
        if not isinstance(b, SymBool):
            return bool(b)
        return self.sat(~b) == "unsat"
    # -- decisions
    def decide(self, b):
        b = self.normb(b)
        if not isinstance(b, SymBool):
            return bool(b)
        z = b.z
        key = z.get_id()
        hit = self.decide_cache.get(key)
        if hit is not None:
            return hit[1]
        if not self.levels:
            raise Unsupported("decision outside of a proof")
        lv = self.levels[-1]
        f = b.form
        hard = f[0] == "cmp" and f[2] in ("==", "!=") and not f[1].isint and (len(f[1].t) > 1 and max(map(mdeg, f[1].t)) > 2 or any(e < 0 for m in f[1].t for _, e in m))
        if f[0] == "cmp" and f[2] in ("==", "!=") and not f[1].isint and self.known_nonzero(f[1]):
            self.decide_cache[key] = (z, f[2] == "!=")
            return f[2] == "!="
        if hard:
            # a path that turns out to be infeasible does no harm: do not spend time on excluding it
            t0, self.timeout = self.timeout, min(self.timeout, 150)
            self.solver.set("timeout", self.timeout)
            try:
                ct = self.sat(b)
                cf = "sat" if ct == "unsat" else self.sat(~b)
            finally:
                self.timeout = t0
                self.solver.set("timeout", t0)
        else:
            ct = self.sat(b)
            cf = "sat" if ct == "unsat" else self.sat(~b)
        if ct == "unsat":
            # also guard against an inconsistent path
            self.decide_cache[key] = (z, False)
            return False
        if cf == "unsat":
            self._learn(b.form)
            self.decide_cache[key] = (z, True)
            return True
        if any(p.bvs() - self.skolems for p in form_polys(b.form)):
            raise Unsupported("case distinction on the index of a sum")
        if lv.pos < len(lv.prefix):
            v = lv.prefix[lv.pos]
        else:
            v = True
            lv.pending.append(list(lv.trace) + [False])
        lv.pos += 1
        lv.trace.append(v)
        nb = b if v else ~b
        lv.conds.append(nb)
        self.add(nb)
        self.decide_cache[key] = (z, v)
        return v
    def choose(self, n):
        """nondeterministic choice among n alternatives (all explored)"""
        lv = self.levels[-1]
        if lv.pos < len(lv.prefix):
            v = lv.prefix[lv.pos]
        else:
            v = 0
            for k in range(1, n):
                lv.pending.append(list(lv.trace) + [k])
        lv.pos += 1
        lv.trace.append(v)
        return v
    def concretize(self, s):
        """pick every feasible integer value of s in turn"""
        d = self.norm(s.p)
        if d.is_const():
            return int(d.const())
        for _ in range(200):
            r = self.sat()
            if r != "sat":
                if r == "unsat":
                    raise PathEnd()
                raise Unsupported("cannot enumerate the values of an index")
            v = self.model_.eval(to_z(d, True), model_completion=True)
            v = v.as_long()
            if bool(compare(padd(d, pconst(v, True), -1), "==")):
                return v
        raise Unsupported("index with too many values")
    # -- exploring
    def explore(self, fn, maxpaths=None, with_conds=False):
        """run fn under every decision sequence at a new level; pc is restored afterwards"""
        todo = [[]]
        n = 0
        results = []
        maxpaths = maxpaths or self.maxpaths
        while todo:
            prefix = todo.pop()
            lv = Level(prefix)
            self.levels.append(lv)
            npc, eqs, cache = len(self.pc), dict(self.eqs), self.decide_cache
            self.decide_cache = dict(cache)
            nuni = len(self.universals)
            nz, rw, npos, nzp = set(self.nonzero), list(self.rewrites), len(self.ipos), list(self.nzpolys)
            self.solver.push()
            try:
                try:
                    r = fn()
                    results.append((r, lv.conds) if with_conds else r)
                except PathEnd:
                    pass
            finally:
                self.solver.pop()
                del self.pc[npc:]
                del self.ipos[npos:]
                del self.universals[nuni:]
                self.eqs, self.decide_cache = eqs, cache
                self.nonzero, self.rewrites, self.nzpolys = nz, rw, nzp
                self.levels.pop()
            todo.extend(lv.pending)
            n += 1
            if len(self.levels) == 0:
                self.npaths += 1
            if n > maxpaths:
                raise Unsupported("too many paths")
        return results
    # -- divisions
    def declare_nonzero(self, p):
        """assume p != 0; kept symbolically (and given to z3 only when small)"""
        p = lift(p) if not isinstance(p, Poly) else p
        if p.is_const():
            if p.const() == 0:
                raise PathEnd()
            return
        self.nonzero.add(monic_key(p))
        if not any(e < 0 for m in p.t for _, e in m):
            self.nzpolys.append(p)
        if len(p.t) <= 2:
            self._assert(to_z(p) != 0)
    def known_nonzero(self, p):
        if p.is_const():
            return p.const() != 0
        if monic_key(p) in self.nonzero:
            return True
        if len(p.t) == 1:
            (m, c), = p.t.items()
            return all(self.known_nonzero(patom(P.atom(a))) for a, e in m) if m != tuple() and not (
                len(m) == 1 and m[0][1] == 1) else False
        try:
            q = P.clear_denominators(p)
        except Unsupported:
            return False
        if q is not p and monic_key(q) in self.nonzero:
            return True
        if len(q.t) <= 3000:
            for den in list(self.nzpolys):
                for _ in range(6):
                    r = P.exact_div(q, den)
                    if r is None:
                        break
                    q = r
                    if q.is_const():
                        return q.const() != 0
            if len(q.t) == 1 and self.known_nonzero(q):
                return True
            if len(q.t) <= 60:
                for den in self.nzpolys:
                    if len(q.t) <= len(den.t) <= 400 and P.exact_div(den, q) is not None:
                        return True
        n = self.norm(p)
        return n is not p and n.t != p.t and self.known_nonzero(n)
    def note_divisor(self, b):
        if self.known_nonzero(b):
            return
        self.assumed_div += 1
        self.nonzero.add(monic_key(b))
        if len(b.t) <= 2:
            self._assert(to_z(b) != 0)
    # -- obligations
    def prove_eq(self, a, b, name):
        t = time.time()
        o = Obligation()
        o.name, o.model, o.detail = name, None, ""
        try:
            pa, pb = lift(a), lift(b)
        except TypeError as e:
            o.status, o.how, o.detail = "refuted", "type", "%r vs %r" % (type(a), type(b))
            self.obls.append(o)
            o.secs = time.time() - t
            return o
        d = padd(pa, pb, -1)
        o.how = "ring normal form"
        try:
            ok = is_zero(d)
            if not ok:
                d2 = self.norm(d)
                if d2 is not d:
                    ok = is_zero(d2)
                    d = d2
                if not ok and any(P.atom(a).kind in ("idiv", "imod") for a in all_atoms(d)):
                    from .arr import resolve_divs
                    d = resolve_divs(d)
                    ok = is_zero(d)
                if not ok and self.rewrites:
                    d = self.rewrite(d)
                    ok = is_zero(d)
                    o.how = "ring normal form with contract equations"
        except Unsupported:
            ok = False
        if ok:
            o.status = "proved"
        else:
            self._smt(o, compare(d, "=="), d)
        o.secs = time.time() - t
        self.obls.append(o)
        return o
    def rewrite(self, p):
        """apply the oriented equations  lead monomial -> polynomial"""
        for _ in range(200):
            changed = False
            res = {}
            extra = []
            for m, c in p.t.items():
                md = dict(m)
                for lead, rhs in self.rewrites:
                    if all(md.get(a, 0) >= e for a, e in lead):
                        rest = P.mmul(m, tuple((a, -e) for a, e in lead))
                        extra.append(pmul(Poly({rest: c}, False), rhs))
                        changed = True
                        break
                else:
                    v = res.get(m, 0) + c
                    if v:
                        res[m] = v
                    else:
                        res.pop(m, None)
            if not changed:
                return p
            p = Poly(res, False)
            for e in extra:
                p = padd(p, e)
        raise Unsupported("rewriting does not terminate")
    def _smt(self, o, b, d=None):
        if not isinstance(b, SymBool):
            o.status = "proved" if b else "refuted"
            o.how = "constant evaluation"
            if not b:
                r = self.sat()
                o.status = "proved" if r == "unsat" else "refuted"
                self._model(o)
            o.detail = repr(d)[:600] if d is not None else ""
            return
        if b.form[0] == "cmp" and b.form[2] == "!=" and self.known_nonzero(b.form[1]):
            o.how, o.status = "nonzero by construction", "proved"
            return
        o.how = "z3"
        r = self.sat(~b)
        if r == "unsat":
            o.status = "proved"
        elif r == "sat":
            o.status = "refuted"
            self._model(o)
            o.detail = ("difference: %r" % (d,))[:600] if d is not None else str(b.z)[:600]
        else:
            o.status = "unknown"
            o.detail = ("difference: %r" % (d,))[:600] if d is not None else str(b.z)[:600]
            if __import__("os").environ.get("PYVC_PC"):
                o.detail += " PC " + "; ".join(" ".join(str(z).split()) for z in self.pc)[-700:] + " EQS %s NZ %s" % (self.eqs, self.nzpolys)
    def _model(self, o):
        if self.model_ is not None:
            o.model = self.extract(self.model_)
    def extract(self, model):
        """values of the declared inputs in a model"""
        out = {}
        for name, getter in self.inputs.items():
            try:
                out[name] = getter(model)
            except Exception:
                pass
        return out
    def prove_bool(self, b, name):
        t = time.time()
        o = Obligation()
        o.name, o.model, o.detail = name, None, ""
        self.model_ = None
        b = self.normb(b)
        self._smt(o, b)
        o.secs = time.time() - t
        self.obls.append(o)
        return o
    def prove_true(self, b, name):
        return self.prove_bool(b, name)

def mdeg(m):
    return sum(e for _, e in m)

def conj_facts(f, out):
    """integer polynomials known to be >= 0 from a conjunction of comparisons"""
    if f[0] == "and":
        for x in f[1]:
            conj_facts(x, out)
    elif f[0] == "not" and f[1][0] == "cmp":
        conj_facts(neg_form(f[1]), out)
    elif f[0] == "not" and f[1][0] == "or":
        for x in f[1][1]:
            conj_facts(("not", x), out)
    elif f[0] == "cmp" and f[1].isint:
        p, op = f[1], f[2]
        one = pconst(1, True)
        if op == ">=":
            out.append(p)
        elif op == ">":
            out.append(padd(p, one, -1))
        elif op == "<=":
            out.append(pmul(pconst(-1, True), p))
        elif op == "<":
            out.append(padd(pmul(pconst(-1, True), p), one, -1))

def monic_key(p):
    lead = min(p.t)
    lc = p.t[lead]
    return tuple(sorted((m, c / lc) for m, c in p.t.items()))

def neg_form(f):
    return ("cmp", f[1], {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[f[2]])

_PAIRS = {}

def all_atoms(p, acc=None):
    acc = set() if acc is None else acc
    for a in p.atoms():
        if a not in acc:
            acc.add(a)
            for q in P._subpolys(P.atom(a)):
                all_atoms(q, acc)
    return acc

_CTX = [None]

def ctx():
    c = _CTX[0]
    if c is None:
        raise Unsupported("no active proof")
    return c

def set_ctx(c):
    TINY[0] = 0
    _CTX[0] = c
