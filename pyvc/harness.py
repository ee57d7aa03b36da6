"""One contract text, two readings.

A property module (props/Cxx.py) states contracts as case functions over a value source V.  In proof mode the values
are symbolic and the real source (loaded through pyvc.loader) is executed symbolically: every V.eq / V.true is an
obligation that must hold for all values.  In concrete mode the values are drawn (or taken from a counterexample) and
the same contract is checked on the compiled library.
"""
import importlib, itertools, json, math, os, random, sys, time, traceback, zlib
from fractions import Fraction

class Skip(Exception):
    """the drawn input does not meet the precondition"""

class Violation(Exception):
    pass

CASES = []
PRELOAD = ["linalg", "linalg.sparse", "approx.mls", "approx.functions", "approx.lagrange", "function", "optimize", "graph", "knn", "numint", "utils", "arraysetops", "hist"]

class OutOfTime(BaseException):
    pass

class Case:
    __slots__ = ("fn", "name", "proof", "concrete", "reps", "budget", "level", "note", "hang", "paths", "timeout", "covers", "thorough_only")

def case(name, proof=True, concrete=True, reps=25, budget=60, note="", hang=60, paths=4000, timeout=4000, covers=(), thorough_only=False, level="proof"):
    """proof: attempt for all values; level 'bounded' marks a proof whose sizes are bounded (stated in note)"""
    def deco(f):
        c = Case()
        c.fn, c.name, c.proof, c.concrete, c.reps, c.budget, c.note, c.hang, c.paths, c.timeout, c.covers, c.thorough_only, c.level = \
            f, name, proof, concrete, reps, budget, note, hang, paths, timeout, covers, thorough_only, level
        CASES.append(c)
        return f
    return deco

# ====================================================================== concrete
class CV:
    proof = False
    def __init__(self, rng, model=None, tier="quick", rep=0):
        import numpy as np
        self.np = np
        self.rng = rng
        self.model = model or {}
        self.used = {}
        self.n = 0
        self.tier = tier
        self.rep = rep
        self.flavour = rng.choice(["normal", "normal", "int", "zeros", "scale"])
        self.checks = 0
    def lib(self, name=""):
        return importlib.import_module("sigmaepsilon.math" + ("." + name if name else ""))
    def hook(self, **kw):
        pass
    def tiny(self, c):
        pass
    # ---- values
    def _real(self):
        r = self.rng
        f = self.flavour
        if f == "int":
            return float(r.randint(-4, 4))
        if f == "zeros":
            return 0.0 if r.random() < 0.35 else r.choice([1.0, -1.0, r.gauss(0, 2)])
        if f == "scale":
            return r.gauss(0, 1) * r.choice([1e-3, 1.0, 50.0])
        return r.gauss(0, 1.5)
    def real(self, name, lo=None, hi=None):
        if name in self.model:
            v = float(Fraction(self.model[name]))
        elif lo is not None or hi is not None:
            a = lo if lo is not None else hi - 10
            b = hi if hi is not None else a + 10
            v = self.rng.choice([self.rng.uniform(a, b), self.rng.uniform(a, b), float(a), float(b)])
        else:
            v = self._real()
        self.used[name] = v
        return v
    def int(self, name, lo=-6, hi=6):
        v = int(Fraction(self.model[name])) if name in self.model else self.rng.randint(lo, hi)
        if name in self.model and abs(v) > 10 ** 6:
            raise Skip("counterexample too large to replay")
        self.used[name] = v
        return v
    def dim(self, name, lo=0, hi=5):
        v = int(Fraction(self.model[name])) if name in self.model else self.rng.randint(lo, hi)
        if v > 4000:
            raise Skip("counterexample too large to replay")
        self.used[name] = v
        return v
    def arr(self, name, shape, kind="f", lo=-6, hi=6):
        np = self.np
        shape = tuple(int(s) for s in shape)
        m = self.model.get(name)
        a = np.zeros(shape, dtype=float if kind == "f" else int if kind == "i" else bool)
        for ix in np.ndindex(*shape):
            key = ",".join(map(str, ix))
            if isinstance(m, dict) and key in m:
                v = Fraction(m[key])
                a[ix] = float(v) if kind == "f" else int(v)
            else:
                a[ix] = self._real() if kind == "f" else self.rng.randint(lo, hi) if kind == "i" else self.rng.random() < 0.5
        self.used[name] = a.copy()
        return a
    def mat(self, name, n, m=None, kind="f"):
        return self.arr(name, (n, m if m is not None else n), kind)
    def vec(self, name, n, kind="f"):
        return self.arr(name, (n,), kind)
    def nonsing(self, name, n, lead=()):
        """well conditioned square matrices"""
        np = self.np
        lead = tuple(int(x) for x in lead)
        a = self.arr(name, lead + (n, n))
        flat = a.reshape(-1, n, n)
        for k in range(len(flat)):
            t = 0
            while not np.isfinite(np.linalg.cond(flat[k])) or np.linalg.cond(flat[k]) > 200:
                if self.model and t == 0 and np.linalg.cond(flat[k]) < 1e7:
                    break
                flat[k] = [[self.rng.gauss(0, 1.5) for _ in range(n)] for _ in range(n)]
                t += 1
        self.used[name] = a.copy()
        return a
    def choice(self, name, options):
        options = list(options)
        if name in self.model:
            v = self.model[name]
            k = int(v)
        else:
            k = self.rng.randrange(len(options))
        self.used[name] = k
        return options[k]
    # ---- statements
    def assume(self, b):
        if not b:
            raise Skip("precondition")
    def _bad(self, what, detail):
        raise Violation("%s: %s" % (what, detail))
    def eq(self, a, b, what, tol=1e-7, exact=False):
        np = self.np
        self.checks += 1
        try:
            x, y = np.asarray(a), np.asarray(b)
            if x.shape != y.shape:
                self._bad(what, "shapes %s and %s differ" % (x.shape, y.shape))
            if x.dtype == object or y.dtype == object:
                x, y = x.astype(float), y.astype(float)
            if exact:
                ok = bool(np.all(x == y))
            else:
                sc = max(1.0, float(np.max(np.abs(y))) if y.size else 1.0)
                ok = bool(np.all(np.isclose(x, y, rtol=tol, atol=tol * sc)))
        except Violation:
            raise
        except Exception as e:
            self._bad(what, "cannot compare %r with %r (%s)" % (a, b, e))
        if not ok:
            self._bad(what, "got %s, contract says %s" % (short(x), short(y)))
    def true(self, b, what):
        self.checks += 1
        if not bool(b):
            self._bad(what, "does not hold")
    def shape(self, a, shape, what):
        self.checks += 1
        if tuple(self.np.shape(a)) != tuple(int(s) for s in shape):
            self._bad(what, "shape %s, contract says %s" % (self.np.shape(a), tuple(shape)))
    def alleq(self, a, shape, fn, what, tol=1e-7, exact=False):
        np = self.np
        shape = tuple(int(s) for s in shape)
        self.shape(a, shape, what + " (shape)")
        ref = np.zeros(shape, dtype=float)
        for ix in np.ndindex(*shape):
            ref[ix] = fn(*ix)
        self.eq(a, ref, what, tol, exact)
    def forall(self, shape, fn):
        for ix in itertools.product(*[range(int(s)) for s in shape]):
            fn(*ix)
    def sum(self, n, fn):
        return sum((fn(k) for k in range(int(n))), 0)
    def attempt(self, fn, *excs):
        """(result, exception); only the listed exceptions are caught"""
        try:
            return fn(), None
        except excs as e:
            return None, e
    def same(self, a, b, what):
        self.checks += 1
        if a is not b:
            self._bad(what, "not the same object")
    def copy(self, a):
        return self.np.array(a, copy=True)
    def unchanged(self, a, old, what):
        self.eq(a, old, what, exact=True)

def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."

# ====================================================================== proof
class PV:
    proof = True
    tier = "quick"
    rep = 0
    def __init__(self, c):
        from . import shim_np
        self.np = shim_np
        self.c = c
        self.choices = {}
        c.inputs.clear()
    def lib(self, name=""):
        return importlib.import_module("sigmaepsilon.math" + ("." + name if name else ""))
    def tiny(self, c):
        """thresholds up to c on absolute values are read as comparisons with zero"""
        from . import sym
        sym.TINY[0] = c
    def hook(self, **kw):
        self.c.hook.update({k.replace("__", "."): v for k, v in kw.items()})
    def _scalar(self, name, isint):
        from .sym import lift, to_z
        v = self.c.var(name, isint)
        z = to_z(lift(v))
        self.c.inputs[name] = lambda m: zval(m.eval(z, model_completion=True))
        return v
    def real(self, name, lo=None, hi=None):
        v = self._scalar(name, False)
        if lo is not None:
            self.c.assume(v >= lo)
        if hi is not None:
            self.c.assume(v <= hi)
        return v
    def int(self, name, lo=None, hi=None):
        """any integer (lo and hi only steer the concrete draws unless given as assume())"""
        return self._scalar(name, True)
    def dim(self, name, lo=0, hi=None):
        """any size >= lo"""
        v = self._scalar(name, True)
        self.c.assume(v >= lo)
        return v
    def arr(self, name, shape, kind="f", lo=None, hi=None):
        from .arr import SymArr, simp_dim
        from .shim_np import NDArr
        import numpy as np
        from .sym import lift, to_z
        shape = tuple(simp_dim(s) if not isinstance(s, int) else s for s in shape)
        isint = kind == "i"
        if all(isinstance(s, int) for s in shape):
            a = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                nm = "%s[%s]" % (name, ",".join(map(str, ix)))
                a[ix] = self.c.var(nm, isint)
            vals = {",".join(map(str, ix)): to_z(lift(a[ix])) for ix in np.ndindex(*shape)}
            self.c.inputs[name] = lambda m: {k: zval(m.eval(z, model_completion=True)) for k, z in vals.items()}
            return a.view(NDArr)
        a = SymArr.symbol(name, shape, isint, kind == "b")
        def get(m):
            dims = [d if isinstance(d, int) else int(Fraction(zval(m.eval(to_z(lift(d), True), model_completion=True)))) for d in shape]
            if math.prod(dims) > 20000:
                raise OverflowError
            out = {}
            for ix in np.ndindex(*dims):
                t = a.store.fn.read(tuple(lift(i) for i in ix))
                if kind == "b":
                    continue
                out[",".join(map(str, ix))] = zval(m.eval(to_z(lift(t)), model_completion=True))
            return out
        self.c.inputs[name] = get
        return a
    def mat(self, name, n, m=None, kind="f"):
        return self.arr(name, (n, m if m is not None else n), kind)
    def vec(self, name, n, kind="f"):
        return self.arr(name, (n,), kind)
    def nonsing(self, name, n, lead=()):
        from .shim_np import linalg
        a = self.arr(name, tuple(lead) + (n, n))
        if lead:
            ix = []
            for d in lead:
                if isinstance(d, int):
                    raise NotImplementedError
            return a          # quantified nonsingularity: divisions are assumed defined (counted)
        self.c.declare_nonzero(linalg.det(a))
        return a
    def choice(self, name, options):
        options = list(options)
        k = self.c.choose(len(options)) if len(options) > 1 else 0
        self.choices[name] = k
        self.c.inputs[name] = lambda m: str(k)
        return options[k]
    # ---- statements
    def assume(self, b):
        self.c.assume(b)
    def _entry(self, x):
        return x
    def eq(self, a, b, what, tol=None, exact=False):
        import numpy as np
        from .arr import SymArr
        from .poly import Unsupported
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            sa = a.shape if hasattr(a, "shape") else np.shape(a)
            sb = b.shape if hasattr(b, "shape") else np.shape(b)
            if not self._shape(sa, sb, what + " (shape)"):
                return
            from .arr import as_reader
            self.forall(sa, lambda *ix: self.c.prove_eq(a[ix], b[ix], what))
            return
        if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            from .shim_np import asobj
            a, b = np.asarray(asobj(a)), np.asarray(asobj(b))
            if not self._shape(a.shape, b.shape, what + " (shape)"):
                return
            for ix in np.ndindex(*a.shape):
                self._one(a[ix], b[ix], what)
            return
        self._one(a, b, what)
    def _one(self, a, b, what):
        from .sym import SymBool, S
        if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
            if isinstance(a, SymBool) or isinstance(b, SymBool):
                r = (a == b) if isinstance(a, SymBool) else (b == a)
                return self.true(r, what)
            return self.true(a == b, what)
        self.c.prove_eq(a, b, what)
    def true(self, b, what):
        import numpy as np
        if isinstance(b, np.ndarray):
            b = b.item()
        self.c.prove_bool(b if not isinstance(b, np.bool_) else bool(b), what)
    def _shape(self, sa, sb, what):
        if len(sa) != len(sb):
            self.c.prove_bool(False, what)
            return False
        for x, y in zip(sa, sb):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    self.c.prove_bool(False, what)
                    return False
            else:
                self.c.prove_eq(x, y, what)
        return True
    def shape(self, a, shape, what):
        import numpy as np
        self._shape(a.shape if hasattr(a, "shape") else np.shape(a), tuple(shape), what)
    def alleq(self, a, shape, fn, what, tol=None, exact=False):
        if not self._shape(a.shape, tuple(shape), what + " (shape)"):
            return
        self.forall(shape, lambda *ix: self._one(a[ix] if len(ix) > 1 else a[ix[0]], fn(*ix), what))
    def forall(self, shape, fn):
        """fn at arbitrary indices of the given ranges"""
        from .arr import simp_dim
        from .sym import S
        ixs = []
        for s in shape:
            s = simp_dim(s)
            if isinstance(s, int):
                ixs.append(range(s))
            else:
                v = self.c.fresh("i", True)
                ixs.append([v])
        sym = [(v[0], s) for v, s in zip(ixs, shape) if isinstance(v, list)]
        def body():
            for v, s in sym:
                self.c.assume(v >= 0)
                self.c.assume(v < s)
                for u in list(self.c.universals):
                    u(v)
            for ix in itertools.product(*ixs):
                fn(*ix)
            live.append(1)
        live = []
        if sym:
            self.c.explore(body)
            if not live:
                from .poly import Unsupported
                raise Unsupported("vacuous quantifier")
        else:
            body()
    def sum(self, n, fn):
        from .arr import sum_range
        from .sym import lower, lift
        if isinstance(n, int):
            return sum((fn(k) for k in range(n)), 0)
        return sum_range(n, lambda k: fn(lower(k) if not hasattr(k, "p") else k))
    def attempt(self, fn, *excs):
        try:
            return fn(), None
        except excs as e:
            return None, e
    def same(self, a, b, what):
        self.c.prove_bool(a is b, what)
    def copy(self, a):
        return a.copy()
    def unchanged(self, a, old, what):
        self.eq(a, old, what)

def zval(v):
    import z3
    if z3.is_int_value(v):
        return str(v.as_long())
    if z3.is_rational_value(v):
        return "%d/%d" % (v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return "%d/%d" % (a.numerator_as_long(), a.denominator_as_long())
    raise ValueError(str(v))

# ====================================================================== runners
def load(prop):
    CASES.clear()
    sys.modules.pop("props." + prop, None)
    importlib.import_module("props." + prop)
    return [c for c in CASES if c.fn.__module__ == "props." + prop]

def emit(fh, **kw):
    fh.write(json.dumps(kw, default=str) + "\n")
    fh.flush()

def trace_functions():
    """names of the repository functions entered (sys.monitoring, first entry only)"""
    seen = set()
    src = os.environ.get("VERIF_REPO", "/repo") + "/src/sigmaepsilon/math/"
    mon = sys.monitoring
    mon.use_tool_id(3, "vp")
    def start(code, off):
        if code.co_filename.startswith(src) and not code.co_name.startswith(("_vc_", "<")):
            seen.add(code.co_filename[len(src):-3].replace("/", ".") + "." + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    return seen

def opaque(o):
    return o.opaque if hasattr(o, "opaque") else False

def pick(cases, only):
    """all cases, the named ones, or one shard (shard:k/n) of them"""
    if not only:
        return cases
    if only.startswith("shard:"):
        k, n = map(int, only[6:].split("/"))
        return cases[k::n]
    names = set(only.split("|"))
    return [cs for cs in cases if cs.name in names]

def run_proof(prop, tier, out, only=None):
    from . import loader
    loader.install()
    from .sym import Ctx, set_ctx
    from .poly import Unsupported
    cases = load(prop)
    for m in PRELOAD:
        try:
            importlib.import_module("sigmaepsilon.math." + m)
        except Exception:
            pass
    seen = trace_functions()
    with open(out, "w") as fh:
        todo = pick([cs for cs in cases if cs.proof and (tier == "thorough" or not cs.thorough_only)], only)
        emit(fh, kind="plan", cases=[cs.name for cs in todo])
        for cs in todo:
            emit(fh, kind="start", case=cs.name, t=time.time())
            t = time.time()
            c = Ctx(cs.timeout)
            c.maxpaths = cs.paths
            c.deadline = time.time() + cs.budget * (4 if tier == "thorough" else 1)
            set_ctx(c)
            before = set(seen)
            err = None
            def body():
                v = PV(c)
                v.tier = tier
                c.hook = {}
                try:
                    cs.fn(v)
                except Skip:
                    pass
            from .sym import PathEnd
            live = [0]
            def guarded():
                try:
                    body()
                    live[0] += live[0] > 0 or c.sat() != "unsat"
                except (PathEnd, Unsupported, RecursionError, MemoryError):
                    raise
                except Exception as e:
                    if type(e).__name__ == "InconsistentAssumptions":
                        raise Unsupported("sympy contradicts itself")
                    # an exception escapes the contract: on this path the code (or the engine) fails
                    r = c.sat()
                    if r == "unsat":
                        raise PathEnd()
                    from .sym import Obligation
                    o = Obligation()
                    o.name, o.status, o.how, o.secs = "no exception", "exception", "execution", 0.0
                    o.detail = "".join(traceback.format_exception(e))[-1500:]
                    o.model = c.extract(c.model_) if r == "sat" and c.model_ is not None else None
                    c.obls.append(o)
            import signal
            def ring(*a):
                if time.time() > c.deadline + 5:
                    raise OutOfTime()
            signal.signal(signal.SIGALRM, ring)
            signal.setitimer(signal.ITIMER_REAL, 2, 2)
            try:
                c.explore(guarded)
            except OutOfTime:
                err = "outside the verifier's reach: time budget of the proof exhausted"
            except Unsupported as e:
                err = "outside the verifier's reach: %s" % e
                where = traceback.extract_tb(e.__traceback__)
                err += " at " + "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in where[-14:])
            except (RecursionError, MemoryError) as e:
                err = "engine limit: %r" % e
            except Exception as e:
                err = "engine error: " + "".join(traceback.format_exception(e))[-1200:]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if err is None and not live[0] and not any(o.status == "exception" for o in c.obls):
                err = "vacuous: no feasible path reaches the end of the contract"
            groups = {}
            bad = []
            for o in c.obls:
                g = groups.setdefault(o.name, {"total": 0, "proved": 0, "how": {}})
                g["total"] += 1
                g["proved"] += o.status == "proved"
                if o.status == "proved":
                    g["how"][o.how] = g["how"].get(o.how, 0) + 1
                else:
                    bad.append({"name": o.name, "status": o.status, "how": o.how, "detail": o.detail, "model": o.model,
                                "opaque": "Sum{" in (o.detail or "") or "sqrt" in (o.detail or "")})
            emit(fh, kind="proof", case=cs.name, secs=time.time() - t, paths=c.npaths, groups=groups, bad=bad[:12], nbad=len(bad), err=err,
                 queries=c.queries, qtime=c.qtime, assumed_div=c.assumed_div, loops=c.loops_done, functions=sorted(seen - before),
                 level=cs.level, note=cs.note)
        emit(fh, kind="done", functions=sorted(seen))

def one_concrete(cs, seed, rep, model, tier):
    """sympy answers some queries in random order and very rarely contradicts itself (InconsistentAssumptions): no verdict on the library"""
    for attempt in range(4):
        st, why, v = one_attempt(cs, seed, rep, model, tier, attempt)
        if not (st == "bad" and "InconsistentAssumptions" in why):
            return st, why, v
        from sympy.core.cache import clear_cache
        clear_cache()
    return "skip", why, v

def one_attempt(cs, seed, rep, model, tier, attempt):
    if "sympy" in sys.modules:
        import sympy.core.random as sr
        getattr(sr, "_assumptions_rng", random.Random()).seed("%s/%s" % (seed, attempt))
    rng = random.Random("%s/%s/%s" % (seed, cs.name, rep))
    import numpy as np
    np.random.seed(rng.randrange(2 ** 31))
    random.seed(rng.randrange(2 ** 31))
    v = CV(rng, model, tier, rep)
    try:
        cs.fn(v)
        return "ok", None, v
    except Skip as e:
        return "skip", str(e), v
    except Violation as e:
        return "bad", str(e), v
    except Exception as e:
        return "bad", "exception: " + "".join(traceback.format_exception(e))[-1200:], v

def dump(v):
    return {k: (x.tolist() if hasattr(x, "tolist") else x) for k, x in v.used.items()}

def run_concrete(prop, tier, seed, out, only=None, reps=None):
    import warnings
    warnings.simplefilter("ignore")
    cases = load(prop)
    with open(out, "w") as fh:
        for cs in pick([cs for cs in cases if cs.concrete], only):
            emit(fh, kind="start", case=cs.name, hang=cs.hang, t=time.time())
            t = time.time()
            n = ok = skip = checks = 0
            sample = None
            keys = set()
            R = (reps or cs.reps) * (8 if tier == "thorough" else 1)
            tb = time.time() + (cs.budget if tier == "quick" else 4 * cs.budget)
            for rep in range(R):
                n += 1
                if rep % 5 == 0:
                    emit(fh, kind="tick", case=cs.name, rep=rep, t=time.time())
                st, why, v = one_concrete(cs, seed, rep, None, tier)
                if st == "ok":
                    ok += 1
                    checks += v.checks
                    d = zlib.crc32(json.dumps(dump(v), default=str).encode())
                    keys.add(d)
                    sample = sample or dump(v)
                elif st == "skip":
                    skip += 1
                else:
                    emit(fh, kind="violation", case=cs.name, rep=rep, seed=seed, why=why, input=dump(v))
                    break
                if time.time() > tb:
                    break
            emit(fh, kind="concrete", case=cs.name, runs=n, ok=ok, skipped=skip, checks=checks, distinct=len(keys), secs=time.time() - t, sample=short(sample))
        emit(fh, kind="done")

def run_replay(prop, tier, seed, models, out):
    """models: [{case, model}]: each counterexample, then random draws around it, on the compiled library"""
    import warnings
    warnings.simplefilter("ignore")
    cases = {c.name: c for c in load(prop)}
    with open(out, "w") as fh:
        for i, m in enumerate(models):
            cs = cases[m["case"]]
            emit(fh, kind="start", case=cs.name, index=i, hang=cs.hang, t=time.time())
            res = None
            ran = False
            tries = [m["model"]] if m.get("model") else []
            if m.get("model"):
                scal = {k: x for k, x in m["model"].items() if not isinstance(x, dict)}
                tries += [scal] * 30
            tries += [None] * (150 if tier == "quick" else 600)
            tb = time.time() + 100
            for rep, mod in enumerate(tries):
                if time.time() > tb:
                    break
                if rep % 10 == 0:
                    emit(fh, kind="tick", case=cs.name, rep=rep, t=time.time())
                st, why, v = one_concrete(cs, "replay%s" % seed, rep, mod, tier)
                if rep == 0 and m.get("model"):
                    ran = st == "ok"
                if st == "bad":
                    res = {"why": why, "input": dump(v), "rep": rep, "from_model": rep == 0 and bool(m.get("model"))}
                    break
            emit(fh, kind="replay", case=cs.name, index=i, found=res, model_ran_clean=ran)
        emit(fh, kind="done")

def main(argv):
    mode, prop, tier, seed, out = argv[:5]
    seed = int(seed)
    extra = argv[5] if len(argv) > 5 else None
    if mode == "proof":
        run_proof(prop, tier, out, extra)
    elif mode == "concrete":
        run_concrete(prop, tier, seed, out, extra)
    elif mode == "deep":
        run_concrete(prop, tier, seed + 7919, out, extra, reps=300)
    else:
        run_replay(prop, tier, seed, json.load(open(extra)), out)

if __name__ == "__main__":
    main(sys.argv[1:])
