"""Import hook: sigmaepsilon.math.* is loaded from /repo's current source with a mechanical rewriting.

What the rewriting does (and all it does):
  for-loops inside functions    -> the body becomes a local function driven by the loop rule (pyvc.loops)
  [f(x) for x in xs]            -> the same list; over a sequence of symbolic length by the loop rule
  a / b, a /= b                 -> exact division
  float literals                -> the exact rational they denote
  numpy / numba imports         -> the stand-ins of pyvc (contracts), other imports unchanged unless listed in SHIMS
  isinstance, len, range, int, float, enumerate, zip, reversed -> versions that know symbolic values
Dropped: docstrings' effect (none), compilation, dtypes (arrays hold exact numbers), rounding.
"""
import ast, builtins, importlib.abc, importlib.machinery, importlib.util, os, sys
from fractions import Fraction
import numbers
import numpy as np
from . import loops as L
from .arr import SymArr, kind_of
from .sym import S, SymBool, ctx, numeric, lift, lower
from .poly import Unsupported
from . import shim_np

SRC = os.environ.get("VERIF_REPO", "/repo") + "/src/sigmaepsilon/math"
SHIMS = {"numpy": "pyvc.shim_np", "numba": "pyvc.shim_numba"}
LOADED = {}

# ------------------------------------------------------------------ run-time helpers
def v_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for y in ts:
        if isinstance(y, tuple):
            flat += list(y)
        elif hasattr(y, "__args__") and type(y).__name__ in ("UnionType", "_UnionGenericAlias"):
            flat += list(y.__args__)
        else:
            flat.append(y)
    for y in flat:
        if y is shim_np.NDArr or y is np.ndarray:
            if isinstance(x, (np.ndarray, SymArr)):
                return True
            continue
        if isinstance(x, S):
            if y in (int, np.integer, numbers.Integral, np.int64, np.int32) and x.isint:
                return True
            if y in (float, np.floating, np.float64) and not x.isint:
                return True
            if y in (numbers.Number, numbers.Real, numbers.Complex, S, object):
                return True
            if isinstance(y, type) and not isinstance(x, y):
                continue
        if isinstance(x, Fraction) and y in (float, np.floating, np.float64):
            return True
        if isinstance(x, SymBool) and y in (bool, np.bool_):
            return True
        if isinstance(x, SymArr):
            import collections.abc
            if y in (collections.abc.Iterable, collections.abc.Sized, object):
                return True
            continue
        try:
            if isinstance(x, y):
                return True
        except TypeError:
            raise
    return False

def v_len(x):
    if isinstance(x, (SymArr, L.SymSeq)):
        return x.vlen()
    return len(x)

class _Meta(type):
    pass

def v_int(x=0, *a):
    if isinstance(x, S):
        if x.isint:
            return x
        raise Unsupported("int() of a real term")
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return v_int(x.reshape(-1)[0])
    return int(x, *a)

def v_float(x=0):
    if isinstance(x, S):
        return S(type(x.p)(x.p.t, False)) if x.isint else x
    if isinstance(x, int) and not isinstance(x, bool):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return v_float(x.reshape(-1)[0])
    return float(x)

class IntShim(int):
    pass

def v_div(a, b):
    return shim_np.vdiv(a, b) if not hasattr(a, "_array") and not hasattr(b, "_array") else a / b

def v_idiv(a, b):
    if isinstance(a, SymArr):
        a /= b
        return a
    if hasattr(a, "_array"):
        a /= b
        return a
    if isinstance(a, np.ndarray):
        a[...] = shim_np.vdiv(a, b)
        return a
    return v_div(a, b)

def v_const(s):
    return Fraction(s)

def v_getter(*fs):
    def get():
        out = []
        for f in fs:
            try:
                out.append(f())
            except NameError:
                out.append(L.UNBOUND)
        return tuple(out)
    return get

def v_comp(f, it, site):
    """[f(x) for x in it]; over a sequence of symbolic length: an array of the values (scalars only), by the loop rule"""
    s = L.seq_of(it)
    if s is not None and isinstance(s.n, S):
        n = lower(ctx().norm(s.n.p))
        if not isinstance(n, int):
            res = shim_np.zeros(n)
            def body(k):
                v = f(s.item(lift(k)))
                if isinstance(v, np.ndarray) and v.size == 1 and v.ndim == 0:
                    v = v.item()
                if not numeric(v):
                    raise Unsupported("a list of symbolic length of something else than numbers")
                res[k] = v
            r = L.vc_loop(L.vrange(n), body, lambda: (), lambda v: None, "for", site)
            return res
        return [f(s.item(lift(k))) for k in range(n)]
    return [f(x) for x in it]

class _TypeLike:
    """int/float used both as functions and as types (dtype=int, isinstance(x, int))"""

RUNTIME = {"_vc_isinstance": v_isinstance, "_vc_len": v_len, "_vc_range": L.vrange, "_vc_div": v_div, "_vc_idiv": v_idiv,
           "_vc_const": v_const, "_vc_loop": L.vc_loop, "_vc_comp": v_comp, "_vc_get": v_getter, "_vc_zip": L.vzip,
           "_vc_enumerate": L.venumerate, "_vc_reversed": L.vreversed, "_vc_int": v_int, "_vc_float": v_float}
CALLS = {"isinstance": "_vc_isinstance", "len": "_vc_len", "range": "_vc_range", "zip": "_vc_zip",
         "enumerate": "_vc_enumerate", "reversed": "_vc_reversed", "int": "_vc_int", "float": "_vc_float"}

# ------------------------------------------------------------------ rewriting
def assigned_names(nodes):
    out = []
    def add(n):
        if n not in out:
            out.append(n)
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)
        def visit_FunctionDef(self, n):
            add(n.name)
        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef
        def visit_Lambda(self, n):
            pass
        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_Import(self, n):
            for a in n.names:
                add((a.asname or a.name).split(".")[0])
        visit_ImportFrom = visit_Import
        def visit_ExceptHandler(self, n):
            if n.name:
                add(n.name)
            self.generic_visit(n)
        def visit_NamedExpr(self, n):
            add(n.target.id)
            self.visit(n.value)
    for x in nodes:
        V().visit(x)
    return out

def contains(nodes, types, stop=(ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
    def rec(n):
        if isinstance(n, types):
            return True
        if isinstance(n, stop):
            return False
        return any(rec(c) for c in ast.iter_child_nodes(n))
    return any(rec(n) for n in nodes)

class LoopCtl(ast.NodeTransformer):
    """continue / break / return inside a body turned into return codes (not inside nested loops' own control)"""
    def __init__(self):
        self.depth = 0
    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef
    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n
    visit_While = visit_For
    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Constant(L.CONTINUE)), n)
    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Constant(L.BREAK)), n)
    def visit_Return(self, n):
        v = n.value or ast.Constant(None)
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant(L.RETURN), v], ast.Load())), n)

class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.fn = []
        self.cls = []
    def visit_Import(self, n):
        out = []
        for a in n.names:
            if a.name in SHIMS:
                out.append(ast.copy_location(ast.ImportFrom(SHIMS[a.name].rsplit(".", 1)[0],
                           [ast.alias(SHIMS[a.name].rsplit(".", 1)[1], a.asname or a.name)], 0), n))
            else:
                out.append(ast.copy_location(ast.Import([a]), n))
        return out
    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module in SHIMS:
            n.module = SHIMS[n.module]
        return n
    def visit_Constant(self, n):
        if isinstance(n.value, float) and n.value == n.value and abs(n.value) != float("inf"):
            return ast.copy_location(ast.Call(ast.Name("_vc_const", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n
    def visit_JoinedStr(self, n):
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("_vc_div", ast.Load()), [n.left, n.right], []), n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if not isinstance(n.op, ast.Div):
            return n
        t = n.target
        def call(load):
            return ast.Call(ast.Name("_vc_idiv", ast.Load()), [load, n.value], [])
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign([t], call(ast.Name(t.id, ast.Load()))), n)
        self.n += 1
        if isinstance(t, ast.Attribute):
            o = "_vc_o%d" % self.n
            return [ast.copy_location(ast.Assign([ast.Name(o, ast.Store())], t.value), n),
                    ast.copy_location(ast.Assign([ast.Attribute(ast.Name(o, ast.Load()), t.attr, ast.Store())],
                                                 call(ast.Attribute(ast.Name(o, ast.Load()), t.attr, ast.Load()))), n)]
        o, k = "_vc_o%d" % self.n, "_vc_k%d" % self.n
        return [ast.copy_location(ast.Assign([ast.Name(o, ast.Store())], t.value), n),
                ast.copy_location(ast.Assign([ast.Name(k, ast.Store())], idx_expr(t.slice)), n),
                ast.copy_location(ast.Assign([ast.Subscript(ast.Name(o, ast.Load()), ast.Name(k, ast.Load()), ast.Store())],
                                             call(ast.Subscript(ast.Name(o, ast.Load()), ast.Name(k, ast.Load()), ast.Load()))), n)]
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CALLS and n.func.id not in self.shadow():
            n.func = ast.copy_location(ast.Name(CALLS[n.func.id], ast.Load()), n.func)
        return n
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if not self.fn or len(n.generators) != 1 or g.ifs or g.is_async or not isinstance(g.target, ast.Name) \
                or contains([n.elt], (ast.NamedExpr, ast.Await, ast.Yield)):
            return n
        f = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
        site = "%s.%s:%d" % (self.mod.split("sigmaepsilon.math.")[-1], self.fn[-1][0], n.lineno)
        return ast.copy_location(ast.Call(ast.Name("_vc_comp", ast.Load()), [f, g.iter, ast.Constant(site)], []), n)
    def shadow(self):
        return self.fn[-1][1] if self.fn else ()
    def visit_FunctionDef(self, n):
        args = [a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs]
        self.fn.append((n.name, set(args) | set(assigned_names(n.body)), declared(n.body)))
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        if contains(n.body, (ast.Yield, ast.YieldFrom)):
            self.fn[-1] = self.fn[-1] + ("gen",)
        body = []
        for b in n.body:
            r = self.visit(b)
            body += r if isinstance(r, list) else [r]
        n.body = body
        self.fn.pop()
        return n
    def visit_AnnAssign(self, n):
        if not self.fn:             # class bodies keep their annotations (dataclasses, pydantic)
            if n.value is not None:
                n.value = self.visit(n.value)
            return n
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return ast.copy_location(ast.Assign([n.target], self.visit(n.value)), n)
    def visit_ClassDef(self, n):
        saved, self.fn = self.fn, []
        self.generic_visit(n)
        self.fn = saved
        return n
    def visit_For(self, n):
        inside = bool(self.fn)
        gen = inside and len(self.fn[-1]) > 3
        names = assigned_names([n.target] + n.body)
        self.generic_visit(n)
        if not inside or gen or n.orelse:
            return n
        glob = self.fn[-1][2]
        self.n += 1
        nm = "_vc_b%d" % self.n
        tv = "_vc_t%d" % self.n
        loc = [x for x in names if x not in glob]
        body = [LoopCtl().visit(b) for b in n.body]
        pre = [ast.Nonlocal(list(loc))] if loc else []
        if any(x in glob for x in names):
            pre.append(ast.Global([x for x in names if x in glob and glob[x] == "g"])) if any(glob[x] == "g" for x in names if x in glob) else None
            nl = [x for x in names if x in glob and glob[x] == "n"]
            if nl:
                pre.append(ast.Nonlocal(nl))
        fdef = ast.FunctionDef(nm, ast.arguments([], [ast.arg(tv)], None, [], [], None, []),
                               pre + [ast.Assign([n.target], ast.Name(tv, ast.Load()))] + body + [ast.Return(ast.Constant(None))], [], None)
        fdef.type_params = []
        allv = list(names)
        get = ast.Call(ast.Name("_vc_get", ast.Load()),
                       [ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Name(x, ast.Load())) for x in loc], [])
        pnm = "_vc_p%d" % self.n
        pdef = ast.FunctionDef(pnm, ast.arguments([], [ast.arg("_vc_v")], None, [], [], None, []),
                               ([ast.Nonlocal(list(loc))] if loc else []) +
                               ([ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in loc], ast.Store())], ast.Name("_vc_v", ast.Load()))] if loc else [ast.Pass()]), [], None)
        pdef.type_params = []
        dummy = [ast.If(ast.Constant(False), [ast.Assign([ast.Name(x, ast.Store()) for x in loc], ast.Constant(None))], [])] if loc else []
        rv = "_vc_r%d" % self.n
        site = "%s.%s:%d" % (self.mod.split("sigmaepsilon.math.")[-1], self.fn[-1][0], n.lineno)
        call = ast.Assign([ast.Name(rv, ast.Store())], ast.Call(ast.Name("_vc_loop", ast.Load()),
                          [n.iter, ast.Name(nm, ast.Load()), get, ast.Name(pnm, ast.Load()), ast.Constant("for"), ast.Constant(site)], []))
        out = dummy + [fdef, pdef, call]
        if contains(n.body, (ast.Return,), stop=(ast.Lambda, ast.ClassDef)) or True:
            out.append(ast.If(ast.Compare(ast.Name(rv, ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                              [ast.Return(ast.Subscript(ast.Name(rv, ast.Load()), ast.Constant(1), ast.Load()))], []))
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

def idx_expr(s):
    """slice objects as a value"""
    def one(e):
        if isinstance(e, ast.Slice):
            return ast.Call(ast.Name("slice", ast.Load()), [e.lower or ast.Constant(None), e.upper or ast.Constant(None), e.step or ast.Constant(None)], [])
        return e
    if isinstance(s, ast.Tuple):
        return ast.Tuple([one(e) for e in s.elts], ast.Load())
    return one(s)

def declared(body):
    out = {}
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.Global):
                for v in x.names:
                    out[v] = "g"
            elif isinstance(x, ast.Nonlocal):
                for v in x.names:
                    out[v] = "n"
    return out

def rewrite(src, modname, path):
    tree = ast.parse(src)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec")

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name != "sigmaepsilon.math" and not name.startswith("sigmaepsilon.math."):
            return None
        rel = name.split(".")[2:]
        d = os.path.join(SRC, *rel)
        if os.path.isdir(d):
            f = os.path.join(d, "__init__.py")
            spec = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=True)
            spec.submodule_search_locations = [d]
        else:
            f = d + ".py"
            if not os.path.exists(f):
                return None
            spec = importlib.machinery.ModuleSpec(name, self, origin=f)
        spec.has_location = True
        return spec
    def create_module(self, spec):
        return None
    def exec_module(self, mod):
        f = mod.__spec__.origin
        mod.__file__ = f
        src = open(f).read()
        mod.__dict__.update(RUNTIME)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = rewrite(src, mod.__name__, f)
        LOADED[mod.__name__] = f
        exec(code, mod.__dict__)

def install():
    sys.meta_path.insert(0, Finder())
