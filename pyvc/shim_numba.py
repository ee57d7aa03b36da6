"""numba stand-in: the decorated Python source is the code that is verified; compilation is dropped.  A function
compiled with parallel=True keeps that fact, because its outermost prange loops may run in any order."""
import functools
from . import loops as L
from .sym import ctx
import numba as _nb

class prange:
    def __new__(cls, *a):
        return L.vrange(*a, par=True)

def _wrap(f, parallel):
    @functools.wraps(f)
    def g(*a, **k):
        st = L.PAR
        st.append(bool(parallel))
        try:
            return f(*a, **k)
        finally:
            st.pop()
    g.py_func = f
    g.__vc_parallel__ = bool(parallel)
    return g

def njit(*a, **k):
    if a and callable(a[0]):
        return _wrap(a[0], False)
    return lambda f: _wrap(f, k.get("parallel", False))
jit = njit

def guvectorize(ftylist, signature, **k):
    ins, outs = signature.split("->")
    def split(s):
        out, cur, depth = [], "", 0
        for ch in s.strip():
            if ch == "(":
                depth += 1
                cur = ""
            elif ch == ")":
                depth -= 1
                out.append([x.strip() for x in cur.split(",") if x.strip()])
            elif depth:
                cur += ch
        return out
    isig, osig = split(ins), split(outs)
    def deco(f):
        @functools.wraps(f)
        def g(*args):
            from .shim_np import zeros, asobj, NDArr
            from .arr import SymArr
            from .poly import Unsupported
            import numpy as np
            dims = {}
            arrs = []
            lead = None
            for a, sg in zip(args, isig):
                a = a if isinstance(a, SymArr) else asobj(a)
                core = a.shape[len(a.shape) - len(sg):]
                for n, d in zip(sg, core):
                    if dims.setdefault(n, d) is not d and dims[n] != d:
                        raise ValueError("mismatch in core dimension")
                lead = a.shape[:len(a.shape) - len(sg)]
                arrs.append(a)
            if any(isinstance(a, SymArr) for a in arrs):
                if len(arrs) != 1 or len(osig) != 1:
                    raise Unsupported("guvectorize on symbolic shapes")
                a = arrs[0]
                if all(isinstance(d, int) for d in a.shape):
                    arrs = [a.native()]
                else:
                    def read(ix):
                        nl = len(lead)
                        sub = a
                        from .sym import lower
                        sub = sub[tuple(lower(p) for p in ix[:nl])]
                        r = g(sub.simp() if isinstance(sub, SymArr) else sub)
                        from .arr import as_reader
                        return as_reader(r)[1](tuple(ix[nl:]))
                    return SymArr.lam(read, tuple(lead) + tuple(dims[n] for n in osig[0]))
            res = [zeros(tuple(lead) + tuple(dims[n] for n in sg)) for sg in osig]
            for o in res:
                for ix in np.ndindex(*o.shape):
                    o[ix] = ctx().fresh("undef")          # output memory is not initialised
            ftypes = ftylist[0] if isinstance(ftylist[0], str) else ""
            for ix in np.ndindex(*lead):
                call = [a[ix] if len(lead) else a for a in arrs]
                outsl = []
                for o, sg in zip(res, osig):
                    if sg:
                        outsl.append(o[ix] if len(lead) else o)
                    else:
                        # scalar output: declared as f8[:] it is a one-element view, declared as f8 a plain value
                        last = ftypes.rsplit(",", 1)[-1]
                        if "[" in last:
                            v = np.asarray(o).reshape(-1).view(NDArr)
                            k = int(np.ravel_multi_index(ix, lead)) if len(lead) else 0
                            outsl.append(v[k:k + 1])
                        else:
                            outsl.append(o[ix] if len(lead) else o[()])
                f(*call, *outsl)
            r = [o if o.shape else o[()] for o in res]
            return r[0] if len(r) == 1 else tuple(r)
        g.py_func = f
        return g
    return deco

def vectorize(*a, **k):
    from .poly import Unsupported
    def deco(f):
        return f
    return deco

def __getattr__(k):
    return getattr(_nb, k)
