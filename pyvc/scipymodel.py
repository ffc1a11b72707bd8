"""Contracts of the scipy functions the library calls (trusted)."""
import numpy as np

from .sym import S, Cx, Unsupported, PyRaise, is_num, ite, arith
from .interp import Native


def _ns(rt, name, d):
    from .lib import Ns
    return Ns(name, d)


def cdist(rt, a, b):
    A, B = np.asarray(rt.np.asobj(a), dtype=object), np.asarray(rt.np.asobj(b), dtype=object)
    out = np.empty((A.shape[0], B.shape[0]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[0]):
            out[i, j] = rt.np.norm(rt, A[i] - B[j])
    return out


def pdist(rt, a):
    A = np.asarray(rt.np.asobj(a), dtype=object)
    n = A.shape[0]
    out = np.empty((n * (n - 1) // 2,), dtype=object)
    p = 0
    for i in range(n):
        for j in range(i + 1, n):
            out[p] = rt.np.norm(rt, A[i] - A[j])
            p += 1
    return out


def missing(name):
    def f(r, a, k):
        raise Unsupported("scipy function %s is not modelled here" % name)
    return Native(name, f)


def hooked(name, fn):
    """task.uses may give the contract of a library function."""
    def f(r, a, k):
        h = r.ver.task.uses.get("scipy." + name) if r.ver.task else None
        if h is not None:
            return h(r, list(a), k)
        return fn(r, a, k)
    return Native(name, f)


def tables(rt):
    def m(name, fn=None):
        if fn is None:
            def fn(r, a, k):
                raise Unsupported("scipy function %s is not modelled here" % name)
        return hooked(name, fn)
    dist = {"pdist": m("pdist", lambda r, a, k: pdist(r, a[0])), "cdist": m("cdist", lambda r, a, k: cdist(r, a[0], a[1]))}
    sparse = {n: m(n) for n in ("csr_matrix", "csc_matrix", "coo_matrix", "identity", "eye", "kron", "diags", "isspmatrix", "issparse")}
    la = {n: m(n) for n in ("eigsh", "norm", "spsolve", "inv", "expm_multiply")}
    spat = {"cKDTree": m("cKDTree"), "KDTree": m("KDTree"), "Voronoi": m("Voronoi"), "distance": _ns(rt, "distance", dist)}
    return {"scipy.spatial.distance": dist, "scipy.spatial": spat, "scipy.sparse.linalg": la,
            "scipy.sparse": {**sparse, "linalg": _ns(rt, "linalg", la)},
            "scipy.special": {"comb": m("comb", lambda r, a, k: r.lib.comb(r, a, k)), "factorial": m("factorial", lambda r, a, k: r.lib.factorial(r, a, k))},
            "scipy": {}}


def install(rt):
    from . import seqs
    t = tables(rt)
    for n, d in t.items():
        seqs.SCIPY[n] = (lambda d, n: lambda r: _ns(r, n, d))(d, n)
