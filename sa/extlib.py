"""Mathematical contracts of third-party numerical routines (ducc0's gridder and degridder):
the discrete Fourier sum with an uninterpreted kernel K, as their documentation states."""
from . import terms as T
from .terms import Poly, ZERO, ONE, of, atom, num, add, mul, neg, cmp, fresh
from .values import Arr, View, DType, Opaque, InterpRaise
from . import models as M


def bind(names, required, args, kw, fn):
    b = dict(zip(names, args))
    for k, v in kw.items():
        if k not in names:
            raise InterpRaise("TypeError", "%s has no argument %s" % (fn, k))
        if k in b:
            raise InterpRaise("TypeError", "%s got %s twice" % (fn, k))
        b[k] = v
    for r in required:
        if r not in b:
            raise InterpRaise("TypeError", "%s misses argument %s" % (fn, r))
    return b


def K(u, v, w, f, i, j, nx, ny, px, py, eps, wst, nth, dpa):
    return of(atom("ducc.K", (u, v, w, f, i, j, nx, ny, px, py, eps, wst, nth, dpa), "c"))


def kernel(I, args, kw, node):
    return K(*[I.topoly(a) for a in args])


def weight(I, b, r, c):
    g = ONE
    if b.get("wgt") is not None:
        g = mul(g, I.elem_at(b["wgt"], [r, c], 2))
    if b.get("mask") is not None:
        m = I.elem_at(b["mask"], [r, c], 2)
        g = mul(g, m if m.kind == "b" else cmp("!=", m, ZERO))
    return g


def shape_must(a, want, fn, nm, I, node):
    if a is None:
        return
    arr(a, nm)
    if len(a.shape) != len(want):
        raise InterpRaise("RuntimeError", "%s: %s has rank %d, expected %d at %s" % (fn, nm, len(a.shape), len(want), I.where(node)))


def arr(x, nm):
    if x is None or isinstance(x, (str, tuple)) or isinstance(x, Poly) and x.kind in "bif":
        raise InterpRaise("TypeError", "ducc0 argument %s is no array" % nm)
    if not isinstance(x, (Arr, View)):
        raise Opaque("ducc0 argument %s is %s" % (nm, type(x).__name__))
    return x


def number(I, x):
    if x is None or isinstance(x, (str, tuple)):
        raise InterpRaise("TypeError", "ducc0 argument is no number")
    return I.topoly(x)


def ms2dirty(I, args, kw, node):
    names = ["uvw", "freq", "ms", "wgt", "npix_x", "npix_y", "pixsize_x", "pixsize_y", "nu", "nv", "epsilon",
             "do_wstacking", "nthreads", "verbosity", "mask", "double_precision_accumulation"]
    b = bind(names, ["uvw", "freq", "ms", "npix_x", "npix_y", "pixsize_x", "pixsize_y", "epsilon"], args, kw, "ms2dirty")
    uvw, freq, ms = arr(b["uvw"], "uvw"), arr(b["freq"], "freq"), arr(b["ms"], "ms")
    shape_must(uvw, (0, 0), "ms2dirty", "uvw", I, node)
    shape_must(freq, (0,), "ms2dirty", "freq", I, node)
    shape_must(ms, (0, 0), "ms2dirty", "ms", I, node)
    shape_must(b.get("wgt"), (0, 0), "ms2dirty", "wgt", I, node)
    shape_must(b.get("mask"), (0, 0), "ms2dirty", "mask", I, node)
    nx, ny = number(I, b["npix_x"]), number(I, b["npix_y"])
    par = (nx, ny, number(I, b["pixsize_x"]), number(I, b["pixsize_y"]), number(I, b["epsilon"]),
           I.truth(b.get("do_wstacking", ZERO)), number(I, b.get("nthreads", ONE)),
           I.truth(b.get("double_precision_accumulation", ZERO)))
    nrow, nchan = ms.shape
    I.events.append(("ducc", "ms2dirty", I.where(node), b))
    fz = {k: I.frozen(b[k]) for k in ("uvw", "freq", "ms", "wgt", "mask") if b.get(k) is not None}

    def g(idx):
        i, j = idx
        r, c = fresh("r"), fresh("c")
        T.set_range(r, ZERO, nrow)
        T.set_range(c, ZERO, nchan)
        R, C = of(r), of(c)
        k = K(fz["uvw"]((R, ZERO)), fz["uvw"]((R, num(1))), fz["uvw"]((R, num(2))), fz["freq"]((C,)), i, j, *par)
        w = ONE
        if "wgt" in fz:
            w = mul(w, fz["wgt"]((R, C)))
        if "mask" in fz:
            m = fz["mask"]((R, C))
            w = mul(w, m if m.kind == "b" else cmp("!=", m, ZERO))
        body = mul(w, T.real(mul(k, fz["ms"]((R, C)))))
        return T.mk_sum(r, ZERO, nrow, T.mk_sum(c, ZERO, nchan, body))
    dt = DType(["real(%r)" % ms.dtype], "f")
    return I.lazy_array("ms2dirty", (nx, ny), dt, g)


def dirty2ms(I, args, kw, node):
    names = ["uvw", "freq", "dirty", "wgt", "pixsize_x", "pixsize_y", "nu", "nv", "epsilon",
             "do_wstacking", "nthreads", "verbosity", "mask"]
    b = bind(names, ["uvw", "freq", "dirty", "pixsize_x", "pixsize_y", "epsilon"], args, kw, "dirty2ms")
    uvw, freq, dirty = arr(b["uvw"], "uvw"), arr(b["freq"], "freq"), arr(b["dirty"], "dirty")
    shape_must(uvw, (0, 0), "dirty2ms", "uvw", I, node)
    shape_must(freq, (0,), "dirty2ms", "freq", I, node)
    shape_must(dirty, (0, 0), "dirty2ms", "dirty", I, node)
    shape_must(b.get("wgt"), (0, 0), "dirty2ms", "wgt", I, node)
    shape_must(b.get("mask"), (0, 0), "dirty2ms", "mask", I, node)
    nx, ny = dirty.shape
    par = (nx, ny, number(I, b["pixsize_x"]), number(I, b["pixsize_y"]), number(I, b["epsilon"]),
           I.truth(b.get("do_wstacking", ZERO)), number(I, b.get("nthreads", ONE)), ZERO)
    nrow, nchan = uvw.shape[0], freq.shape[0]
    I.events.append(("ducc", "dirty2ms", I.where(node), b))
    fz = {k: I.frozen(b[k]) for k in ("uvw", "freq", "dirty", "wgt", "mask") if b.get(k) is not None}

    def g(idx):
        R, C = idx
        i, j = fresh("i"), fresh("j")
        T.set_range(i, ZERO, nx)
        T.set_range(j, ZERO, ny)
        k = K(fz["uvw"]((R, ZERO)), fz["uvw"]((R, num(1))), fz["uvw"]((R, num(2))), fz["freq"]((C,)), of(i), of(j), *par)
        w = ONE
        if "wgt" in fz:
            w = mul(w, fz["wgt"]((R, C)))
        if "mask" in fz:
            m = fz["mask"]((R, C))
            w = mul(w, m if m.kind == "b" else cmp("!=", m, ZERO))
        body = mul(T.conj(k), fz["dirty"]((of(i), of(j))))
        return mul(w, T.mk_sum(i, ZERO, nx, T.mk_sum(j, ZERO, ny, body)))
    return I.lazy_array("dirty2ms", (nrow, nchan), DType(["complex(%r)" % dirty.dtype], "c"), g)


def norm(I, args, kw, node):
    v = args[0]
    ax = kw.get("axis", args[2] if len(args) > 2 else None)
    if not isinstance(v, (Arr, View)) or len(args) > 1 and args[1] is not None or set(kw) - {"axis"}:
        return NotImplemented
    if ax is None and v.ndim > 2:
        return NotImplemented
    sq = I.elementwise(lambda x: mul(T.conj(x), x) if x.kind == "c" else mul(x, x), [v])
    if ax is not None:
        ax = int(T.const_of(ax)) if T.const_of(ax) is not None else None
        if ax is None:
            return NotImplemented
    s = M.reduce_sum(I, sq, ax)
    if isinstance(s, (Arr, View)):
        return I.elementwise(T.sqrt, [s])
    return T.sqrt(s)


def cholesky(I, args, kw, node):
    """an uninterpreted function of the whole matrix"""
    v = args[0]
    if not isinstance(v, (Arr, View)):
        return NotImplemented
    t = I.termify(v)
    return I.lazy_array("cholesky", tuple(v.shape), v.dtype,
                        lambda idx: of(atom("call", ("numpy.linalg.cholesky", t) + tuple(idx), "f")))


def install(I):
    X = I.extmodels
    X["numpy.linalg.norm"] = norm
    X["numpy.linalg.cholesky"] = cholesky
    X["ducc0.wgridder.ms2dirty"] = ms2dirty
    X["ducc0.wgridder.dirty2ms"] = dirty2ms
    X["ducc_contract.K"] = kernel
