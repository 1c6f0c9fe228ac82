"""Models of builtins, NumPy and Numba for the value-graph interpreter."""
import ast
import re
import string
from fractions import Fraction
from . import terms as T
from .terms import (Poly, ZERO, ONE, of, atom, num, add, mul, neg, sel, lnot, cmp,
                    const_of, fresh, subst)
from .values import *  # noqa

OBJ_HEADS = {"inp", "call", "attr", "item", "mcall", "opqarr", "val", "pyc", "fstr", "strcat", "seqrep",
             "tupcat", "generator", "gateval", "setop"}


class Range:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def termify(self, I):
        return ("range", self.lo, self.hi, self.step)


class Lazy:
    def concrete(self, I):
        return None

    def symbolic(self, I):
        raise Opaque("lazy")


class Zip(Lazy):
    def __init__(self, parts):
        self.parts = parts

    def termify(self, I):
        return ("zip",) + tuple(I.termify(p) for p in self.parts)

    def concrete(self, I):
        try:
            cols = []
            sym = []
            for p in self.parts:
                try:
                    cols.append(I.iterate(p))
                except Opaque:
                    cols.append(None)
            lens = [len(c) for c in cols if c is not None]
            if not lens:
                return None
            n = min(lens)
            out = []
            for c, p in zip(cols, self.parts):
                if c is None:
                    if isinstance(p, Poly):
                        out.append([item(I, p, (num(k),)) for k in range(n)])
                    elif isinstance(p, (Arr, View)):
                        return None
                    else:
                        return None
                else:
                    out.append(c[:n])
            return [tuple(c[i] for c in out) for i in range(n)]
        except Opaque:
            return None

    def symbolic(self, I):
        parts = []
        for p in self.parts:
            s = I.sym_iter(p)
            if s is None:
                seq = I.iterate(p)
                raise Opaque("zip of concrete and symbolic")
            parts.append(s)
        v, lo, hi, mk = parts[0]
        x = fresh("i")
        n = add(hi, neg(lo))
        T.set_range(x, ZERO, n)
        return x, ZERO, n, lambda i: tuple(m(add(l, i)) for _, l, _h, m in parts)


class Enumerate(Lazy):
    def __init__(self, it, start):
        self.it, self.start = it, start

    def termify(self, I):
        return ("enumerate", I.termify(self.it), self.start)

    def concrete(self, I):
        try:
            return [(add(num(i), self.start), x) for i, x in enumerate(I.iterate(self.it))]
        except Opaque:
            return None

    def symbolic(self, I):
        v, lo, hi, mk = I.sym_iter(self.it)
        return v, lo, hi, lambda i: (add(add(i, neg(lo)), self.start), mk(i))


class Deco:
    def __init__(self, name, args=(), kw=None):
        self.name, self.args, self.kw = name, args, kw or {}

    def termify(self, I):
        return "deco:" + self.name


JIT = {"numba.njit", "numba.jit", "numba.cfunc", "numba.stencil", "numba.register_jitable",
       "numba.extending.register_jitable", "numba.core.decorators.njit"}


def apply_decorator(I, dv, v, node=None):
    if isinstance(dv, Ext):
        dv = Deco(dv.name)
    if isinstance(dv, Deco):
        n = dv.name
        if n == "numba.generated_jit" or n.endswith(".generated_jit"):
            if isinstance(v, Func):
                v.flags.add("gen")
        elif n.endswith("overload"):
            tgt = dv.args[0] if dv.args else None
            if isinstance(tgt, Func) and isinstance(v, Func):
                tgt.flags.add("stub")
                v.flags.add("gen")
                I.overloads[tgt] = v
        elif n == "builtins.property":
            v.flags.add("property")
        elif n == "builtins.staticmethod":
            v.flags.add("static")
        elif n == "builtins.classmethod":
            v.flags.add("classm")
        elif n.endswith("requires_optional"):
            if isinstance(v, Func):
                v.flags.add("optional")
                v.attrs["$requires"] = dv.args
        elif n == "setter":
            return dv.args[0]
        return v
    return v


def install(I):
    I.funcmodels["africanus.util.requirements.requires_optional"] = \
        lambda I, f, a, k, n: Deco("requires_optional", tuple(a), k)
    I.funcmodels["africanus.util.numba.is_numba_type_none"] = \
        lambda I, f, a, k, n: is_none(I, a[0])
    I.funcmodels["africanus.util.docs.on_rtd"] = lambda I, f, a, k, n: ZERO
    I.extmodels = {}


def is_none(I, v):
    if isinstance(v, Gate):
        return sel(v.c, is_none(I, v.a), is_none(I, v.b))
    if v is None:
        return ONE
    if isinstance(v, Poly) and objlike(v):
        return of(atom("isnone", (v,), "b"))
    return ZERO


def objlike(v):
    if isinstance(v, Poly):
        if v.kind != "?":
            return False
        if len(v.terms) == 1 and v.terms[0][1] == 1 and len(v.terms[0][0]) == 1:
            return v.terms[0][0][0][0].head in OBJ_HEADS
    return False


# ---------------------------------------------------------------- dtypes
PYT = {"builtins.float": "float64", "builtins.complex": "complex128", "builtins.int": "int64",
       "builtins.bool": "bool", "builtins.object": "object"}
NPT = {"float32", "float64", "complex64", "complex128", "int8", "int16", "int32", "int64", "uint8",
       "uint16", "uint32", "uint64", "bool_", "bool", "intp", "float", "complex", "int", "object",
       "uintp", "longdouble", "complex256", "float128", "object_", "bool8"}
CANON = {"bool_": "bool", "float": "float64", "complex": "complex128", "int": "int64", "intp": "int64",
         "object_": "object", "bool8": "bool", "f4": "float32", "f8": "float64"}


CONCRETE = {"float32", "float64", "complex64", "complex128", "int32", "int64", "uint8", "bool", "int8", "int16",
            "uint32", "uint64", "uint16"}


def as_dtype(I, v):
    if isinstance(v, DType):
        return v
    if isinstance(v, Ext):
        if v.name in PYT:
            return DType([PYT[v.name]])
        last = v.name.split(".")[-1]
        if last in NPT and v.name.split(".")[0] in ("numpy", "numba"):
            return DType([CANON.get(last, last)])
        return None
    if isinstance(v, str):
        return DType([CANON.get(v, v)])
    if isinstance(v, (Arr, View)):
        return v.dtype
    if isinstance(v, Poly):
        if objlike(v):
            return DType(["dt{%s}" % T.show(v)], "?")
        return DType(["scalar"], v.kind if v.kind in "bifc" else "?")
    if isinstance(v, tuple) or isinstance(v, LList):
        d = None
        for x in I.iterate(v):
            y = as_dtype(I, x)
            if y is None:
                return None
            d = y if d is None else d.join(y)
        return d
    if isinstance(v, Gate):
        a, b = as_dtype(I, v.a), as_dtype(I, v.b)
        if a == b:
            return a
        return DType(["gate{%s?%r:%r}" % (T.show(v.c), a, b)], "?")
    return None


def cast(I, dt, v):
    """dt(v) for scalars"""
    k = dt.kind
    if isinstance(v, (Arr, View)):
        return copy_array(I, v, dt)
    if isinstance(v, LList) or isinstance(v, tuple):
        return np_array(I, v, dt)
    if isinstance(v, str):
        try:
            return num(float(v)) if k == "f" else num(int(v))
        except ValueError:
            return of(atom("call", ("cast:" + repr(dt), v), k if k != "?" else "?"))
    p = I.topoly(v)
    if k == "i":
        return T.toint(p)
    if k == "b":
        return I.truth(p)
    if k == "f" and p.kind == "c":
        return T.real(p)
    if p.kind == "?" and objlike(p):
        if k == "f":
            return of(atom("call", ("cast:" + k, p), "f"))
        return of(atom("call", ("cast:" + k, p), "?"))
    return p


# ---------------------------------------------------------------- arrays
def shape_tuple(I, s):
    if isinstance(s, Poly):
        return (s,)
    return tuple(I.topoly(x) for x in I.iterate(s))


def alloc(I, args, kw, base, name, node):
    s = args[0] if args else kw.get("shape")
    d = args[1] if len(args) > 1 else kw.get("dtype")
    dt = as_dtype(I, d) if d is not None else DType(["float64"])
    if dt is None:
        dt = DType(["unknown"], "?")
    try:
        shp = shape_tuple(I, s)
    except Opaque:
        return of(atom("call", ("numpy." + name, I.termify(s), repr(dt)), "?"))
    return mkarr(I, name, shp, dt, base, node)


def mkarr(I, name, shp, dt, base, node=None):
    a = I.new_array(name, shp, dt, base, site=I.where(node) if I.frames else None)
    return a


def copy_array(I, v, dt=None):
    f = I.frozen(v)
    a = I.lazy_array("copy", v.shape, dt or v.dtype, lambda idx: f(idx))
    return a


def ragged(items):
    """matrices that numpy can only hold in an object array"""
    if not all(isinstance(x, (Arr, View)) for x in items):
        return False
    shp = [tuple(x.shape) for x in items]
    return any(len(x) != len(shp[0]) or any(const_of(add(a, neg(b))) not in (0, None) for a, b in zip(x, shp[0])) for x in shp)


def np_array(I, v, dt=None, node=None):
    if isinstance(v, (Arr, View)):
        return copy_array(I, v, dt)
    if isinstance(v, Poly):
        return v
    if isinstance(v, Gate):
        return Gate(v.c, np_array(I, v.a, dt, node), np_array(I, v.b, dt, node))
    try:
        items = I.iterate(v)
    except Opaque:
        if isinstance(v, LList):
            its = I.heap[v.id]
            if len(its) == 1 and its[0][0] == "forseg" and its[0][4] is ONE and isinstance(its[0][5], Poly):
                _, q, lo, hi, g, val = its[0]
                return I.lazy_array("listarr", (add(hi, neg(lo)),), dt or DType(["list"], val.kind),
                                    lambda idx: subst(val, {q: add(lo, idx[0])}))
            vals = [x[2] if isinstance(x, tuple) and x and x[0] == "cond" else x[5] if isinstance(x, tuple) and x and x[0] == "forseg" else x
                    for x in its]
            if all(isinstance(x, Poly) and not objlike(x) for x in vals):
                t = I.termify(v)
                ks = {x.kind for x in vals}
                k = "?" if "?" in ks else max(ks, key="bifc".index)
                return I.lazy_array("listarr", (of(atom("llen", (t,), "i")),), dt or DType(["list"], k),
                                    lambda idx: of(atom("lel", (t, idx[0]), k)))
        return of(atom("call", ("numpy.array", I.termify(v)), "?"))
    if not items:
        return mkarr(I, "array", (ZERO,), dt or DType(["float64"]), ("c", ZERO), node)
    if all(isinstance(x, Poly) for x in items):
        if any(objlike(x) for x in items):
            return of(atom("call", ("numpy.array", I.termify(v)), "?"))

        def rd(idx, items=tuple(items)):
            c = const_of(idx[0])
            if c is not None:
                return items[int(c)]
            r = items[-1]
            for k in range(len(items) - 1):
                r = sel(T.eq0(add(idx[0], num(-k))), items[k], r)
            return r
        ks = {x.kind for x in items}
        k = "?" if "?" in ks else max(ks, key="bifc".index)
        return mkarr(I, "array", (num(len(items)),), dt or DType(["list"], k), ("fn", rd), node)
    if any(x is None or isinstance(x, str) for x in items) and all(
            x is None or isinstance(x, (str, Poly)) for x in items):
        return I.mkobj(items)
    if dt is not None and dt == DType(["object"]) or (dt is None and ragged(items)):
        return I.mkobj(items)
    if all(isinstance(x, (LList, tuple, Arr, View)) for x in items):
        subs = [np_array(I, x, dt, node) for x in items]
        if all(isinstance(x, (Arr, View)) for x in subs):
            fr = [I.frozen(x) for x in subs]

            def rd2(idx, fr=fr):
                c = const_of(idx[0])
                if c is not None:
                    return fr[int(c)](idx[1:])
                r = fr[-1](idx[1:])
                for k in range(len(fr) - 1):
                    r = sel(T.eq0(add(idx[0], num(-k))), fr[k](idx[1:]), r)
                return r
            return mkarr(I, "array", (num(len(items)),) + tuple(subs[0].shape), dt or subs[0].dtype,
                         ("fn", rd2), node)
    return of(atom("call", ("numpy.array", I.termify(v)), "?"))


def fancy_index(I, o, ent, node):
    arrs = [(k, e) for k, e in enumerate(ent) if isinstance(e, (Arr, View, LList, tuple))]
    conv = []
    for k, e in arrs:
        if isinstance(e, (LList, tuple)):
            e = np_array(I, e)
            if not isinstance(e, (Arr, View)):
                return of(atom("opqarr", ("fancy", I.termify(o), tuple(I.termify(x) if not isinstance(x, str) else x for x in ent)), "?"))
            ent = list(ent)
            ent[k] = e
        conv.append((k, e))
    if len(conv) == 1 and conv[0][1].ndim == 1 and not any(isinstance(e, str) for e in ent):
        k, a = conv[0]
        if a.dtype.kind == "b":
            na, fb = mask_select(I, a)
            fa = lambda ix: fb(ix[0])
        else:
            na, fa = a.shape[0], I.frozen(a)
        fo = I.frozen(o)
        # remaining entries
        shape = []
        maps = []
        for d, e in enumerate(ent):
            if d == k:
                shape.append(na)
                maps.append(("fancy",))
            elif isinstance(e, Slice):
                lo, n, st = I.slice_bounds(e, o.shape[d])
                shape.append(n)
                maps.append(("sl", lo, st))
            else:
                maps.append(("fix", I.topoly(e)))

        def rd(idx):
            out = []
            j = 0
            for m in maps:
                if m[0] == "fancy":
                    out.append(fa((idx[j],)))
                    j += 1
                elif m[0] == "sl":
                    out.append(add(m[1], mul(m[2], idx[j])))
                    j += 1
                else:
                    out.append(m[1])
            return fo(tuple(out))
        return I.lazy_array("fancy", shape, o.dtype, rd)
    return of(atom("opqarr", ("fancy", I.termify(o),
                              tuple(I.termify(x) if not isinstance(x, str) else x for x in ent)), "?"))


def fancy_store(I, o, ix, op, rhs, node, site):
    """stores through a boolean mask or one integer index array; False when not of that form"""
    if not isinstance(o, (Arr, View)):
        return False
    ent = I.norm_index(o, ix)
    arrs = [k for k, e in enumerate(ent) if isinstance(e, (Arr, View))]
    if not arrs:
        return False
    if len(arrs) == 1 and ent[arrs[0]].dtype.kind == "b" and len(ent) == 1 and ent[0].ndim == o.ndim:
        m = I.frozen(ent[0])
        if not isinstance(rhs, Poly):
            if not (isinstance(rhs, (Arr, View)) and all(const_of(x) == 1 for x in rhs.shape)):
                raise Opaque("masked store of an array at %s" % site)
        old = I.frozen(copy_array(I, o))
        val = I.topoly(rhs) if isinstance(rhs, Poly) else I.elem_at(rhs, [ZERO] * o.ndim, o.ndim)

        def rd(idx):
            g = m(idx)
            g = g if g.kind == "b" else lnot(T.eq0(g))
            return sel(g, val if op == "set" else add(old(idx), val), old(idx))
        I.store(o, (Ellipsis,), "set", I.lazy_array("masked", o.shape, o.dtype, rd), node)
        return True
    if len(arrs) == 1 and ent[arrs[0]].ndim == 1 and not any(isinstance(e, str) for e in ent) and op == "set":
        k = arrs[0]
        a = ent[k]
        if a.dtype.kind == "b":
            n, fa = mask_select(I, a)
        else:
            n, fa = a.shape[0], (lambda f: lambda i: f((i,)))(I.frozen(a))
        base = o if isinstance(o, Arr) else o.arr
        quants, iv, vix = [], [], []
        for d, e in enumerate(ent):
            if d == k:
                ln = n
            elif isinstance(e, Slice):
                lo, ln, st = I.slice_bounds(e, o.shape[d])
            else:
                iv.append(I.topoly(e))
                continue
            v = T.fresh("k")
            T.set_range(v, ZERO, ln)
            quants.append((v, ZERO, ln))
            vix.append(of(v))
            iv.append(fa(of(v)) if d == k else add(lo, mul(st, of(v))))
        val = I.elem_at(rhs, vix, len(vix))
        idx = tuple(iv) if isinstance(o, Arr) else o.base_idx(iv)
        I.store_elem(base, quants, idx, op, val, site)
        return True
    raise Opaque("fancy store at %s" % I.where(node))


def mask_select(I, a):
    """(number of selected entries, position of the i-th one) of a boolean vector"""
    f = I.frozen(a)
    t = I.termify(a)
    v = T.fresh("m")
    T.set_range(v, ZERO, a.shape[0])
    g = f((of(v),))
    g = g if g.kind == "b" else lnot(T.eq0(g))
    return T.mk_sum(v, ZERO, a.shape[0], g), lambda i: of(atom("nth", (t, i), "i"))


def ordered(I, f, a0, args, kw, node):
    """order-dependent functions of one vector, as interpreted symbols"""
    n = a0.shape[0]
    vi = DType(["int64"])
    t = I.termify(a0)
    fz = I.frozen(a0)
    if f in ("argsort", "sort"):
        kind = kw.get("kind", args[2] if len(args) > 2 else None)
        ax = kw.get("axis", args[1] if len(args) > 1 else ZERO)
        if ax is None or const_of(ax) not in (0, -1) or set(kw) - {"kind", "axis"}:
            return NotImplemented
        st = "stable" if kind in ("mergesort", "stable") else "any"
        el = lambda i: of(atom("argsort", (t, st, i), "i"))
        if f == "argsort":
            return I.lazy_array("argsort", (n,), vi, lambda idx: el(idx[0]))
        return I.lazy_array("sort", (n,), a0.dtype, lambda idx: fz((of(atom("argsort", (t, "stable", idx[0]), "i")),)))
    if f in ("nonzero", "flatnonzero"):
        m, el = mask_select(I, a0)
        r = I.lazy_array("nonzero", (m,), vi, lambda idx: el(idx[0]))
        return r if f == "flatnonzero" else (r,)
    if f == "cumsum" and len(args) == 1 and not kw:
        def rd(idx):
            v = T.fresh("c")
            return T.mk_sum(v, ZERO, add(idx[0], ONE), fz((of(v),)))
        return I.lazy_array("cumsum", (n,), a0.dtype, rd)
    if f == "diff" and len(args) == 1 and not kw:
        return I.lazy_array("diff", (add(n, num(-1)),), a0.dtype, lambda idx: add(fz((add(idx[0], ONE),)), neg(fz(idx))))
    if f == "searchsorted" and len(args) == 2:
        side = kw.get("side", "left")

        def count(x):
            v = T.fresh("s")
            T.set_range(v, ZERO, n)
            return T.mk_sum(v, ZERO, n, T.cmp("<" if side == "left" else "<=", fz((of(v),)), x))
        x = args[1]
        if isinstance(x, Poly):
            return count(x)
        if isinstance(x, (Arr, View)):
            fx = I.frozen(x)
            return I.lazy_array("searchsorted", x.shape, vi, lambda idx: count(fx(idx)))
        return NotImplemented
    if f == "unique" and len(args) == 1 and not set(kw) - {"return_index", "return_inverse", "return_counts"}:
        m = of(atom("uqn", (t,), "i"))
        first = lambda i: of(atom("uqi", (t, "idx", i), "i"))
        outs = [I.lazy_array("unique", (m,), a0.dtype, lambda idx: fz((first(idx[0]),)))]
        for k, nm, ln in (("return_index", "idx", m), ("return_inverse", "inv", n), ("return_counts", "cnt", m)):
            w = kw.get(k)
            c = const_of(I.truth(w)) if w is not None else 0
            if c is None:
                return NotImplemented
            if c:
                outs.append(I.lazy_array("unique", (ln,), vi, lambda idx, nm=nm: of(atom("uqi", (t, nm, idx[0]), "i"))))
        return outs[0] if len(outs) == 1 else tuple(outs)
    return NotImplemented


def recast(I, o, dt, node):
    """ndarray.view between 32 and 64 bit integers (little endian, non-negative low words)"""
    cur, new = o.dtype.concrete() if o.dtype is not None else None, dt.concrete() if dt is not None else None
    big = num(1 << 32)
    f = I.frozen(o)
    if new == "int64" and cur == "int32" and o.ndim >= 1:
        n = o.shape[-1]
        c = const_of(n)
        if c is not None and c % 2 == 0:
            def rd(idx):
                lo = f(tuple(idx[:-1]) + (T.scale(idx[-1], 2),))
                hi = f(tuple(idx[:-1]) + (add(T.scale(idx[-1], 2), ONE),))
                return add(lo, mul(big, hi))
            return I.lazy_array("view", tuple(o.shape[:-1]) + (num(c / 2),), dt, rd)
    if new == "int32" and cur == "int64" and o.ndim >= 1:
        def rd2(idx):
            i = idx[-1]
            x = f(tuple(idx[:-1]) + (T.floordiv(i, num(2)),))
            return sel(T.eq0(T.mod(i, num(2))), T.mod(x, big), T.floordiv(x, big))
        return I.lazy_array("view", tuple(o.shape[:-1]) + (T.scale(o.shape[-1], 2),), dt, rd2)
    if cur == new and cur is not None:
        return o
    raise Opaque("view of %s as %s" % (cur, new))


def reduce_sum(I, v, axis=None):
    if axis is None:
        vs = []
        for n in v.shape:
            x = fresh("r")
            T.set_range(x, ZERO, n)
            vs.append((x, n))
        body = I.elem_at(v, [of(x) for x, _ in vs], len(vs))
        for x, n in reversed(vs):
            body = T.mk_sum(x, ZERO, n, body)
        return body
    ax = [axis] if isinstance(axis, int) else list(axis)
    ax = [a % v.ndim for a in ax]
    f = I.frozen(v)
    shape = [s for d, s in enumerate(v.shape) if d not in ax]

    def rd(idx):
        it = iter(idx)
        full = []
        vs = []
        for d, n in enumerate(v.shape):
            if d in ax:
                x = fresh("r")
                T.set_range(x, ZERO, n)
                vs.append((x, n))
                full.append(of(x))
            else:
                full.append(next(it))
        b = f(tuple(full))
        for x, n in reversed(vs):
            b = T.mk_sum(x, ZERO, n, b)
        return b
    if not shape:
        return rd(())
    return I.lazy_array("sum", shape, v.dtype, rd)


def einsum(I, args, node):
    spec = args[0]
    ops = args[1:]
    if not isinstance(spec, str) or "..." in spec or not all(isinstance(o, (Arr, View)) for o in ops):
        return None
    spec = spec.replace(" ", "")
    if "->" not in spec:
        return None
    ins, out = spec.split("->")
    ins = ins.split(",")
    dims = {}
    for lab, o in zip(ins, ops):
        if len(lab) != o.ndim:
            raise InterpRaise("ValueError")
        for ch, n in zip(lab, o.shape):
            dims.setdefault(ch, n)
    fns = [I.frozen(o) for o in ops]
    con = [c for c in dims if c not in out]

    def rd(idx):
        env = dict(zip(out, idx))
        vs = []
        for c in con:
            x = fresh("e")
            T.set_range(x, ZERO, dims[c])
            env[c] = of(x)
            vs.append((x, dims[c]))
        b = ONE
        for lab, f in zip(ins, fns):
            b = mul(b, f(tuple(env[c] for c in lab)))
        for x, n in reversed(vs):
            b = T.mk_sum(x, ZERO, n, b)
        return b
    if not out:
        return rd(())
    dt = None
    for o in ops:
        dt = o.dtype if dt is None else dt.join(o.dtype)
    return I.lazy_array("einsum", [dims[c] for c in out], dt, rd)


# ---------------------------------------------------------------- unary functions
def _f(name, kind="f"):
    return T.fn1(name, kind)


UN = {
    "cos": T.cos, "sin": T.sin, "exp": T.exp, "log": T.log, "sqrt": T.sqrt, "abs": T.absv,
    "absolute": T.absv, "fabs": T.absv, "conj": T.conj, "conjugate": T.conj, "real": T.real, "imag": T.imag,
    "floor": T.floor_, "ceil": lambda p: neg(T.floor_(neg(p))),
    "deg2rad": lambda p: mul(p, T.scale(T.PI, Fraction(1, 180))),
    "radians": lambda p: mul(p, T.scale(T.PI, Fraction(1, 180))),
    "rad2deg": lambda p: mul(p, T.scale(T.inv(T.PI), Fraction(180))),
    "degrees": lambda p: mul(p, T.scale(T.inv(T.PI), Fraction(180))),
    "square": lambda p: mul(p, p),
    "negative": neg,
    "reciprocal": T.inv,
    "tan": lambda p: mul(T.sin(p), T.inv(T.cos(p))),
    "arcsin": _f("arcsin"), "arccos": _f("arccos"), "arctan": _f("arctan"),
    "log10": lambda p: mul(T.log(p), T.inv(T.log(num(10)))),
    "log2": lambda p: mul(T.log(p), T.inv(T.log(num(2)))),
    "round": T.rnd, "rint": T.rnd, "around": T.rnd, "sign": _f("sign", "i"),
    "isnan": _f("isnan", "b"), "isfinite": _f("isfinite", "b"), "isinf": _f("isinf", "b"),
    "logical_not": None, "invert": None, "angle": _f("angle"),
    "sinc": _f("sinc"), "expm1": lambda p: add(T.exp(p), num(-1)), "log1p": lambda p: T.log(add(p, ONE)),
    "i0": _f("i0"), "cosh": _f("cosh"), "sinh": _f("sinh"), "tanh": _f("tanh"), "trunc": T.toint,
}


def _arctan2(a, b):
    return T.hoist(lambda x, y: of(atom("arctan2", (x, y), "f")), a, b)


BINF = {
    "multiply": mul, "add": add, "subtract": lambda a, b: add(a, neg(b)),
    "divide": lambda a, b: mul(a, T.inv(b)), "true_divide": lambda a, b: mul(a, T.inv(b)),
    "power": T.power, "maximum": T.maxv, "minimum": T.minv, "arctan2": _arctan2,
    "floor_divide": T.floordiv, "mod": T.mod, "remainder": T.mod,
    "hypot": lambda a, b: T.sqrt(add(mul(a, a), mul(b, b))),
    "fmin": T.minv, "fmax": T.maxv,
}
LOGIC = {
    "logical_and": lambda a, b: mul(a, b), "logical_or": T.lor,
    "logical_xor": lambda a, b: add(add(a, b), T.scale(mul(a, b), -2)),
    "bitwise_or": T.lor, "bitwise_and": mul,
}
CMPF = {"equal": "==", "not_equal": "!=", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">="}

IGNORE = {"sa.noop", "builtins.print", "warnings.warn", "logging.getLogger", "time.time"}


def ext_attr(I, o, name):
    n = o.name + "." + name
    if o.name in ("numpy", "math"):
        if name == "pi":
            return T.PI
        if name == "e":
            return T.E_
        if name == "newaxis":
            return None
        if name == "inf":
            return num(float("inf"))
        if name == "nan":
            return num(float("nan"))
    if n in ("string.Template.delimiter", "string.Template.idpattern"):
        return getattr(string.Template, name)
    if n == "scipy.constants.c":
        return num(299792458)
    return Ext(n)


def scalar_like(v):
    return isinstance(v, Poly) and not objlike(v)


def split_gates(I, name, args, kw, node):
    """call an external function once per arm of a gated argument"""
    g = next((x for x in list(args) + list(kw.values()) if isinstance(x, Gate)), None)

    def arm(x, which):
        return (x.a if which else x.b) if isinstance(x, Gate) and x.c is g.c else x
    rs = []
    for w in (True, False):
        rs.append(call_ext(I, name, [arm(x, w) for x in args], {k: arm(v, w) for k, v in kw.items()}, node))
    return I.merge_val(g.c, rs[0], rs[1])


def call_ext(I, name, args, kw, node=None):
    if (name in I.extmodels or name.startswith("numpy.")) and any(isinstance(x, Gate) for x in list(args) + list(kw.values())):
        return split_gates(I, name, args, kw, node)
    if name in I.extmodels:
        r = I.extmodels[name](I, args, kw, node)
        if r is not NotImplemented:
            return r
    if name in IGNORE:
        return None
    root, _, last = name.rpartition(".")
    if name == "re.escape" and len(args) == 1 and isinstance(args[0], str):
        return re.escape(args[0])
    if root == "builtins":
        r = builtin(I, last, args, kw, node)
        if r is not NotImplemented:
            return r
    if name in JIT or name.endswith("generated_jit") or name.endswith("extending.overload"):
        if args and isinstance(args[0], (Func, Gate)) and not name.endswith("overload"):
            if name.endswith("generated_jit"):
                args[0].flags.add("gen")
            return args[0]
        return Deco(name, tuple(args), kw)
    if name in ("functools.wraps", "decorator.decorate"):
        if name == "decorator.decorate":
            if I.missing is not None:
                return Partial(args[1], (args[0],), {})
            return args[0]
        return Deco(name, tuple(args), kw)
    if name == "scipy.optimize.curve_fit" and len(args) >= 3 and (len(args) > 3 or "p0" in kw):
        p0 = args[3] if len(args) > 3 else kw["p0"]
        rest = {k: v for k, v in kw.items() if k != "p0"}
        t = tuple(I.termify(x) for x in args[1:3]) + (I.termify(p0), tuple((k, I.termify(v)) for k, v in sorted(rest.items())))
        fn = args[0].node.name if isinstance(args[0], Func) else repr(args[0])
        one = lambda i: of(atom("call", (name, fn, i) + t, "f"))
        return tuple(one(i) for i in range(len(I.iterate(p0)))), one("cov")
    if name == "importlib.import_module" and args and isinstance(args[0], str):
        I.need(args[0])
        return Ext(args[0])
    if name == "functools.partial":
        return Partial(args[0], args[1:], kw)
    if name == "functools.reduce":
        its = I.iterate(args[1])
        acc = args[2] if len(args) > 2 else its.pop(0)
        for x in its:
            acc = I.call(args[0], [acc, x], {}, node)
        return acc
    if name == "collections.namedtuple":
        fl = args[1]
        if isinstance(fl, str):
            fl = fl.replace(",", " ").split()
        else:
            fl = I.iterate(fl)
        return NTCls(args[0], fl)
    if name in ("collections.OrderedDict", "collections.defaultdict"):
        return builtin(I, "dict", args if name.endswith("OrderedDict") else [], kw, node)
    if name == "collections.deque":
        return builtin(I, "list", args[:1], {}, node)
    if name in ("pprint.pformat", "textwrap.fill", "textwrap.dedent") and args:
        return args[0] if isinstance(args[0], str) else generic_call(I, name, args, kw, node)
    if name == "itertools.product" and not kw:
        import itertools
        try:
            return tuple(itertools.product(*[I.iterate(a) for a in args]))
        except Opaque:
            pass
    if name == "itertools.chain":
        try:
            return tuple(x for a in args for x in I.iterate(a))
        except Opaque:
            pass
    if name in ("numba.prange",):
        return builtin(I, "range", args, kw, node)
    if name in ("numba.literal_unroll", "numba.literally"):
        return args[0]
    if name.startswith("operator."):
        m = {"mul": "Mult", "add": "Add", "sub": "Sub", "truediv": "Div"}.get(last)
        if m:
            return I.binop(m, args[0], args[1], node)
        if last == "or_":
            return I.binop("BitOr", args[0], args[1], node)
    if root in ("numpy", "math", "numpy.core.umath") or root == "cmath":
        r = np_call(I, last, args, kw, node)
        if r is not NotImplemented:
            return r
    if root == "numba" and last in NPT:
        return cast(I, as_dtype(I, Ext(name)), args[0])
    return generic_call(I, name, args, kw, node)


def generic_call(I, name, args, kw, node):
    for a in list(args) + list(kw.values()):
        if isinstance(a, (Arr,)) and a.origin == "alloc" and I.heap.get(a.id) is not None:
            pass
    t = atom("call", (name,) + tuple(I.termify(a) for a in args) +
             tuple(("kw", k, I.termify(kw[k])) for k in sorted(kw)), "?")
    I.event("extcall", name, args, kw, I.where(node))
    return of(t)


def joined(I, f, args, kw):
    """numpy.stack / numpy.concatenate of a concrete number of arrays"""
    try:
        xs = list(I.iterate(args[0]))
        xs = [np_array(I, x) if isinstance(x, (tuple, LList)) else x for x in xs]
        rd = [I.frozen(x) for x in xs]
    except Opaque:
        return None
    ax = args[1] if len(args) > 1 else kw.get("axis", ZERO)
    if ax is None or not xs:
        return None
    ax = const_of(ax)
    if ax is None:
        return None
    ax = int(ax)
    if not all(isinstance(x, (Arr, View)) for x in xs):
        if f == "stack" and all(isinstance(x, Poly) and not objlike(x) for x in xs) and ax in (0, -1):
            return np_array(I, tuple(xs))
        return None
    nd = xs[0].ndim
    dt = xs[0].dtype
    for x in xs[1:]:
        if x.ndim != nd:
            raise InterpRaise("ValueError", "%s of arrays of different rank" % f)
        dt = dt.join(x.dtype)
    if f == "stack":
        ax %= nd + 1
        shape = list(xs[0].shape)
        shape.insert(ax, num(len(xs)))

        def g(idx):
            sub = list(idx)
            k = sub.pop(ax)
            r = rd[-1](sub)
            for j in reversed(range(len(xs) - 1)):
                r = sel(cmp("==", k, num(j)), rd[j](sub), r)
            return r
        return I.lazy_array("stack", shape, dt, g)
    ax %= nd
    shape = list(xs[0].shape)
    offs = [ZERO]
    for x in xs:
        offs.append(add(offs[-1], x.shape[ax]))
    shape[ax] = offs[-1]

    def g(idx):
        sub = list(idx)
        k = sub[ax]

        def at(j):
            s2 = list(sub)
            s2[ax] = add(k, neg(offs[j]))
            return rd[j](s2)
        r = at(len(xs) - 1)
        for j in reversed(range(len(xs) - 1)):
            r = sel(cmp("<", k, offs[j + 1]), at(j), r)
        return r
    return I.lazy_array("concat", shape, dt, g)


def np_call(I, f, args, kw, node):
    kw = dict(kw)
    a0 = args[0] if args else None
    if isinstance(a0, Gate) and len(args) == 1 and f in UN:
        return I.merge_val(a0.c, np_call(I, f, [a0.a], kw, node), np_call(I, f, [a0.b], kw, node))
    if f == "copyto" and isinstance(a0, (Arr, View)) and len(args) == 2 and not kw:
        I.store_all(a0, "set", args[1], node)
        return None
    out = kw.pop("out", None)
    if out is None and f in UN and len(args) == 2 and isinstance(args[1], (Arr, View)):
        out = args[1]
        args = args[:1]
    if f in UN and len(args) >= 1 and (f not in ("round", "around") or len(args) == 1) and "where" not in kw:
        g = UN[f]
        if f in ("logical_not", "invert"):
            r = I.elementwise(lambda p: lnot(I.truth(p)), [a0], "b")
        elif isinstance(a0, Poly) and objlike(a0) and f not in ("exp", "cos", "sin", "sqrt", "log", "abs", "conj"):
            r = of(atom("call", ("numpy." + f, a0), "?"))
        else:
            if isinstance(a0, (LList, tuple)):
                a0 = np_array(I, a0)
            k = {"isnan": "b", "isfinite": "b", "isinf": "b"}.get(f)
            r = I.elementwise(g, [a0], k)
            if f in ("abs", "absolute", "real", "imag") and isinstance(r, Arr) and r.dtype is not None \
                    and r.dtype.kind == "c":
                r.dtype = DType(["real(%r)" % r.dtype], "f")
        if out is not None:
            I.store_all(out, "set", r, node)
            return out
        return r
    if f in BINF and len(args) == 2:
        r = I.elementwise(BINF[f], [np_array(I, x) if isinstance(x, (LList, tuple)) else x for x in args])
        if out is not None:
            I.store_all(out, "set", r, node)
            return out
        return r
    if f in LOGIC and len(args) == 2:
        return I.elementwise(lambda x, y: LOGIC[f](I.truth(x), I.truth(y)), list(args), "b")
    if f in CMPF and len(args) == 2:
        return I.elementwise(lambda x, y: cmp(CMPF[f], x, y), list(args), "b")
    if f in NPT:
        dt = as_dtype(I, Ext("numpy." + f))
        if not args:
            return ZERO
        return cast(I, dt, a0)
    if f == "dtype":
        return as_dtype(I, a0)
    if f == "issubdtype" and len(args) == 2 and isinstance(args[1], Ext):
        d = as_dtype(I, a0)
        want = {"integer": "i", "signedinteger": "i", "unsignedinteger": "i", "floating": "f", "complexfloating": "c", "bool_": "b",
                "number": "ifc", "inexact": "fc", "generic": "bifc"}.get(args[1].name.split(".")[-1])
        if want is None:
            e = as_dtype(I, args[1])
            if d is not None and e is not None and d.concrete() and e.concrete():
                return ONE if d == e else ZERO
            return NotImplemented
        if isinstance(a0, Ext) and a0.name in ("builtins.str", "builtins.tuple", "builtins.list", "builtins.dict", "builtins.NoneType"):
            return ZERO
        if d is None or d.kind == "?":
            return NotImplemented
        return ONE if d.kind in want else ZERO
    if f == "result_type":
        d = None
        if not args:
            raise InterpRaise("ValueError", "result_type of nothing at %s" % I.where(node))
        for a in args:
            if isinstance(a, tuple) and len(a) == 2 and a[0] == "star":
                x = DType(["star{%s}" % (T._akey(I.termify(a[1])),)], "?")
            else:
                x = as_dtype(I, a)
            if x is None:
                return NotImplemented
            if x.parts == {"scalar"}:
                continue
            d = x if d is None else d.join(x)
        return d
    if f in ("stack", "concatenate"):
        r = joined(I, f, args, kw)
        if r is not None:
            return r
        return NotImplemented
    if f == "zeros":
        return alloc(I, args, kw, ("c", ZERO), "zeros", node)
    if f == "ones":
        return alloc(I, args, kw, ("c", ONE), "ones", node)
    if f == "empty":
        return alloc(I, args, kw, ("empty",), "empty", node)
    if f == "full":
        v = args[1] if len(args) > 1 else kw.get("fill_value")
        d = args[2] if len(args) > 2 else kw.get("dtype")
        return alloc(I, [args[0]] + ([d] if d is not None else []), {}, ("c", I.topoly(v)), "full", node)
    if isinstance(a0, OList):
        if f in ("zeros_like", "empty_like"):
            return I.mkobj([ZERO] * len(I.iterate(a0)))
        if f in ("array", "asarray", "copy"):
            return I.mkobj(I.iterate(a0))
        if f in ("shape",):
            return attr(I, a0, f, node)
        if f not in ("array", "asarray", "any", "all", "min", "max"):
            raise Opaque("numpy.%s of an object array" % f)
    if f == "delete" and isinstance(a0, (Arr, View)) and a0.ndim == 1 and len(args) == 2 and isinstance(args[1], Poly):
        fz, d = I.frozen(a0), args[1]
        c = const_of(d)
        if c is not None and c < 0:
            d = add(d, a0.shape[0])
        return I.lazy_array("delete", [add(a0.shape[0], num(-1))], a0.dtype,
                            lambda idx: sel(cmp("<", idx[0], d), fz(idx), fz((add(idx[0], ONE),))))
    if f in ("prod", "product") and len(args) == 1 and not kw and type(a0) is tuple and all(isinstance(x, Poly) for x in a0):
        r = ONE
        for x in a0:
            r = mul(r, x)
        return r
    if f in ("prod", "product") and isinstance(a0, (Arr, View)) and len(args) == 1 and not kw and a0.ndim == 1 and \
            const_of(a0.shape[0]) is not None and const_of(a0.shape[0]) <= 16:
        r = ONE
        for k in range(int(const_of(a0.shape[0]))):
            r = mul(r, I.elem_at(a0, [num(k)], 1))
        return r
    if f in ("zeros_like", "ones_like", "empty_like", "full_like"):
        if not isinstance(a0, (Arr, View)):
            return NotImplemented
        d = kw.get("dtype")
        rest = args[1:]
        base = {"zeros_like": ("c", ZERO), "ones_like": ("c", ONE), "empty_like": ("empty",)}.get(f)
        if f == "full_like":
            base = ("c", I.topoly(rest[0] if rest else kw.get("fill_value")))
            rest = rest[1:]
        if rest:
            d = rest[0]
        dt = as_dtype(I, d) if d is not None else a0.dtype
        shp = a0.shape
        if "shape" in kw and kw["shape"] is not None:
            shp = shape_tuple(I, kw["shape"])
        return mkarr(I, f, shp, dt, base, node)
    if f in ("array", "asarray", "ascontiguousarray", "require", "asfortranarray"):
        d = kw.get("dtype", args[1] if len(args) > 1 else None)
        dt = as_dtype(I, d) if d is not None else None
        if f != "array" and isinstance(a0, (Arr, View)) and (dt is None or dt == a0.dtype):
            return a0
        if isinstance(a0, Poly) and objlike(a0):
            return of(atom("call", ("numpy." + f, a0) + ((repr(dt),) if dt else ()), "?"))
        return np_array(I, a0, dt, node)
    if f in ("copy",) and isinstance(a0, (Arr, View)):
        return copy_array(I, a0)
    if f == "where" and len(args) == 3:
        return I.elementwise(lambda c, x, y: sel(I.truth(c), x, y), list(args))
    if f in ("sum", "nansum") and isinstance(a0, (Arr, View)) and f == "sum":
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        if "where" in kw:
            return NotImplemented
        if isinstance(ax, LList):
            ax = tuple(I.iterate(ax))
        if kw.get("keepdims") is not None and const_of(I.truth(kw["keepdims"])) != 0:
            if const_of(I.truth(kw["keepdims"])) is None:
                return NotImplemented
            axs = range(a0.ndim) if ax is None else [int(const_of(x)) % a0.ndim for x in (ax if isinstance(ax, tuple) else (ax,))]
            r = reduce_sum(I, a0, tuple(axs))
            f = I.frozen(r) if isinstance(r, (Arr, View)) else (lambda idx: r)
            return I.lazy_array("sum", [ONE if d in axs else s for d, s in enumerate(a0.shape)], a0.dtype,
                                lambda idx: f(tuple(x for d, x in enumerate(idx) if d not in axs)))
        if ax is None:
            return reduce_sum(I, a0)
        if isinstance(ax, tuple):
            return reduce_sum(I, a0, tuple(int(const_of(x)) for x in ax))
        return reduce_sum(I, a0, int(const_of(ax)))
    if f in ("argsort", "sort", "nonzero", "flatnonzero", "cumsum", "diff", "searchsorted", "unique") and \
            isinstance(a0, (Arr, View)) and a0.ndim == 1:
        r = ordered(I, f, a0, args, kw, node)
        if r is not NotImplemented:
            return r
    if f == "where" and len(args) == 1 and not kw and isinstance(a0, (Arr, View)) and a0.ndim == 1:
        return ordered(I, "nonzero", a0, args, kw, node)
    if f in ("min", "max", "amin", "amax", "any", "all", "ptp", "mean", "prod", "argmax", "argmin", "median", "std",
             "unique", "argsort", "sort", "cumsum", "nonzero", "product") and isinstance(a0, (Arr, View)):
        f = {"amin": "min", "amax": "max", "product": "prod"}.get(f, f)
        k = {"any": "b", "all": "b", "argmax": "i", "argmin": "i"}.get(f, a0.dtype.kind if f in ("min", "max", "ptp") else "?")
        if len(args) == 1 and not kw or (kw.get("axis", 0) is None):
            if f in ("min", "max") and isinstance(a0, (Arr, View)) and all(const_of(x) == 1 for x in a0.shape):
                return I.elem_at(a0, [ZERO] * len(a0.shape), len(a0.shape))
            return of(atom("call", ("numpy." + f, I.termify(a0)), k))
        return NotImplemented
    if f in ("any", "all", "min", "max") and isinstance(a0, (LList, tuple)):
        return builtin(I, f, args, kw, node)
    if f in ("reshape", "ravel") and isinstance(a0, (Arr, View)) and not set(kw) - {"newshape", "shape"}:
        return reshape(I, a0, list(args[1:]) + list(kw.values()), node, f != "reshape")
    if f == "squeeze" and isinstance(a0, (Arr, View)) and len(args) == 1 and not kw:
        return reshape(I, a0, [tuple(x for x in a0.shape if const_of(x) != 1)], node)
    if f == "tile" and isinstance(a0, (Arr, View)) and len(args) == 2:
        reps = [args[1]] if isinstance(args[1], Poly) else I.iterate(args[1])
        nd = max(len(reps), a0.ndim)
        reps = [ONE] * (nd - len(reps)) + list(reps)
        shp = [ONE] * (nd - a0.ndim) + list(a0.shape)
        fz, off = I.frozen(a0), nd - a0.ndim
        return I.lazy_array("tile", [mul(r, n) for r, n in zip(reps, shp)], a0.dtype,
                            lambda idx: fz(tuple(ix if r is ONE else T.mod(ix, n)
                                                 for ix, n, r in zip(idx[off:], shp[off:], reps[off:]))))
    if f == "shape" and isinstance(a0, (Arr, View)):
        return tuple(a0.shape)
    if f == "ndim" and isinstance(a0, (Arr, View)):
        return num(a0.ndim)
    if f in ("dot", "matmul") and len(args) == 2 and all(isinstance(x, (Arr, View)) for x in args):
        a, b = args
        if a.ndim == 2 and b.ndim == 2:
            return einsum(I, ["ij,jk->ik", a, b], node)
        if a.ndim == 1 and b.ndim == 1:
            return einsum(I, ["i,i->", a, b], node)
        if a.ndim == 2 and b.ndim == 1:
            return einsum(I, ["ij,j->i", a, b], node)
        if a.ndim == 1 and b.ndim == 2:
            return einsum(I, ["i,ij->j", a, b], node)
        return NotImplemented
    if f == "outer" and len(args) == 2 and all(isinstance(x, (Arr, View)) and x.ndim == 1 for x in args):
        return einsum(I, ["i,j->ij", args[0], args[1]], node)
    if f == "einsum":
        r = einsum(I, args, node)
        return NotImplemented if r is None else r
    if f == "arange":
        if len(args) == 1:
            lo, hi = ZERO, args[0]
        elif len(args) >= 2:
            lo, hi = args[0], args[1]
        if len(args) <= 2 and isinstance(lo, Poly) and isinstance(hi, Poly) and lo.kind in "ib" and hi.kind in "ib":
            return I.lazy_array("arange", (add(hi, neg(lo)),), DType(["int64"]), lambda idx: add(lo, idx[0]))
        return NotImplemented
    if f == "linspace" and len(args) == 3 and all(isinstance(x, Poly) for x in args) and not kw:
        a, b, n = args
        return I.lazy_array("linspace", (n,), DType(["float64"]),
                            lambda idx: add(a, mul(mul(idx[0], add(b, neg(a))), T.inv(add(n, num(-1))))))
    if f in ("transpose",) and isinstance(a0, (Arr, View)) and len(args) == 1:
        return transpose(I, a0)
    if f == "broadcast_to" and isinstance(a0, (Arr, View, Poly)) and scalar_or_arr(a0):
        shp = shape_tuple(I, args[1])
        if isinstance(a0, Poly):
            return I.lazy_array("bc", shp, DType(["scalar"], a0.kind), lambda idx: a0)
        _, fns = I.broadcast([a0])
        off = len(shp) - a0.ndim
        fz = I.frozen(a0)

        def rd(idx):
            sub = list(idx[off:])
            for i, s in enumerate(a0.shape):
                if const_of(s) == 1:
                    sub[i] = ZERO
            return fz(tuple(sub))
        return I.lazy_array("bc", shp, a0.dtype, rd)
    if f in ("isscalar",):
        return ONE if isinstance(a0, Poly) else ZERO
    if f == "atleast_1d" and isinstance(a0, (Arr, View)) and a0.ndim >= 1:
        return a0
    if f in ("expand_dims",) and isinstance(a0, (Arr, View)):
        k = int(const_of(args[1] if len(args) > 1 else kw["axis"]))
        ix = [Slice(None, None, None)] * a0.ndim
        ix.insert(k if k >= 0 else a0.ndim + 1 + k, None)
        return I.getitem(a0, tuple(ix), node)
    if f == "unique" or f == "searchsorted":
        return NotImplemented
    if f == "finfo" and isinstance(a0, (DType, Ext, Poly)) and not (isinstance(a0, Poly) and not objlike(a0)):
        return Finfo(repr(as_dtype(I, a0)))
    if f == "iinfo" or f == "finfo":
        return of(atom("call", ("numpy." + f, repr(as_dtype(I, a0))), "?"))
    if f in ("seterr", "errstate"):
        return None
    if f in ("power", "pow") and len(args) == 2:
        return I.elementwise(T.power, list(args))
    return NotImplemented


class Finfo:
    """numpy.finfo: max stands for a value above all data"""

    def __init__(self, dt):
        self.dt = dt

    def sa_getattr(self, I, name):
        if name in ("max", "min"):
            return num(10 ** 30 if name == "max" else -10 ** 30)
        return of(atom("attr", (of(atom("call", ("numpy.finfo", self.dt), "?")), name), "f"))

    def termify(self, I):
        return ("finfo", self.dt)


def scalar_or_arr(v):
    return isinstance(v, (Arr, View)) or scalar_like(v)


def transpose(I, a, perm=None):
    perm = perm or tuple(reversed(range(a.ndim)))
    f = I.frozen(a)

    def rd(idx):
        out = [None] * len(perm)
        for k, p in enumerate(perm):
            out[p] = idx[k]
        return f(tuple(out))
    return I.lazy_array("T", [a.shape[p] for p in perm], a.dtype, rd)


# ---------------------------------------------------------------- builtins
EXCS = {"ValueError", "TypeError", "KeyError", "NotImplementedError", "Exception", "RuntimeError",
        "ImportError", "AssertionError", "IndexError", "AttributeError", "OSError", "IOError",
        "NotImplemented", "ModuleNotFoundError", "StopIteration", "ZeroDivisionError", "LookupError"}


def builtin(I, f, args, kw, node):
    a0 = args[0] if args else None
    if f in EXCS:
        return Exc(f, tuple(args))
    if f == "range":
        ps = [I.topoly(a) for a in args]
        if len(ps) == 1:
            return Range(ZERO, ps[0], ONE)
        if len(ps) == 2:
            return Range(ps[0], ps[1], ONE)
        return Range(*ps)
    if f == "len":
        return length(I, a0)
    if f == "zip":
        if len(args) == 1 and isinstance(args[0], tuple) and len(args[0]) == 2 and args[0][0] == "star":
            return NotImplemented
        z = Zip(list(args))
        return z
    if f == "enumerate":
        return Enumerate(a0, args[1] if len(args) > 1 else kw.get("start", ZERO))
    if f == "isinstance":
        return isinst(I, a0, args[1])
    if f in ("min", "max"):
        g = T.minv if f == "min" else T.maxv
        if "key" in kw:
            return NotImplemented
        if len(args) == 1:
            if isinstance(a0, (Arr, View)):
                return np_call(I, f, args, kw, node)
            try:
                items = I.iterate(a0)
            except Opaque:
                return NotImplemented
        else:
            items = list(args)
        if not items or not all(isinstance(x, Poly) for x in items) or any(objlike(x) for x in items):
            if items and all(isinstance(x, Poly) for x in items):
                return of(atom("call", (f,) + tuple(sorted(items, key=T._akey)), "?"))
            return NotImplemented
        r = items[0]
        for x in items[1:]:
            r = g(r, x)
        return r
    if f == "abs":
        return np_call(I, "abs", args, kw, node)
    if f in ("int", "float", "bool", "complex"):
        if not args:
            return ZERO
        if f == "complex" and len(args) == 2:
            return add(I.topoly(args[0]), mul(T.I, I.topoly(args[1])))
        return cast(I, as_dtype(I, Ext("builtins." + f)), a0)
    if f == "str":
        if isinstance(a0, str):
            return a0
        if isinstance(a0, Poly) and const_of(a0) is not None:
            return str(const_of(a0))
        return of(atom("fstr", (("fmt", I.termify(a0)),), "?"))
    if f == "tuple":
        if not args:
            return ()
        try:
            return tuple(I.iterate(a0))
        except Opaque:
            return of(atom("call", ("tuple", I.termify(a0)), "?"))
    if f == "list":
        if not args:
            return I.mklist(())
        try:
            return I.mklist(I.iterate(a0))
        except Opaque:
            return of(atom("call", ("list", I.termify(a0)), "?"))
    if f in ("set", "frozenset"):
        return LSet(I.iterate(a0) if args else [])
    if f == "dict":
        d = {}
        if args:
            if isinstance(a0, LDict):
                d.update(I.heap[a0.id])
            else:
                try:
                    its = I.iterate(a0)
                except Opaque:
                    return NotImplemented
                for it in its:
                    k, v = I.iterate(it)
                    d[I.hkey(k)] = v
        d.update(kw)
        return I.mkdict(d)
    if f == "sum":
        try:
            items = I.iterate(a0)
        except Opaque:
            if isinstance(a0, (Arr, View)) and a0.ndim == 1:
                return reduce_sum(I, a0)
            if isinstance(a0, LList):
                r = args[1] if len(args) > 1 else ZERO
                for x in I.heap[a0.id]:
                    if isinstance(x, tuple) and x[0] == "forseg" and isinstance(x[5], Poly):
                        r = add(r, T.mk_sum(x[1], x[2], x[3], mul(x[4], x[5])))
                    elif isinstance(x, tuple) and x[0] == "cond" and isinstance(x[2], Poly):
                        r = add(r, mul(x[1], x[2]))
                    elif isinstance(x, Poly):
                        r = add(r, x)
                    else:
                        return NotImplemented
                return r
            return NotImplemented
        r = args[1] if len(args) > 1 else ZERO
        for x in items:
            r = I.binop("Add", r, x, node)
        return r
    if f == "super":
        if not args:
            fn = I.fr.fn
            return Super(fn.cls, I.fr.env.lookup(fn.node.args.args[0].arg))
        return Super(args[0], args[1])
    if f in ("all", "any"):
        try:
            items = I.iterate(a0)
        except Opaque:
            if isinstance(a0, LList):
                items = I.heap[a0.id]
                if all(isinstance(x, tuple) and x and x[0] == "cond" for x in items):
                    r = ONE if f == "all" else ZERO
                    for _, g, x in items:
                        t = I.truth(x)
                        r = mul(r, T.lor(lnot(g), t)) if f == "all" else T.lor(r, mul(g, t))
                    return r
            return of(atom("call", (f, I.termify(a0)), "b"))
        r = ONE if f == "all" else ZERO
        for x in items:
            t = I.truth(x)
            r = mul(r, t) if f == "all" else T.lor(r, t)
        return r
    if f == "sorted":
        try:
            items = I.iterate(a0)
        except Opaque:
            return NotImplemented
        if all(isinstance(x, str) for x in items) and not kw:
            return I.mklist(sorted(items))
        cs = [const_of(x) if isinstance(x, Poly) else None for x in items]
        if all(c is not None for c in cs) and not kw:
            return I.mklist([num(c) for c in sorted(cs)])
        return NotImplemented
    if f == "reversed":
        if isinstance(a0, Range):
            st = const_of(a0.step)
            if st == 1:
                return Range(add(a0.hi, num(-1)), add(a0.lo, num(-1)), num(-1))
        return I.mklist(list(reversed(I.iterate(a0))))
    if f == "map":
        out = []
        for tup in zip(*[I.iterate(a) for a in args[1:]]):
            out.append(I.call(a0, list(tup), {}, node))
        return I.mklist(out)
    if f == "filter":
        out = []
        for x in I.iterate(args[1]):
            t = const_of(I.truth(x if a0 is None else I.call(a0, [x], {}, node)))
            if t is None:
                return NotImplemented
            if t:
                out.append(x)
        return I.mklist(out)
    if f == "getattr":
        if isinstance(args[1], str):
            try:
                return I.getattr(a0, args[1], node)
            except InterpRaise:
                if len(args) > 2:
                    return args[2]
                raise
        return NotImplemented
    if f == "setattr" and isinstance(args[1], str):
        I.setattr(a0, args[1], args[2], node)
        return None
    if f == "hasattr":
        if isinstance(a0, (Arr, View)):
            return ONE
        if isinstance(a0, Inst) and isinstance(args[1], str) and not any(isinstance(b, Ext) for b in ()):
            if args[1] in I.heap.get(a0.id, {}) or I.cls_lookup(a0.cls, args[1]) is not UNDEF:
                return ONE
            return ZERO
        return NotImplemented
    if f == "callable":
        return ONE if isinstance(a0, (Func, Partial, Bound, Cls, Ext)) else ZERO
    if f == "type" and hasattr(a0, "isa"):
        return a0.sa_attr(I, "__class__", node)
    if f == "type":
        if isinstance(a0, Inst):
            return a0.cls
        if isinstance(a0, Poly) and len(a0.terms) == 1 and len(a0.terms[0][0]) == 1:
            at = a0.terms[0][0][0][0]
            if at.head == "el" and len(at.args) > 1 and at.args[0] in I.indtypes:
                ps = I.indtypes[at.args[0]].parts
                if len(ps) == 1 and next(iter(ps)) in CONCRETE:
                    return Ext("numpy." + next(iter(ps)))
        if isinstance(a0, Poly) and const_of(a0) is not None:
            return Ext("builtins." + {"i": "int", "b": "int", "f": "float", "c": "complex"}[a0.kind]) if a0.kind in "bifc" else NotImplemented
        for ty, nm in ((str, "str"), (tuple, "tuple"), (LList, "list"), (LDict, "dict")):
            if isinstance(a0, ty):
                return Ext("builtins." + nm)
        if a0 is None:
            return Ext("builtins.NoneType")
        return of(atom("call", ("type", I.termify(a0)), "?"))
    if f == "slice":
        a = list(args)
        if kw or not 1 <= len(a) <= 3:
            raise InterpRaise("TypeError", "slice arguments")
        if len(a) == 1:
            return Slice(None, a[0], None)
        return Slice(a[0], a[1], a[2] if len(a) > 2 else None)
    if f == "round":
        if len(args) == 1:
            return I.elementwise(T.rnd, args)
        return NotImplemented
    if f == "divmod":
        return (I.binop("FloorDiv", args[0], args[1]), I.binop("Mod", args[0], args[1]))
    if f == "pow":
        return I.binop("Pow", args[0], args[1])
    if f == "iter":
        return a0
    if f == "object":
        o = Inst(Cls(None, None, None, "object"))
        I.heap[o.id] = {}
        return o
    if f == "super":
        return of(atom("call", ("super",), "?"))
    return NotImplemented


def length(I, v):
    if isinstance(v, (tuple, str)):
        return num(len(v))
    if isinstance(v, NT):
        return num(len(v.vals))
    if isinstance(v, LList):
        items = I.heap[v.id]
        n = ZERO
        for x in items:
            if isinstance(x, tuple) and x and x[0] == "cond":
                n = add(n, x[1])
            elif isinstance(x, tuple) and x and x[0] == "forseg":
                n = add(n, T.mk_sum(x[1], x[2], x[3], x[4]))
            else:
                n = add(n, ONE)
        return n
    if isinstance(v, LDict):
        return num(len(I.heap[v.id]))
    if isinstance(v, (Arr, View)):
        return v.shape[0]
    if isinstance(v, LSet):
        return of(atom("len", (I.termify(v),), "i"))
    if isinstance(v, Range):
        return add(v.hi, neg(v.lo))
    if isinstance(v, Gate):
        return sel(v.c, length(I, v.a), length(I, v.b))
    return of(atom("len", (I.termify(v),), "i"))


def isinst(I, v, t):
    if isinstance(t, tuple):
        r = ZERO
        for x in t:
            r = T.lor(r, isinst(I, v, x))
        return r
    if isinstance(v, Gate):
        return sel(v.c, isinst(I, v.a, t), isinst(I, v.b, t))
    name = t.name if isinstance(t, Ext) else None
    if hasattr(v, "isa") and name is not None:
        return v.isa(name)
    if isinstance(t, Cls):
        return ONE if isinstance(v, Inst) and (v.cls is t or t in v.cls.bases) else (
            of(atom("isinstance", (I.termify(v), t.name), "b")) if isinstance(v, Poly) and objlike(v) else ZERO)
    if name is None:
        return of(atom("isinstance", (I.termify(v), I.termify(t)), "b"))
    last = name.split(".")[-1]
    if last == "Array" and name.startswith("dask"):
        if isinstance(v, Poly) and objlike(v):
            return of(atom("isinstance", (v, name), "b"))
        return ONE if hasattr(v, "chunks") else ZERO
    if isinstance(v, Poly) and objlike(v):
        return of(atom("isinstance", (v, last), "b"))
    if isinstance(v, Exc):
        import builtins as bi
        x, y = getattr(bi, v.name, None), getattr(bi, last, None)
        if isinstance(x, type) and isinstance(y, type):
            return ONE if issubclass(x, y) else ZERO
    if isinstance(v, (Func, Partial, Bound, Exc)) or isinstance(v, Inst) and v.cls.name == "object":
        return ONE if last in ("object", "Callable") and name != "typing" else ZERO
    y = getattr(__import__("builtins"), last, None)
    if isinstance(y, type) and issubclass(y, BaseException):
        return ZERO
    tests = {
        "tuple": (tuple, NT), "list": (LList,), "dict": (LDict,), "str": (str,), "set": (LSet,),
        "ndarray": (Arr, View), "Array": (Arr, View), "NoneType": (type(None),), "slice": (Slice,),
        "Tuple": (tuple,), "UniTuple": (tuple,), "BaseTuple": (tuple,), "StringLiteral": (str,),
        "UnicodeType": (str,), "Omitted": (), "List": (LList,), "ListType": (LList,), "LiteralList": (LList,), "Callable": (Func,), "dtype": (DType,),
    }
    if last in tests:
        return ONE if isinstance(v, tests[last]) else ZERO
    if last in ("int", "Integral", "Number", "integer", "number", "Real", "IntegerLiteral", "Integer"):
        if isinstance(v, Poly):
            if last in ("int", "Integral", "integer", "Integer"):
                return ONE if v.kind in "ib" else ZERO
            if last == "IntegerLiteral":
                return ONE if const_of(v) is not None else ZERO
            return ONE
        return ZERO
    if last in ("float", "floating", "Float"):
        return ONE if isinstance(v, Poly) and v.kind in "f" else ZERO
    if last in ("complex", "complexfloating", "Complex"):
        if isinstance(v, DType):
            return ONE if v.kind == "c" else ZERO
        return ONE if isinstance(v, Poly) and v.kind == "c" else ZERO
    if last in ("bool", "Boolean"):
        return ONE if isinstance(v, Poly) and v.kind == "b" else ZERO
    return of(atom("isinstance", (I.termify(v), last), "b"))


# ---------------------------------------------------------------- attributes / items / methods
def attr(I, o, name, node):
    if isinstance(o, OList):
        n = len(I.iterate(o))
        if name == "shape":
            return (num(n),)
        if name == "size":
            return num(n)
        if name == "ndim":
            return ONE
        if name == "dtype":
            return DType(["object"])
    if isinstance(o, Poly) and name in STRONLY and const_of(o) is not None:
        raise InterpRaise("AttributeError", "number has no attribute %s at %s" % (name, I.where(node)))
    if o is None and name in STRONLY:
        raise InterpRaise("AttributeError", "None has no attribute %s at %s" % (name, I.where(node)))
    if hasattr(o, "sa_attr"):
        return o.sa_attr(I, name, node)
    if isinstance(o, LList) and name == "dtype":        # the type of a (typed, homogeneous) list
        its = I.iterate(o)
        if its:
            return its[0]
    if isinstance(o, (Arr, View)):
        if name == "shape":
            return tuple(o.shape)
        if name == "ndim":
            return num(o.ndim)
        if name == "dtype":
            return o.dtype
        if name == "size":
            r = ONE
            for s in o.shape:
                r = mul(r, s)
            return r
        if name == "T":
            return transpose(I, o)
        if name == "flat":          # read only
            return np_call(I, "ravel", [o], {}, node)
        if name in ("real", "imag"):
            if o.dtype is not None and o.dtype.kind == "c":
                p = Part("part", o.shape, DType(["real(%r)" % o.dtype], "f"), "part")
                p.whole, p.part = o, name
                I.heap[p.id] = Content(("dynpart", o, name))
                return p
            return np_call(I, name, [o], {}, node)
        return Method(o, name)
    if isinstance(o, DType):
        if name in ("type", "name", "dtype", "underlying_float"):
            if name == "underlying_float":
                return DType(["real(%r)" % o], "f")
            return o
        if name == "kind":
            return o.kind
        return of(atom("attr", ("dt:" + repr(o), name), "?"))
    if isinstance(o, Poly):
        if not objlike(o):
            if name == "real":
                return T.real(o)
            if name == "imag":
                return T.imag(o)
            if name == "dtype":
                return DType(["scalar"], o.kind)
            if name == "literal_value" and const_of(o) is not None:
                return o
        if name in ("conj", "conjugate", "copy", "astype", "sum", "min", "max", "mean"):
            return Method(o, name)
        return of(atom("attr", (o, name), "?"))
    if isinstance(o, (str, LList, LDict, tuple, LSet, Slice, Exc)):
        if isinstance(o, str) and name == "literal_value":
            return o
        if isinstance(o, Slice) and name in ("start", "stop", "step"):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
        return Method(o, name)
    if isinstance(o, Func):
        return Method(o, name)
    if o is None:
        raise InterpRaise("AttributeError")
    if isinstance(o, (Range, Lazy, Deco)):
        return Method(o, name)
    raise Opaque("attribute %s of %r at %s" % (name, type(o).__name__, I.where(node)))


def item(I, o, ix):
    if hasattr(o, "sa_item"):
        return o.sa_item(I, ix)
    if isinstance(o, str):
        c = const_of(ix[0]) if isinstance(ix[0], Poly) else None
        if c is not None:
            return o[int(c)]
    return of(atom("item", (I.termify(o),) + tuple(I.termify(x) for x in ix), "?"))


def binop_hook(I, op, a, b, node):
    for x, y, sw in ((a, b, False), (b, a, True)):
        if hasattr(x, "sa_binop"):
            return x.sa_binop(I, op, y, sw, node)
    if isinstance(a, DType) or isinstance(b, DType) or isinstance(a, (Ext, Func)) or isinstance(b, (Ext, Func)):
        return of(atom("op:" + op, (I.termify(a), I.termify(b)), "?"))
    if isinstance(a, (LList, tuple)) and isinstance(b, (Arr, View, Poly)):
        x = np_array(I, a)
        return I.binop(op, x, b, node) if isinstance(x, (Arr, View, Poly)) else NotImplemented
    if isinstance(b, (LList, tuple)) and isinstance(a, (Arr, View, Poly)):
        x = np_array(I, b)
        return I.binop(op, a, x, node) if isinstance(x, (Arr, View, Poly)) else NotImplemented
    if isinstance(a, (LList, LDict, Inst, NT, LSet)) or isinstance(b, (LList, LDict, Inst, NT, LSet)):
        return of(atom("op:" + op, (I.termify(a), I.termify(b)), "?"))
    if a is None or b is None:
        raise InterpRaise("TypeError", "arithmetic on None at %s" % I.where(node))
    return NotImplemented


def call_value(I, f, args, kw, node):
    if hasattr(f, "sa_call"):
        return f.sa_call(I, args, kw, node)
    if isinstance(f, Ext):
        return call_ext(I, f.name, args, kw, node)
    if isinstance(f, Deco):
        return apply_decorator(I, f, args[0], node)
    if isinstance(f, DType):
        r = cast(I, f, args[0]) if args else ZERO
        if f.concrete() and isinstance(r, Poly) and const_of(r) is not None:
            return I.lazy_array("scalar", (), f, lambda idx: r)
        return r
    if isinstance(f, Method):
        return method(I, f.obj, f.name, args, kw, node)
    if isinstance(f, Poly):
        # calling an opaque object / bound method of an opaque object
        t = None
        if len(f.terms) == 1 and f.terms[0][1] == 1 and len(f.terms[0][0]) == 1:
            t = f.terms[0][0][0][0]
        if t is not None and t.head == "attr":
            r = mcall(I, t.args[0], t.args[1], args, kw, node)
            if r is not None:
                return r
        I.event("opqcall", f, args, kw, I.where(node))
        return of(atom("mcall", (f,) + tuple(I.termify(a) for a in args) +
                       tuple(("kw", k, I.termify(kw[k])) for k in sorted(kw)), "?"))
    raise Opaque("call of %s at %s" % (type(f).__name__, I.where(node)))


NPMETH = {"sum", "min", "max", "mean", "any", "all", "reshape", "astype", "copy", "conj", "conjugate", "transpose",
          "ravel", "flatten", "squeeze", "prod", "ptp", "dot", "argmax", "argmin", "std", "cumsum", "argsort",
          "round", "clip", "repeat", "swapaxes"}


def mcall(I, obj, name, args, kw, node):
    if name in NPMETH:
        nm = {"conjugate": "conj", "ravel": "ravel"}.get(name, name)
        I.event("extcall", "numpy." + nm, [obj] + list(args), kw, I.where(node))
        if name in ("conj", "conjugate") and isinstance(obj, Poly):
            return T.conj(obj)
        return of(atom("call", ("numpy." + nm, obj) + tuple(I.termify(a) for a in args) +
                       tuple(("kw", k, I.termify(kw[k])) for k in sorted(kw)), "?"))
    return None


def is_template(c):
    return isinstance(c, Cls) and any((isinstance(b, Ext) and b.name == "string.Template") or is_template(b) for b in c.bases)


STRONLY = {n for n in dir(str) if not n.startswith("_") and not hasattr(1, n) and not hasattr(1.0, n)}


def template_method(I, o, name, args, kw, node):
    """string.Template on constants: the library's own parser is the model"""
    body = I.heap.get(o.id, {}).get("template")
    if not isinstance(body, str) or args or not all(isinstance(v, str) for v in kw.values()):
        raise Opaque("string template on unknown text")
    ns = {}
    for k in ("pattern", "delimiter", "idpattern", "braceidpattern"):
        v = I.cls_lookup(o.cls, k)
        if isinstance(v, str):
            ns[k] = v
        elif v is not UNDEF:
            raise Opaque("template class attribute %s" % k)
    try:
        t = type("T", (string.Template,), ns)(body)
        return getattr(t, name)(**kw)
    except KeyError:
        raise InterpRaise("KeyError")
    except ValueError:
        raise InterpRaise("ValueError")


def method(I, o, name, args, kw, node):
    if isinstance(o, Inst) and name in ("substitute", "safe_substitute") and is_template(o.cls):
        return template_method(I, o, name, args, kw, node)
    if isinstance(o, Poly) and name in STRONLY and const_of(o) is not None:
        raise InterpRaise("AttributeError", "number has no attribute %s at %s" % (name, I.where(node)))
    if hasattr(o, "sa_method"):
        return o.sa_method(I, name, args, kw, node)
    if isinstance(o, Gate):
        return I.merge_val(o.c, method(I, o.a, name, args, kw, node), method(I, o.b, name, args, kw, node))
    if isinstance(o, (Arr, View)):
        if name in ("sum", "min", "max", "mean", "any", "all", "prod", "ptp", "argmax", "argmin", "std", "conj",
                    "conjugate", "copy", "dot", "round", "squeeze"):
            r = np_call(I, name, [o] + list(args), kw, node)
            return r if r is not NotImplemented else generic_call(I, "numpy." + name, [o] + list(args), kw, node)
        if name == "astype":
            d = as_dtype(I, args[0] if args else kw["dtype"])
            if d is not None and d == o.dtype:
                return copy_array(I, o)
            if d is not None and d.kind == "i" and o.dtype.kind != "i":
                return with_dtype(I.elementwise(T.toint, [o]), d)
            if d is not None and d.kind == "b" and o.dtype.kind != "b":
                return with_dtype(I.elementwise(I.truth, [o]), d)
            return copy_array(I, o, d)
        if name == "transpose":
            if not args:
                return transpose(I, o)
            ps = args[0] if len(args) == 1 and not isinstance(args[0], Poly) else args
            return transpose(I, o, tuple(int(const_of(p)) % o.ndim for p in I.iterate(tuple(ps) if isinstance(ps, list) else ps)))
        if name == "fill":
            I.store_all(o, "set", args[0], node)
            return None
        if name in ("sort", "partition", "byteswap") and (name != "byteswap" or args or kw):
            r = np_call(I, name, [o] + list(args), kw, node)
            if not isinstance(r, (Arr, View)) or o.ndim != 1:
                I.store_all(o, "set", of(atom("opq", ("sorted in place", I.where(node)), "f")), node)
            else:
                I.store_all(o, "set", r, node)
            return None
        if name in ("reshape", "ravel", "flatten"):
            return reshape(I, o, args, node, name != "reshape")
        if name == "item":
            return I.topoly(o)
        if name == "view":
            return recast(I, o, as_dtype(I, args[0] if args else kw["dtype"]), node) if args or "dtype" in kw else o
        return generic_call(I, "numpy." + name, [o] + list(args), kw, node)
    if isinstance(o, Poly):
        if name in ("conj", "conjugate"):
            return T.conj(o)
        if name == "copy":
            return o if not objlike(o) else of(atom("call", ("numpy.copy", o), "?"))
        if name == "astype" and not objlike(o):
            return cast(I, as_dtype(I, args[0]), o)
        r = mcall(I, o, name, args, kw, node)
        if r is not None:
            return r
        return of(atom("mcall", (of(atom("attr", (o, name), "?")),) + tuple(I.termify(a) for a in args), "?"))
    if isinstance(o, str):
        return strmethod(I, o, name, args, kw, node)
    if isinstance(o, LList):
        h = I.heap[o.id]
        I.modified.add(o.id) if name in ("append", "extend", "insert", "pop", "remove", "sort", "reverse") else None
        if name == "append":
            I.heap[o.id] = h + (args[0],)
            return None
        if name == "appendleft":
            I.modified.add(o.id)
            I.heap[o.id] = (args[0],) + tuple(h)
            return None
        if name in ("popleft", "pop") and not any(isinstance(x, tuple) and x and x[0] in ("cond", "forseg") for x in h):
            if not h:
                raise InterpRaise("IndexError", "pop from an empty list")
            if name == "popleft":
                I.modified.add(o.id)
                I.heap[o.id] = tuple(h[1:])
                return h[0]
        if name == "extend":
            try:
                I.heap[o.id] = h + tuple(I.iterate(args[0]))
            except Opaque:
                if isinstance(args[0], LList):
                    I.heap[o.id] = h + tuple(I.heap[args[0].id])
                else:
                    raise
            return None
        if name == "insert":
            k = int(const_of(args[0]))
            l = list(h)
            l.insert(k, args[1])
            I.heap[o.id] = tuple(l)
            return None
        if name == "pop":
            l = list(h)
            k = int(const_of(args[0])) if args else -1
            x = l.pop(k)
            I.heap[o.id] = tuple(l)
            return x
        if name == "index":
            for i, x in enumerate(h):
                if I.obj_eq(x, args[0]) is ONE:
                    return num(i)
            if all(isinstance(x, (str, Ext)) for x in h) and isinstance(args[0], (str, Ext)):
                raise InterpRaise("ValueError")
            return generic_call(I, "list.index", [o] + list(args), kw, node)
        if name == "copy":
            return I.mklist(h)
        if name == "count":
            return generic_call(I, "list.count", [o] + list(args), kw, node)
        return generic_call(I, "list." + name, [o] + list(args), kw, node)
    if isinstance(o, LDict):
        h = I.heap[o.id]
        if name == "get":
            k = I.hkey(args[0])
            if k in h:
                v = h[k]
                if isinstance(v, Gate) and v.b is UNDEF:
                    return I.merge_val(v.c, v.a, args[1] if len(args) > 1 else None)
                if isinstance(v, Gate) and v.a is UNDEF:
                    return I.merge_val(lnot(v.c), v.b, args[1] if len(args) > 1 else None)
                return v
            if isinstance(k, Poly):
                return generic_call(I, "dict.get", [o] + list(args), kw, node)
            return args[1] if len(args) > 1 else None
        if name == "items":
            return I.mklist([(I.unkey(k), v) for k, v in h.items()])
        if name == "keys":
            return I.mklist([I.unkey(k) for k in h])
        if name == "values":
            return I.mklist(list(h.values()))
        if name in ("update", "setdefault", "pop"):
            I.modified.add(o.id)
        if name == "update":
            d = dict(h)
            for a in args:
                if isinstance(a, LDict):
                    d.update(I.heap[a.id])
                else:
                    for it in I.iterate(a):
                        k, v = I.iterate(it)
                        d[I.hkey(k)] = v
            d.update(kw)
            I.heap[o.id] = d
            return None
        if name == "pop":
            k = I.hkey(args[0])
            d = dict(h)
            if k in d:
                v = d.pop(k)
                I.heap[o.id] = d
                return v
            if len(args) > 1:
                return args[1]
            raise InterpRaise("KeyError")
        if name == "setdefault":
            k = I.hkey(args[0])
            d = dict(h)
            if k not in d:
                d[k] = args[1]
                I.heap[o.id] = d
            return d[k]
        if name == "copy":
            return I.mkdict(h)
        return generic_call(I, "dict." + name, [o] + list(args), kw, node)
    if isinstance(o, tuple):
        if name == "index":
            for i, x in enumerate(o):
                if I.obj_eq(x, args[0]) is ONE:
                    return num(i)
        return generic_call(I, "tuple." + name, [o] + list(args), kw, node)
    if isinstance(o, NT):
        if name == "_replace":
            vals = list(o.vals)
            for k, v in kw.items():
                vals[o.cls.fields.index(k)] = v
            return NT(o.cls, vals)
        if name == "_asdict":
            return I.mkdict(dict(zip(o.cls.fields, o.vals)))
    if isinstance(o, NTCls) and name == "_make":
        return NT(o, I.iterate(args[0]))
    if isinstance(o, Slice) and name == "indices":
        return generic_call(I, "slice.indices", [o] + list(args), kw, node)
    return generic_call(I, "method." + name, [o] + list(args), kw, node)


def with_dtype(a, d):
    if isinstance(a, Arr):
        a.dtype = d
    return a


def reshape(I, o, args, node, flat=False):
    """reshape in C order: equal leading/trailing dims pass through, the rest by linear index"""
    if flat or not args:
        tot = ONE
        for x in o.shape:
            tot = mul(tot, x)
        shp = [tot]
    else:
        s = args[0] if len(args) == 1 else tuple(args)
        shp = [s] if isinstance(s, Poly) else [I.topoly(x) for x in I.iterate(s)]
    if any(objlike(x) for x in shp):
        return generic_call(I, "numpy.reshape", [o] + list(args), {}, node)
    src = list(o.shape)
    neg1 = [j for j, x in enumerate(shp) if const_of(x) == -1]
    if len(neg1) == 1:
        a, b = list(src), [x for x in shp if const_of(x) != -1]
        for x in list(b):
            if x in a:
                a.remove(x)
                b.remove(x)
        pa = pb = ONE
        for x in a:
            pa = mul(pa, x)
        for x in b:
            pb = mul(pb, x)
        shp[neg1[0]] = pa if pb is ONE else T.floordiv(pa, pb)
    ps = pd = ONE
    for x in src:
        ps = mul(ps, x)
    for x in shp:
        pd = mul(pd, x)
    if const_of(ps) is not None and const_of(pd) is not None and const_of(ps) != const_of(pd):
        raise InterpRaise("ValueError", "cannot reshape at %s" % I.where(node))
    f = I.frozen(o)
    S1 = [j for j, x in enumerate(src) if const_of(x) != 1]
    D1 = [j for j, x in enumerate(shp) if const_of(x) != 1]
    k = 0
    while k < len(S1) and k < len(D1) and src[S1[k]] is shp[D1[k]]:
        k += 1
    t = 0
    while t < len(S1) - k and t < len(D1) - k and src[S1[-1 - t]] is shp[D1[-1 - t]]:
        t += 1
    ms, md = S1[k:len(S1) - t], D1[k:len(D1) - t]

    def rdx(idx):
        out = [ZERO] * len(src)
        for j in range(k):
            out[S1[j]] = idx[D1[j]]
        for j in range(t):
            out[S1[-1 - j]] = idx[D1[-1 - j]]
        if ms:
            lin = ZERO
            for d in md:
                lin = add(mul(lin, shp[d]), idx[d])
            c = const_of(lin)
            for q, d in enumerate(reversed(ms)):
                if q == len(ms) - 1:
                    out[d] = lin
                else:
                    out[d] = T.mod(lin, src[d])
                    lin = T.floordiv(lin, src[d])
        return f(tuple(out))
    return I.lazy_array("reshape", shp, o.dtype, rdx)


def strmethod(I, o, name, args, kw, node):
    if name in ("upper", "lower", "strip", "rstrip", "lstrip", "startswith", "endswith", "split", "replace",
                "title", "count", "find", "isdigit"):
        if all(isinstance(a, str) for a in args) and not kw:
            r = getattr(o, name)(*args)
            if isinstance(r, bool):
                return ONE if r else ZERO
            if isinstance(r, list):
                return I.mklist(r)
            if isinstance(r, int):
                return num(r)
            return r
    if name == "join":
        try:
            its = I.iterate(args[0])
            if all(isinstance(x, str) for x in its):
                return o.join(its)
        except Opaque:
            pass
    if name == "format":
        vals = [x if isinstance(x, str) else (str(const_of(x)) if isinstance(x, Poly) and const_of(x) is not None else None)
                for x in args]
        if all(v is not None for v in vals) and not kw:
            try:
                return o.format(*vals)
            except (ValueError, IndexError, KeyError):
                pass
    return of(atom("call", ("str." + name, o) + tuple(I.termify(a) for a in args) +
                   tuple(("kw", k, I.termify(kw[k])) for k in sorted(kw)), "?"))


def strfmt(I, a, b):
    if isinstance(b, LDict) and all(isinstance(k, str) and isinstance(v, str) for k, v in I.heap[b.id].items()):
        try:
            return a % dict(I.heap[b.id])
        except (TypeError, ValueError):
            raise InterpRaise("TypeError")
        except KeyError:
            raise InterpRaise("KeyError")
    bs = b if isinstance(b, tuple) else (b,)
    vals = []
    for x in bs:
        if isinstance(x, str):
            vals.append(x)
        elif isinstance(x, Poly) and const_of(x) is not None:
            c = const_of(x)
            vals.append(int(c) if c.denominator == 1 else float(c))
        else:
            vals = None
            break
    if vals is not None:
        try:
            return a % tuple(vals)
        except (TypeError, ValueError):
            raise InterpRaise("TypeError")
    return of(atom("fstr", (a,) + tuple(I.termify(x) for x in bs), "?"))


def enter_with(I, v, it, s):
    I.event("enter", v, I.where(s))


def exit_with(I, s):
    I.event("exit", I.where(s))


def with_value(I, v):
    return v
