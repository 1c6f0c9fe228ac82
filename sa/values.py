"""Abstract values and the array store used by the value-graph interpreter."""
from . import terms as T
from .terms import Poly, Atom, ZERO, ONE, of, atom, num, add, mul, neg, sel, lnot, cmp


class Opaque(Exception):
    """construct outside the modelled language"""


class InterpRaise(Exception):
    def __init__(self, exc, msg=None):
        Exception.__init__(self, exc)
        self.exc = exc
        self.msg = msg


class Ext:
    """something of an external library, by qualified name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))


def _split(n):
    if n in ("bool", "bool_"):
        return "b", 8
    for k, c in (("uint", "u"), ("int", "i"), ("float", "f"), ("complex", "c")):
        if n.startswith(k) and n[len(k):].isdigit():
            return c, int(n[len(k):])
    return None


def promote(names):
    """numpy's result type of concrete type names; None if one is not concrete"""
    k, bits, un, sg = "b", 0, 0, 0
    fb = cb = 0
    for n in names:
        x = _split(n)
        if x is None:
            return None
        c, b = x
        if c == "u":
            un = max(un, b)
        elif c == "i":
            sg = max(sg, b)
        elif c == "f":
            fb = max(fb, b)
        elif c == "c":
            cb = max(cb, b)
    ib = 0
    if un and sg:
        ib = sg if sg > un else un * 2
        iname = "int%d" % ib if ib <= 64 else "float64"
    elif un:
        ib, iname = un, "uint%d" % un
    elif sg:
        ib, iname = sg, "int%d" % sg
    need = 0 if not ib else 16 if ib == 8 else 32 if ib == 16 else 64
    if cb or fb:
        f = max(fb, cb // 2, need)
        return "complex%d" % (2 * max(f, 32)) if cb else "float%d" % f
    return iname if ib else "bool"


def simp_part(p):
    for w in ("real", "complex"):
        if p.startswith(w + "(") and p.endswith(")"):
            n = p[len(w) + 1:-1]
            x = _split(n)
            if x is None:
                return p
            c, b = x
            if w == "real":
                return "float%d" % (b // 2) if c == "c" else n
            return n if c == "c" else "complex%d" % (2 * max(b, 32)) if c == "f" else "complex128"
    return p


class DType:
    """join of dtype terms (strings such as 'float64' or 'dtype(vis)')"""
    __slots__ = ("parts", "kind")
    KINDS = {"float": "f", "complex": "c", "int": "i", "uint": "i", "bool": "b", "object": "?"}
    ORD = "?bifc"

    def __init__(self, parts, kind=None):
        ps = frozenset(simp_part(p) for p in parts)
        if ps:
            one = promote(ps)
            if one is not None:
                ps, kind = frozenset((one,)), None
        self.parts = ps
        self.kind = kind or self._k()

    def _k(self):
        k = "b"
        for p in self.parts:
            base = p.rstrip("0123456789_")
            x = self.KINDS.get(base, "?")
            if x == "?":
                return "?"
            if "bifc".index(x) > "bifc".index(k):
                k = x
        return k

    def __repr__(self):
        return "|".join(sorted(self.parts))

    def __eq__(self, o):
        return isinstance(o, DType) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)

    def concrete(self):
        if len(self.parts) == 1:
            n = next(iter(self.parts))
            return n if _split(n) else None
        return None

    def with_scalar(self, k):
        """the dtype of an array of this dtype combined with a scalar of kind k"""
        if self.kind == "?" or k not in "ifc" or "bifc".index(k) <= "bifc".index(self.kind):
            return self
        if k == "c":
            return self.join(DType(["complex64"])) if self.kind == "f" else DType(["complex128"])
        return DType(["float64"]) if k == "f" else self.join(DType(["int64"])) if self.kind == "b" else self

    def join(self, o):
        ks = [self.kind, o.kind]
        if "?" in ks:
            k = "?"
        else:
            k = max(ks, key="bifc".index)
        return DType(self.parts | o.parts, k)


class Content:
    __slots__ = ("base", "effects")

    def __init__(self, base, effects=()):
        self.base = base
        self.effects = tuple(effects)


class Effect:
    __slots__ = ("quants", "guard", "idx", "op", "val", "site")

    def __init__(self, quants, guard, idx, op, val, site=None):
        self.quants = tuple(quants)
        self.guard = guard
        self.idx = tuple(idx)
        self.op = op
        self.val = val
        self.site = site

    def map(self, f):
        return Effect([(v, f(l), f(h)) for v, l, h in self.quants], f(self.guard),
                      [f(x) for x in self.idx], self.op, f(self.val), self.site)

    def with_guard(self, g):
        return Effect(self.quants, mul(self.guard, g), self.idx, self.op, self.val, self.site)

    def polys(self):
        yield self.guard
        yield self.val
        for x in self.idx:
            yield x
        for _, l, h in self.quants:
            yield l
            yield h


_ids = [0]


def newid():
    _ids[0] += 1
    return _ids[0]


class Arr:
    """an array object; contents live in the interpreter's heap"""
    __slots__ = ("id", "name", "shape", "dtype", "origin", "site")

    def __init__(self, name, shape, dtype, origin="alloc", site=None):
        self.id = newid()
        self.name = name
        self.shape = tuple(shape)
        self.dtype = dtype
        self.origin = origin
        self.site = site

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return "<Arr %s %s>" % (self.name, (self.shape,))


class Part(Arr):
    """writable real/imaginary part of a complex array"""
    __slots__ = ("whole", "part")


class View:
    """basic-indexing view: per base dim either a fixed Poly or ('ax', start, step);
    axes maps view dim -> base dim or None for newaxis"""
    __slots__ = ("arr", "spec", "axes", "lens")

    def __init__(self, arr, spec, axes, lens):
        self.arr, self.spec, self.axes, self.lens = arr, tuple(spec), tuple(axes), tuple(lens)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return self.lens

    @property
    def dtype(self):
        return self.arr.dtype

    def base_idx(self, idx):
        out = list(self.spec)
        for k, ax in enumerate(self.axes):
            if ax is None:
                continue
            _, start, step = self.spec[ax]
            out[ax] = add(start, mul(step, idx[k]))
        return tuple(out)


class Slice:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class LList:
    __slots__ = ("id",)

    def __init__(self):
        self.id = newid()


class OList(LList):
    """one-dimensional numpy object array"""


class LDict:
    __slots__ = ("id",)

    def __init__(self):
        self.id = newid()


class LSet:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class Func:
    __slots__ = ("node", "env", "module", "name", "flags", "cls", "defaults", "kwdefaults", "attrs", "qual")

    def __init__(self, node, env, module, name, qual=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.flags = set()
        self.cls = None
        self.defaults = ()
        self.kwdefaults = {}
        self.attrs = {}
        self.qual = qual or name

    def __repr__(self):
        return "<Func %s.%s>" % (self.module, self.qual)


class Bound:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Partial:
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, tuple(args), dict(kw)


class Method:
    """bound method of an abstract builtin object"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Cls:
    def __init__(self, node, env, module, name):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.dict = {}
        self.bases = ()

    def __repr__(self):
        return "<Cls %s.%s>" % (self.module, self.name)


class Inst:
    __slots__ = ("cls", "id")

    def __init__(self, cls):
        self.cls = cls
        self.id = newid()


class NTCls:
    def __init__(self, name, fields):
        self.name, self.fields = name, tuple(fields)
        self.attrs = {}


class NT:
    __slots__ = ("cls", "vals")

    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)


class Gate:
    """c ? a : b for values that are not numbers"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Module:
    def __init__(self, name):
        self.name = name
        self.env = {}
        self.tree = None
        self.path = None

    def __repr__(self):
        return "<Module %s>" % self.name


class Exc:
    """exception value"""
    __slots__ = ("name", "args")

    def __init__(self, name, args=()):
        self.name, self.args = name, args


class Undefined:
    def __repr__(self):
        return "<undef>"


UNDEF = Undefined()


class Super:
    """super(cls, obj): attribute lookup after cls in obj's class"""

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj
