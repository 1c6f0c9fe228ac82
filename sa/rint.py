"""Random interpretation of value graphs (Gulwani & Necula): decides whether two
normal forms that are not syntactically equal denote different functions.  No
program code is run: only terms of the analysis are evaluated, under a random
assignment to the free symbols (array elements, dimensions, uninterpreted calls)."""
import cmath
import hashlib
import math
import struct

from .terms import Atom, Poly


class Undef(Exception):
    """no value under this valuation (domain error, unbounded loop)"""


class Unknown(Exception):
    """term outside the interpreted vocabulary"""


def _hash(*xs):
    d = hashlib.blake2b(repr(xs).encode(), digest_size=16).digest()
    return struct.unpack("<QQ", d)


def _unit(h):
    return (h >> 11) / float(1 << 53)


def _isint(x):
    return x.imag == 0 and abs(x.real) < 1e15 and x.real == round(x.real)


def _canon(x):
    """hashable rounding of a number"""
    x = complex(x)
    if x.imag == 0:
        return float("%.9g" % x.real) + 0.0
    return (float("%.9g" % x.real) + 0.0, float("%.9g" % x.imag) + 0.0)


def _r(x):
    x = complex(x)
    if abs(x.imag) > 1e-9 * max(1.0, abs(x.real)):
        raise Undef("complex where real expected")
    return x.real


FN = {
    "arctan2": lambda a, b: math.atan2(_r(a), _r(b)),
    "arcsin": lambda a: math.asin(_r(a)), "arccos": lambda a: math.acos(_r(a)),
    "arctan": lambda a: math.atan(_r(a)), "sinh": cmath.sinh, "cosh": cmath.cosh,
    "tanh": cmath.tanh, "log10": lambda a: cmath.log10(a), "log2": lambda a: cmath.log(a) / math.log(2),
    "arcsinh": cmath.asinh, "arccosh": cmath.acosh, "arctanh": cmath.atanh,
    "sinc": lambda x: cmath.sin(cmath.pi * x) / (cmath.pi * x) if abs(x) > 1e-9 else 1.0,
    "cos": cmath.cos, "sin": cmath.sin, "exp": cmath.exp, "log": cmath.log,
    "abs": abs, "conj": lambda z: complex(z).conjugate(),
    "floor": lambda a: math.floor(_r(a)), "ceil": lambda a: math.ceil(_r(a)),
    "trunc": lambda a: int(_r(a)), "round": lambda a: round(_r(a)),
    "fdiv": lambda a, b: _r(a) // _r(b), "mod": lambda a, b: _r(a) % _r(b),
    "bitand": lambda a, b: int(_r(a)) & int(_r(b)), "bitor": lambda a, b: int(_r(a)) | int(_r(b)),
    "bitxor": lambda a, b: int(_r(a)) ^ int(_r(b)),
    "shl": lambda a, b: int(_r(a)) << int(_r(b)), "shr": lambda a, b: int(_r(a)) >> int(_r(b)),
    "invert": lambda a: ~int(_r(a)),
    "max": lambda *a: max(map(_r, a)), "min": lambda *a: min(map(_r, a)),
    "real": lambda z: complex(z).real, "imag": lambda z: complex(z).imag,
}
# heads whose meaning is only "some function of the arguments"
UF = {"call", "attr", "item", "mcall", "in", "is", "isinstance", "isnone", "len", "oeq",
      "truthy", "nonempty", "strcat", "strrep", "fstr", "seqrep", "tupcat", "e", "generator", "num", "inp"}
UNKNOWN = {"opq", "val", "opqarr", "prev", "prevel", "var", "col", "colr"}


def _first(p):
    return p.terms[0][0][0][0] if isinstance(p, Poly) else p


class State:
    """values of one recurrence over scalars and arrays under one valuation"""

    def __init__(self, V, sysa, env):
        from .terms import atom
        self.V, self.env0 = V, env
        self.base, lo, self.ss, self.as_ = sysa.args
        self.lo = int(_r(V.poly(lo, env)))
        self.sc = {}
        self.ar = {}
        self.envs = {}
        self.rv = atom("rv", (self.base,), "i")
        self.rm = atom("rm", (self.base,), "i")
        self.rp = [[atom("rp", (self.base, i), kd) for kd in "bifc?"] for i in range(len(self.ss))]
        self.rx = [atom("rx", (self.base, d), "i") for d in range(6)]

    def scal(self, n):
        if not self.ss:
            return ()
        m = n
        while m not in self.sc and m > self.lo:
            m -= 1
        while True:
            if m not in self.sc:
                if m == self.lo:
                    self.sc[m] = tuple(self.V.poly(i, self.env0) for i, _ in self.ss)
                else:
                    e = self.env(m - 1)
                    self.sc[m] = tuple(self.V.poly(s, e) for _, s in self.ss)
            if m >= n:
                return self.sc[n]
            m += 1

    def env(self, n):
        e = self.envs.get(n)
        if e is None:
            e = dict(self.env0)
            for v, ats in zip(self.scal(n), self.rp):
                for a in ats:
                    e[a] = v
            e[self.rv] = n
            e[self.rm] = (self, n)
            self.envs[n] = e
        return e

    def arr(self, n, j, idx):
        # from the first missing iteration upwards, to keep the recursion shallow
        key = (n, j, idx)
        if key not in self.ar:
            self.V.work += 1
            if self.V.work > 400000:
                raise Undef("too much work")
            e = dict(self.env0 if n <= self.lo else self.env(n - 1))
            for d, i in enumerate(idx):
                e[self.rx[d]] = i
            i0, st = self.as_[j]
            self.ar[key] = self.V.poly(i0 if n <= self.lo else st, e)
        return self.ar[key]


class Valuation:
    def __init__(self, seed, inputs=None, dims=None, positive=None, salt=""):
        self.seed = seed
        self.inputs = inputs or {}
        self.dims = dims or {}
        self.positive = seed % 2 == 0 if positive is None else positive
        self.salt = salt
        self.cache = {}
        self.work = 0
        self.jitter = 0

    def shake(self, x, *key):
        """the same number up to rounding"""
        if not self.jitter or isinstance(x, int) or x == 0:
            return x
        return x * (1 + self.jitter * (1 + _unit(_hash("jitter", *key)[0])))

    # -- leaves
    def leaf(self, kind, *key):
        return self.shake(self._leaf(kind, *key), *key)

    def _leaf(self, kind, *key):
        h1, h2 = _hash(self.seed, kind if kind in "bi" else "f", *key)
        if kind == "b":
            return h1 & 1
        if kind == "i":
            return h1 % 3
        x = 0.25 + 1.5 * _unit(h1)
        if not self.positive and h2 & 1:
            x = -x
        if kind == "f" and any(isinstance(k, str) and "freq" in k for k in key[:2]):
            x *= 2.0 ** 27      # of the order of the speed of light, so that phases are of order one
        if kind == "c":
            y = 0.25 + 1.5 * _unit(h2)
            if h1 & 1:
                y = -y
            return complex(x, y)
        return x

    def dim(self, name):
        if name in self.dims:
            return self.dims[name]
        h, _ = _hash(self.seed, "dim", name)
        return 1 + h % 3

    # -- terms
    def poly(self, p, env=None):
        env = env or {}
        if isinstance(p, Atom):
            return self.atom(p, env)
        # conditions are decided first: what they exclude need not be defined, and what they select may cancel exactly
        d, terms = None, p.terms
        if any(a.kind == "b" for m, _ in terms for a, _e in m):
            d, known = {}, {}
            for m, c in terms:
                rest = []
                for t in m:
                    a = t[0]
                    if a.kind == "b":
                        v = known.get(a)
                        if v is None:
                            try:
                                v = bool(self.atom(a, env))
                            except Undef:
                                v = "?"
                            known[a] = v
                        if v is False:
                            break
                        if v is True:
                            continue
                    rest.append(t)
                else:
                    rest = tuple(rest)
                    d[rest] = d.get(rest, 0) + c
            terms = [(m, c) for m, c in d.items() if c]
        tot = 0
        for m, c in terms:
            rest = m
            t = float(c) if c.denominator != 1 else int(c)
            for a, e in rest:
                x = self.atom(a, env)
                if e == 1:
                    t = t * x
                elif e.denominator == 1:
                    n = int(e)
                    if n < 0:
                        if x == 0 or abs(x) < 1e-12:
                            raise Undef("division by zero")
                        t = t * (1.0 / x) ** (-n)
                    else:
                        t = t * x ** n
                else:
                    if x == 0 and e < 0:
                        raise Undef("division by zero")
                    t = t * complex(x) ** float(e)
            tot = tot + t
        if isinstance(tot, complex) and (tot != tot or abs(tot) > 1e200):
            raise Undef("overflow")
        if isinstance(tot, float) and (tot != tot or abs(tot) > 1e200):
            raise Undef("overflow")
        return tot

    def atom(self, a, env):
        if a in env:
            return env[a]
        if "yvar" in a.heads:
            if a.head not in ("rec", "eq", "lt", "arec") and bound_array(a)[0] is None:
                return self._atom(a, env)
            key = (a,) + tuple((v, env.get(v)) for v in sorted(a.fv)) + tuple(env.get(y) for y in free_y(a))
        elif a.fv:
            key = (a,) + tuple((v, env.get(v)) for v in sorted(a.fv))
        else:
            key = a
        if key in self.cache:
            r = self.cache[key]
            if isinstance(r, Undef):
                raise r
            return r
        self.work += 1
        if self.work > 400000:
            raise Undef("too much work")
        try:
            r = self._atom(a, env)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError) as e:
            r = Undef(str(e))
        except Undef as e:
            r = e
        except RecursionError:
            r = Undef("recursion")
        self.cache[key] = r
        if isinstance(r, Undef):
            raise r
        return r

    def arg(self, x, env):
        if isinstance(x, Poly):
            return _canon(self.poly(x, env))
        if isinstance(x, Atom):
            return _canon(self.atom(x, env))
        if isinstance(x, tuple):
            return tuple(self.arg(y, env) for y in x)
        return x

    def _atom(self, a, env):
        h = a.head
        if h == "el":
            idx = tuple(self.arg(x, env) for x in a.args[1:])
            f = self.inputs.get(a.args[0])
            if f is not None:
                return f(self, *[int(i) if isinstance(i, float) and i == int(i) else i for i in idx])
            return self.leaf(a.kind, "el", a.args[0], idx)
        if h == "dim":
            return self.dim(a.args[0])
        if h in ("xvar", "yvar"):
            n = int(_r(self.poly(a.args[1], env))) if isinstance(a.args[1], Poly) else self.dim(str(a.args[1]))
            if n <= 0:
                raise Undef("empty")
            hh, _ = _hash(self.seed, h, a.args[0])
            return hh % n
        if h == "I":
            return 1j
        if h == "num":
            return a.args[0]
        if h == "pi":
            return math.pi
        if h == "lt":
            x = _r(self.poly(a.args[0], env))
            if abs(x) < 1e-12:
                x = 0
            return 1 if x < 0 else 0
        if h == "eq":
            x = self.poly(a.args[0], env)
            return 1 if abs(x) < 1e-12 else 0
        if h in ("poly", "let"):
            return self.poly(a.args[0], env)
        if h == "pow":
            x, y = self.poly(a.args[0], env), self.poly(a.args[1], env)
            if x == 0:
                raise Undef("0**y")
            if isinstance(x, complex) or x < 0:
                return complex(x) ** y
            return float(x) ** y
        if h == "sum":
            rg, body, base = a.args
            return self._sum(rg, body, base, 0, env)
        if h == "last":
            rg, ind, v, rest, base = a.args
            r = self._last(rg, ind, v, base, 0, env)
            return self.poly(rest, env) if r is None else r[0]
        if h == "rec":
            base, which, lo, upto, steps = a.args
            lo, up = int(_r(self.poly(lo, env))), int(_r(self.poly(upto, env)))
            st = [self.poly(i, env) for i, _ in steps]
            from .terms import atom
            rv = atom("rv", (base,), "i")
            if up - lo > 3000:
                raise Undef("long loop")
            for k in range(lo, up):
                e2 = dict(env)
                for i in range(len(st)):
                    for kd in "bifc?":
                        e2[atom("rp", (base, i), kd)] = st[i]
                e2[rv] = k
                st = [self.poly(s, e2) for _, s in steps]
            return st[which]
        if h == "wcount":
            base, steps, cond = a.args
            from .terms import atom
            rv = atom("rv", (base,), "i")
            st = [self.poly(i, env) for i, _ in steps]
            k = 0
            while True:
                e2 = dict(env)
                for i in range(len(st)):
                    for kd in "bifc?":
                        e2[atom("rp", (base, i), kd)] = st[i]
                e2[rv] = k
                if not self.poly(cond, e2):
                    return k
                st = [self.poly(s, e2) for _, s in steps]
                k += 1
                if k > 3000:
                    raise Undef("unbounded while")
        if h == "ra":
            st, n = env[_first(a.args[2])]
            return st.arr(n, a.args[1], tuple(self.arg(x, env) for x in a.args[3:]))
        if h == "arec":
            st = self.state(_first(a.args[0]), env)
            up = int(_r(self.poly(a.args[3], env)))
            if up - st.lo > 3000:
                raise Undef("long loop")
            up = max(up, st.lo)
            if a.args[1] == "s":
                return st.scal(up)[a.args[2]]
            return st.arr(up, a.args[2], tuple(self.arg(x, env) for x in a.args[4]))
        if h == "awcount":
            st = self.state(_first(a.args[0]), env)
            k = st.lo
            while self.poly(a.args[1], st.env(k)):
                k += 1
                if k - st.lo > 300:
                    raise Undef("unbounded while")
            return k
        if h == "uninit":
            return self.leaf("f", "uninit", self.salt, tuple(self.arg(x, env) for x in a.args))
        if h in UNKNOWN:
            raise Unknown(h)
        if reduction(a):
            ns, tab = self.table(a.args[1], env)
            from itertools import product
            xs = [tab[ix] for ix in product(*map(range, ns))]
            op = a.args[0][6:]
            if op in ("any", "all"):
                return int((any if op == "any" else all)(xs))
            if op == "count_nonzero":
                return sum(1 for x in xs if x)
            if op in ("sum", "prod"):
                t = 0 if op == "sum" else 1
                for x in xs:
                    t = t + x if op == "sum" else t * x
                return t
            if not xs:
                raise Undef("empty")
            if op == "mean":
                return sum(xs) / len(xs)
            xs = [_r(x) for x in xs]
            if op == "ptp":
                return max(xs) - min(xs)
            if op in ("argmax", "argmin"):
                return xs.index((max if op == "argmax" else min)(xs))
            return min(xs) if op == "min" else max(xs)
        if h in ORDERED:
            return self.ordered(a, env)
        if h in ("llen", "lel"):
            xs = self.struct(a.args[0], env)
            if h == "llen":
                return len(xs)
            i = int(_r(self.poly(a.args[1], env)))
            if not -len(xs) <= i < len(xs):
                raise Undef("list index")
            return xs[i]
        if h in FN:
            return FN[h](*[self.poly(x, env) for x in a.args])
        args = tuple(self.arg(x, env) for x in a.args)
        return self.leaf(a.kind if a.kind in "bifc" else "f", h, args)

    def state(self, sysa, env):
        key = (sysa,) + tuple((v, env.get(v)) for v in sorted(sysa.fv))
        if "yvar" in sysa.heads:
            key += tuple(env.get(y) for y in free_y(sysa))
        st = self.cache.get(("state", key))
        if st is None:
            st = self.cache[("state", key)] = State(self, sysa, env)
        return st

    def struct(self, t, env=None):
        """a termified sequence as nested Python values"""
        env = env or {}
        if isinstance(t, Poly):
            if len(t.terms) == 1 and t.terms[0][1] == 1 and len(t.terms[0][0]) == 1 and t.terms[0][0][0][1] == 1:
                a = t.terms[0][0][0][0]
                if a.head == "call" and a.args[0] in ("tuple", "list") and len(a.args) == 2:
                    return self.struct(a.args[1], env)
                if a.head in ("strcat", "fstr") or a.head in UF and a.head not in ("call", "len"):
                    raise Unknown(a.head)
            return self.poly(t, env)
        if isinstance(t, Atom):
            return self.atom(t, env)
        if isinstance(t, tuple) and t and t[0] in ("tup", "list"):
            out = []
            for x in t[1:]:
                if isinstance(x, tuple) and x and x[0] == "cond":
                    if self.poly(x[1], env):
                        out.append(self.struct(x[2], env))
                elif isinstance(x, tuple) and x and x[0] == "forseg":
                    from .terms import bvar
                    _, lo, hi, g, v = x
                    b = bvar(900)
                    for k in range(int(_r(self.poly(lo, env))), int(_r(self.poly(hi, env)))):
                        e2 = dict(env)
                        e2[b] = k
                        if self.poly(g, e2):
                            out.append(self.struct(v, e2))
                else:
                    out.append(self.struct(x, env))
            return tuple(out)
        if isinstance(t, tuple) and t and t[0] == "gate":
            return self.struct(t[2] if self.poly(t[1], env) else t[3], env)
        if isinstance(t, str):
            return t
        raise Unknown("structure %s" % (str(t)[:60],))

    def ordered(self, a, env):
        t = a.args[0]
        dep = tuple(env.get(y) for y in free_y_arr(t)) + tuple((v, env.get(v)) for v in sorted(array_fv(t)))
        how = a.args[1] if a.head == "argsort" else ""
        key = ("ordered", "u" if a.head in ("uqi", "uqn") else a.head, how, t, dep)
        r = self.cache.get(key)
        if r is None:
            ns, tab = self.table(t, env)
            xs = [_r(tab[(i,)]) for i in range(ns[0])]
            if a.head == "nth":
                r = [i for i, x in enumerate(xs) if x]
            elif a.head == "argsort":
                r = sorted(range(len(xs)), key=lambda i: (xs[i], i if how == "stable" else -i))
            else:
                u = sorted(set(xs))
                r = {"idx": [xs.index(x) for x in u], "inv": [u.index(x) for x in xs], "cnt": [xs.count(x) for x in u]}
            self.cache[key] = r
        if a.head == "uqn":
            return len(r["idx"])
        if a.head == "uqi":
            r = r[a.args[1]]
        i = int(_r(self.poly(a.args[-1], env)))
        if not -len(r) <= i < len(r):
            raise Undef("index %d of %d selected" % (i, len(r)))
        return r[i]

    def table(self, t, env):
        """(extents, index -> value) of an array description"""
        from itertools import product
        from .terms import elem, num
        if t[0] == "arr":
            _, name, shape, kind = t
            ns = [int(_r(self.poly(s, env))) for s in shape]
            return ns, {ix: self.poly(elem(name, [num(i) for i in ix], kind), env) for ix in product(*map(range, ns))}
        _, shape, comp = t
        ns = [int(_r(self.poly(s, env))) for s in shape]
        out = {}
        for pat, v in comp:
            rng = []
            for p, n in zip(pat, ns):
                at = p.terms[0][0][0][0] if p.terms and p.terms[0][0] else None
                if at is not None and at.head == "yvar":
                    rng.append([(at, k) for k in range(n)])
                else:
                    rng.append([(None, int(_r(self.poly(p, env))))])
            for ix in product(*rng):
                e2 = dict(env)
                for at, k in ix:
                    if at is not None:
                        e2[at] = k
                out[tuple(k for _, k in ix)] = self.poly(v, e2)
        return ns, out

    def _sum(self, rg, body, base, i, env):
        from .terms import bvar
        if i == len(rg):
            return self.poly(body, env)
        lo, hi = int(_r(self.poly(rg[i][0], env))), int(_r(self.poly(rg[i][1], env)))
        if hi - lo > 3000:
            raise Undef("long sum")
        tot = 0
        b = bvar(base + i)
        for k in range(lo, hi):
            e2 = dict(env)
            e2[b] = k
            tot = tot + self._sum(rg, body, base, i + 1, e2)
        if hi < lo:
            # empty range; sums never run backwards
            return 0
        return tot

    def _last(self, rg, ind, v, base, i, env):
        from .terms import bvar
        if i == len(rg):
            return (self.poly(v, env),) if self.poly(ind, env) else None
        lo, hi = int(_r(self.poly(rg[i][0], env))), int(_r(self.poly(rg[i][1], env)))
        b = bvar(base + i)
        for k in range(hi - 1, lo - 1, -1):
            e2 = dict(env)
            e2[b] = k
            r = self._last(rg, ind, v, base, i + 1, e2)
            if r is not None:
                return r
        return None


_fy = {}


def free_y(x):
    """array comprehension variables free in a term"""
    if isinstance(x, tuple):
        out = set()
        for y in x:
            out |= set(free_y(y))
        return tuple(sorted(out, key=lambda a: repr(a.args[0])))
    if isinstance(x, Poly):
        return free_y(tuple(a for m, _ in x.terms for a, _e in m)) if "yvar" in x.heads else ()
    if not isinstance(x, Atom) or "yvar" not in x.heads:
        return ()
    if x.head == "yvar":
        return (x,)
    if x not in _fy:
        arr, rest = bound_array(x)
        if arr is not None and arr[0] == "arrv":
            out = set(free_y(arr[1])) | set(free_y(tuple(rest)))
            for pat, v in arr[2]:
                out |= set(free_y(v)) - set(free_y(pat))
            r = tuple(sorted(out, key=lambda a: repr(a.args[0])))
        else:
            r = free_y(x.args)
        _fy[x] = r
    return _fy[x]


REDUCE = {"numpy.min", "numpy.max", "numpy.sum", "numpy.prod", "numpy.any", "numpy.all", "numpy.mean", "numpy.ptp",
          "numpy.argmax", "numpy.argmin", "numpy.count_nonzero"}


def array_fv(t):
    out = set()
    stack = [t]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, (Poly, Atom)):
            out |= y.fv
    return out


def free_y_arr(arr):
    if arr[0] != "arrv":
        return free_y(arr)
    out = set(free_y(arr[1]))
    for pat, v in arr[2]:
        out |= set(free_y(v)) - set(free_y(pat))
    return tuple(sorted(out, key=lambda a: repr(a.args[0])))


def reduction(a):
    return a.head == "call" and len(a.args) == 2 and a.args[0] in REDUCE \
        and isinstance(a.args[1], tuple) and a.args[1][0] in ("arr", "arrv")


ORDERED = {"argsort", "nth", "uqi", "uqn"}


def bound_array(a):
    """the array description a term closes over, and its other arguments"""
    if reduction(a):
        return a.args[1], ()
    if a.head in ORDERED:
        return a.args[0], a.args[1:]
    return None, None


def names(x, out=None):
    """names of uninterpreted calls/symbols occurring in a term"""
    out = set() if out is None else out
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
            continue
        if not isinstance(y, (Atom, Poly)) or y in seen:
            continue
        seen.add(y)
        if isinstance(y, Poly):
            for m, _ in y.terms:
                stack.extend(a for a, _e in m)
        else:
            if y.head in UNKNOWN or y.head == "uninit":
                out.add(y.head)
            elif reduction(y):
                pass
            elif y.head in ("call", "mcall", "attr"):
                out.add("%s:%s" % (y.head, y.args[0] if isinstance(y.args[0], str) else
                                   next((z for z in y.args if isinstance(z, str)), "?")))
            elif y.head in UF or y.head == "val" or y.head.startswith(("op:", "setop:")):
                out.add(y.head)
            stack.extend(y.args)
    return out


def close(x, y):
    s = max(1.0, abs(x), abs(y))
    return abs(x - y) <= 1e-6 * s


def sclose(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(sclose(a, b) for a, b in zip(x, y))
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    return close(x, y)


def compare_struct(a, b, n=24, inputs=None, dims=None, dimsets=None, pre=None):
    ok, why = 0, None
    for seed in range(n if pre is None else 3 * n):
        dd = dict(dims or {})
        if dimsets:
            dd.update(dimsets[seed % len(dimsets)])
        try:
            if pre is not None and not Valuation(seed, inputs, dd, salt="B").poly(pre):
                continue
            x = Valuation(seed, inputs, dd, salt="A").struct(a)
            y = Valuation(seed, inputs, dd, salt="B").struct(b)
        except Undef as e:
            why = "undefined: %s" % e
            continue
        except Unknown as e:
            return "unknown", "uninterpreted %s" % e
        if not sclose(x, y):
            return "differ", {"seed": seed, "found": str(x), "expected": str(y)}
        ok += 1
    return ("agree", ok) if ok else ("unknown", why)


def compare(a, b, n=24, inputs=None, dims=None, dimsets=None, assume=(), pre=None):
    """('differ', witness) | ('agree', k) | ('unknown', why)"""
    ok = skipped = 0
    why = None
    for seed in range(n if not assume and pre is None else 3 * n):
        if ok >= n:
            break
        dd = dims
        if dimsets:
            dd = dict(dims or {})
            dd.update(dimsets[seed % len(dimsets)])
        va = Valuation(seed, inputs, dd, salt="A")
        vb = Valuation(seed, inputs, dd, salt="B")
        try:
            if any(bool(va.atom(at, {})) != bool(v) for at, v in assume):
                skipped += 1
                continue
            if pre is not None and not vb.poly(pre):
                skipped += 1
                continue
            x, y = va.poly(a), vb.poly(b)
        except Undef as e:
            if str(e) == "empty":
                skipped += 1
            else:
                why = "undefined: %s" % e
            continue
        except Unknown as e:
            return "unknown", "uninterpreted %s" % e
        if not close(x, y):
            # a problem so ill-conditioned that rounding decides both values says nothing
            wa, wb = Valuation(seed, inputs, dd, salt="A"), Valuation(seed, inputs, dd, salt="B")
            wa.jitter = wb.jitter = 1e-13
            try:
                if not close(wa.poly(a), x) and not close(wb.poly(b), y):
                    skipped += 1
                    continue
            except (Undef, Unknown):
                pass
            return "differ", {"seed": seed, "found": str(x), "expected": str(y)}
        ok += 1
    if ok == 0:
        if why is None and skipped:
            return "agree", "no valuation satisfies this combination of conditions"
        return "unknown", why
    return "agree", ok
