"""Normal forms for the value graph.

A numeric value is a ``Poly``: a sparse polynomial with rational coefficients
over hash-consed ``Atom``s.  Conditions are polynomials too (0/1 indicator
atoms are idempotent), so gated values, guards and arithmetic share one
canonical form and equality is identity.  No solver and no evaluation of
program inputs is involved.
"""
import hashlib
from fractions import Fraction
from itertools import permutations

REALK = {"b", "i", "f"}
MAX_TERMS = 6000


class TooBig(Exception):
    pass


def _h(s):
    return hashlib.sha1(s.encode()).hexdigest()[:20]


# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("head", "args", "kind", "key", "fv", "heads", "__weakref__")
    table = {}

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.key < o.key


def _akey(a):
    if isinstance(a, (Atom, Poly)):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_akey(x) for x in a) + ")"
    return "%s:%r" % (type(a).__name__, a)


def _collect(args, attr, out):
    for a in args:
        if isinstance(a, (Atom, Poly)):
            out |= getattr(a, attr)
        elif isinstance(a, tuple):
            _collect(a, attr, out)


VARHEADS = {"var", "prev", "prevel", "bv", "rv", "rp", "rm", "rx"}


def atom(head, args=(), kind="?"):
    k = (head, kind, tuple(_akey(a) for a in args))
    a = Atom.table.get(k)
    if a is None:
        a = Atom()
        a.head, a.args, a.kind = head, tuple(args), kind
        a.key = head + "#" + _h(repr(k))
        fv = set()
        _collect(a.args, "fv", fv)
        hs = {head}
        _collect(a.args, "heads", hs)
        Atom.table[k] = a
        if head in VARHEADS:
            fv.add(a)
        elif head == "sum":
            base = a.args[2]
            fv -= {bvar(base + i) for i in range(len(a.args[0]))}
        elif head == "last":
            base = a.args[4]
            fv -= {bvar(base + i) for i in range(len(a.args[0]))}
        elif head in ("rec", "wcount", "asys"):
            fv = {x for x in fv if not (x.head in ("rv", "rp", "rm", "rx") and x.args[0] == a.args[0])}
        elif head == "awcount":
            b = a.args[0].terms[0][0][0][0].args[0]
            fv = {x for x in fv if not (x.head in ("rv", "rp", "rm", "rx") and x.args[0] == b)}
        a.fv = frozenset(fv)
        a.heads = frozenset(hs)
    return a


class Poly:
    __slots__ = ("terms", "key", "fv", "heads", "_kind")
    table = {}

    def __repr__(self):
        return show(self)

    # python operators for convenience
    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(lift(o)))

    def __rsub__(self, o):
        return add(lift(o), neg(self))

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __neg__(self):
        return neg(self)

    @property
    def kind(self):
        if self._kind is None:
            self._kind = _pkind(self)
        return self._kind


def _mk(d):
    """dict mono->coef  => interned Poly"""
    items = sorted(((m, c) for m, c in d.items() if c != 0),
                   key=lambda mc: [(a.key, e) for a, e in mc[0]])
    if len(items) > MAX_TERMS:
        raise TooBig("polynomial with %d terms" % len(items))
    ks = ";".join(
        "%s*%s" % (c, ",".join("%s^%s" % (a.key, e) for a, e in m))
        for m, c in items)
    key = "P" + _h(ks)
    p = Poly.table.get(key)
    if p is None:
        p = Poly()
        p.terms = tuple(items)
        p.key = key
        fv = set()
        hs = set()
        for m, _ in items:
            for a, _e in m:
                fv |= a.fv
                hs |= a.heads
        p.fv = frozenset(fv)
        p.heads = frozenset(hs)
        p._kind = None
        Poly.table[key] = p
    return p


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, complex):
        return add(num(v.real), mul(num(v.imag), I))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return of(atom("const:" + repr(v), (), "f"))
        v = Fraction(repr(v))
    v = Fraction(v)
    return _mk({(): v})


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return of(x)
    return num(x)


def of(a, e=1):
    return _mk({((a, Fraction(e)),): Fraction(1)})


def const_of(p):
    """Fraction if p is a rational constant else None"""
    if not p.terms:
        return Fraction(0)
    if len(p.terms) == 1 and p.terms[0][0] == ():
        return p.terms[0][1]
    return None


_I = atom("I", (), "c")


def add(a, b):
    d = dict(a.terms)
    for m, c in b.terms:
        d[m] = d.get(m, 0) + c
    return _mk(d)


def neg(a):
    return _mk({m: -c for m, c in a.terms})


def scale(a, q):
    return _mk({m: c * q for m, c in a.terms})


_mulcache = {}


def mul(a, b):
    if a.key > b.key:
        a, b = b, a
    ck = (a, b)
    r = _mulcache.get(ck)
    if r is not None:
        return r
    if len(a.terms) * len(b.terms) > 4 * MAX_TERMS * 10:
        raise TooBig("product")
    d = {}
    extra = []
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            r = _mono_mul(m1, m2)
            if r is None:
                continue
            m, c, polys = r
            c = c * c1 * c2
            if polys:
                p = _mk({m: c})
                for q in polys:
                    p = mul(p, q)
                extra.append(p)
            else:
                d[m] = d.get(m, 0) + c
    r = _mk(d)
    for p in extra:
        r = add(r, p)
    _mulcache[ck] = r
    return r


def _mono_mul(m1, m2):
    if not m1:
        return m2, Fraction(1), ()
    if not m2:
        return m1, Fraction(1), ()
    d = dict(m1)
    touched = []
    for a, e in m2:
        if a in d:
            touched.append(a)
            d[a] = d[a] + e
        else:
            d[a] = e
    c = Fraction(1)
    polys = []
    for a in touched:
        e = d[a]
        if e == 0:
            del d[a]
            continue
        if a is _I:
            q = int(e) % 4
            del d[a]
            if q == 1:
                d[a] = Fraction(1)
            elif q == 2:
                c = -c
            elif q == 3:
                d[a] = Fraction(1)
                c = -c
        elif a.kind == "b":
            d[a] = Fraction(1)
        elif a.head == "sin" and e >= 2 and e.denominator == 1:
            n = int(e) // 2
            cs = of(atom("cos", a.args, a.kind), 2)
            base = add(num(1), neg(cs))
            for _ in range(n):
                polys.append(base)
            if int(e) % 2:
                d[a] = Fraction(1)
            else:
                del d[a]
        elif a.head == "poly" and e > 0 and e.denominator == 1:
            del d[a]
            polys.append(ipow(a.args[0], int(e)))
        elif a.head == "num" and abs(e) >= 1:
            n = a.args[0]
            w = int(e)  # trunc to zero
            d[a] = e - w
            c = c * Fraction(n) ** w
            if d[a] == 0:
                del d[a]
        elif a.head == "abs" and e >= 2 and e.denominator == 1:
            n = int(e) // 2
            polys.append(ipow(a.args[0], 2 * n))
            if int(e) % 2:
                d[a] = Fraction(1)
            else:
                del d[a]
    # contradiction:  lt(P)*eq(P) == 0
    lts = {a.args[0].key for a in d if a.head == "lt"}
    if lts:
        for a in d:
            if a.head == "eq" and a.args[0].key in lts:
                return None
    for a in d:
        # a * [a == 0] == 0
        if a.head == "eq":
            p = a.args[0]
            if len(p.terms) == 1 and len(p.terms[0][0]) == 1:
                b, eb = p.terms[0][0][0]
                if eb == 1 and d.get(b, 0) > 0:
                    return None
    # string/object equality exclusivity
    oe = {}
    for a in d:
        if a.head == "oeq":
            k = _akey(a.args[0])
            if k in oe and oe[k] != _akey(a.args[1]):
                return None
            oe[k] = _akey(a.args[1])
    return tuple(sorted(d.items(), key=lambda t: t[0].key)), c, polys


def ipow(p, n):
    r = num(1)
    for _ in range(n):
        r = mul(r, p)
    return r


ZERO = num(0)
ONE = num(1)
I = of(_I)
PI = of(atom("pi", (), "f"))
E_ = of(atom("e", (), "f"))


def _pkind(p):
    k = "b" if p is ZERO or p is ONE else "i"
    isb = True
    tot = []
    for m, c in p.terms:
        if c.denominator != 1 and k == "i":
            k = "f"
        for a, e in m:
            ak = a.kind
            if a is _I or ak == "c":
                k = "c" if k != "?" else k
            elif ak == "?":
                k = "?"
            elif ak == "f" or e.denominator != 1 or e < 0:
                if k == "i":
                    k = "f"
    if k == "i" and p.terms and all(
            a.kind == "b" for m, _ in p.terms for a, _e in m):
        if len(p.terms) == 1 and p.terms[0][1] == 1 and p.terms[0][0]:
            k = "b"
        elif mul(p, p) is p:
            k = "b"
    return k


def is_bool(p):
    return p.kind == "b"


# --------------------------------------------------------------------------
# indicator hoisting
def bool_atoms(p):
    s = set()
    for m, _ in p.terms:
        for a, _e in m:
            if a.kind == "b":
                s.add(a)
    return s


def cofactor(p, b, val):
    d = {}
    for m, c in p.terms:
        has = any(a is b for a, _ in m)
        if has:
            if not val:
                continue
            m = tuple(t for t in m if t[0] is not b)
        d[m] = d.get(m, 0) + c
    return _mk(d)


def hoist(f, *ps):
    """f over polys; splits on top level indicator atoms"""
    for p in ps:
        bs = bool_atoms(p)
        if bs:
            if len(bs) > 10:
                return f(*ps)
            b = min(bs)
            t = hoist(f, *[cofactor(q, b, 1) for q in ps])
            e = hoist(f, *[cofactor(q, b, 0) for q in ps])
            return sel(of(b), t, e)
    return f(*ps)


def sel(c, t, e):
    if t is e:
        return t
    return add(mul(c, t), mul(add(ONE, neg(c)), e))


def land(a, b):
    return mul(a, b)


def lor(a, b):
    return add(add(a, b), neg(mul(a, b)))


def lnot(a):
    return add(ONE, neg(a))


# --------------------------------------------------------------------------
def lead(p):
    return p.terms[-1][1] if p.terms else Fraction(0)


def _orient(p):
    """(sign, canonical p) """
    # leading = term with the largest key, excluding the constant if possible
    ts = [t for t in p.terms if t[0]] or list(p.terms)
    c = ts[-1][1]
    return (-1, neg(p)) if c < 0 else (1, p)


def _positive_normalise(p):
    """divide by positive rational so that leading |coef| is 1 (reals)"""
    ts = [t for t in p.terms if t[0]] or list(p.terms)
    c = abs(ts[-1][1])
    return scale(p, 1 / c) if c != 1 else p


def _sign_known(p):
    """'+' if p > 0 for sure, '0+' if >= 0, '-' ... else None"""
    c = const_of(p)
    if c is not None:
        return "+" if c > 0 else ("0" if c == 0 else "-")
    pos = True
    strict = False
    for m, cf in p.terms:
        if cf < 0:
            pos = False
            break
        if not m:
            strict = True
            continue
        for a, e in m:
            if not nonneg_atom(a) and not (e.denominator == 1 and e % 2 == 0 and a.kind in REALK):
                pos = False
                break
        if not pos:
            break
    if pos:
        return "+" if strict else "0+"
    return None


def nonneg_atom(a):
    return (a.kind == "b" or a.head in ("dim", "pi", "e", "num", "abs", "exp", "xvar", "yvar", "zvar", "len", "wcount", "awcount", "argsort", "nth", "uqi", "uqn", "llen")
            or (a.head == "var" and len(a.args) > 1 and a.args[1] == "nn")
            or (a.head == "sum" and all(
                nonneg_atom(b) for m, c in a.args[1].terms for b, _ in m)
                and all(c > 0 for _, c in a.args[1].terms)))


def lt0(p):
    """indicator of p < 0"""
    return hoist(_lt0, p)


def _lt0(p):
    c = const_of(p)
    if c is not None:
        return ONE if c < 0 else ZERO
    s = _sign_known(p)
    if s in ("+", "0+"):
        return ZERO
    s = _sign_known(neg(p))
    if s == "+":
        return ONE
    integer = p.kind in ("i", "b")
    sg, q = _orient(p)
    if integer:
        if sg > 0:
            return of(atom("lt", (q,), "b"))
        # p<0 <=> q>0 <=> not(q-1<0)
        return lnot(of(atom("lt", (add(q, num(-1)),), "b")))
    q = _positive_normalise(q)
    l = of(atom("lt", (q,), "b"))
    if sg > 0:
        return l
    return add(add(ONE, neg(l)), neg(of(atom("eq", (q,), "b"))))


def eq0(p):
    return hoist(_eq0, p)


def _eq0(p):
    c = const_of(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    if _sign_known(p) == "+" or _sign_known(neg(p)) == "+":
        return ZERO
    sg, q = _orient(p)
    q = _positive_normalise(q)
    return of(atom("eq", (q,), "b"))


def cmp(op, a, b):
    p = add(a, neg(b))
    integer = p.kind in ("i", "b")
    if op == "<":
        return lt0(p)
    if op == ">":
        return lt0(neg(p))
    if op == "<=":
        if integer:
            return lt0(add(p, num(-1)))
        return lnot(lt0(neg(p)))
    if op == ">=":
        return cmp("<=", b, a)
    if op == "==":
        if a.kind == "b" and b.kind == "b":
            return add(mul(a, b), mul(lnot(a), lnot(b)))
        return eq0(p)
    if op == "!=":
        return lnot(cmp("==", a, b))
    raise ValueError(op)


# --------------------------------------------------------------------------
# scalar functions
def conj(p):
    out = ZERO
    for m, c in p.terms:
        t = num(c)
        for a, e in m:
            t = mul(t, _conj_atom(a, e))
        out = add(out, t)
    return out


def _conj_atom(a, e):
    if a is _I:
        return neg(I) if e == 1 else of(a, e)
    if a.kind in REALK:
        return of(a, e)
    if a.head == "conj":
        return of(a.args[0], e)
    if a.head == "poly":
        return power(conj(a.args[0]), num(e))
    if a.head == "sum":
        return ipow(rebuild_sum(a.args[0], conj(a.args[1]), a.args[2]), int(e)) if e.denominator == 1 and e > 0 \
            else of(atom("conj", (a,), a.kind), e)
    return of(atom("conj", (a,), a.kind), e)


def real(p):
    if p.kind in REALK:
        return p
    return scale(add(p, conj(p)), Fraction(1, 2))


def imag(p):
    if p.kind in REALK:
        return ZERO
    return mul(scale(add(p, neg(conj(p))), Fraction(-1, 2)), I)


def inv(p):
    return hoist(_inv, p)


def _inv(p):
    if not p.terms:
        return of(atom("const:inf", (), "f"))
    if len(p.terms) == 1:
        m, c = p.terms[0]
        r = num(1 / c)
        for a, e in m:
            if a is _I:
                r = mul(r, neg(I))
            elif a.head == "poly" and -e > 0 and e.denominator == 1:
                r = mul(r, ipow(a.args[0], int(-e)))
            else:
                r = mul(r, of(a, -e))
        return r
    ts = [t for t in p.terms]
    c = ts[-1][1]
    q = scale(p, 1 / c)
    return scale(of(atom("poly", (q,), q.kind if q.kind != "i" else "f"), -1), 1 / c)


def _squarefree(n):
    """n = s*s*r"""
    s, r = 1, n
    f = 2
    while f * f <= r and f < 1000:
        while r % (f * f) == 0:
            r //= f * f
            s *= f
        f += 1
    return s, r


def power(p, e):
    return hoist(_power, p, e)


def _power(p, e):
    ec = const_of(e)
    if ec is None:
        pc = const_of(p)
        if pc == 1:
            return ONE
        return of(atom("pow", (p, e), "f" if p.kind in REALK and e.kind in REALK else "?"))
    if ec == 0:
        return ONE
    if ec.denominator == 1:
        n = int(ec)
        if 0 < n <= 8:
            return ipow(p, n)
        if -8 <= n < 0:
            return ipow(inv(p), -n)
    if ec == Fraction(1, 2) or ec == Fraction(-1, 2):
        r = _sqrt(p)
        return r if ec > 0 else inv(r)
    return of(atom("pow", (p, e), "f" if p.kind in REALK else "?"))


def _sqrt(p):
    if not p.terms:
        return ZERO
    if p is ONE:
        return ONE
    c = const_of(p)
    if c is not None and c > 0:
        s, r = _squarefree(c.numerator * c.denominator)
        out = num(Fraction(s, c.denominator))
        if r != 1:
            out = mul(out, of(atom("num", (r,), "f"), Fraction(1, 2)))
        return out
    cf = abs(p.terms[-1][1])
    q = scale(p, 1 / cf)
    base = _sqrt(num(cf))
    # pull positive constants such as pi, log(2) out of monomials
    if len(q.terms) == 1:
        m, c1 = q.terms[0]
        rest = num(c1)
        out = base
        for a, e in m:
            if a.head in ("pi", "e") or (a.head == "log" and const_of(a.args[0]) is not None
                                         and const_of(a.args[0]) > 1) or a.head in ("dim",):
                out = mul(out, of(a, e / 2))
            elif a.head == "poly" and e.denominator == 2 or (e.denominator == 1 and False):
                rest = mul(rest, of(a, e))
            else:
                rest = mul(rest, of(a, e))
        if rest is ONE:
            return out
        k = "f" if rest.kind in REALK else rest.kind
        return mul(out, of(atom("poly", (rest,), k), Fraction(1, 2)))
    k = "f" if q.kind in REALK else q.kind
    return mul(base, of(atom("poly", (q,), k), Fraction(1, 2)))


def sqrt(p):
    return hoist(_sqrt, p)


def cos(p):
    return hoist(_cos, p)


def _pi_multiple(p):
    if not p.terms:
        return Fraction(0)
    if len(p.terms) == 1 and len(p.terms[0][0]) == 1:
        (a, e), = p.terms[0][0]
        if a.head == "pi" and e == 1:
            return p.terms[0][1]
    return None


def _cos(p):
    q = _pi_multiple(p)
    if q is not None:
        t = {0: 1, Fraction(1, 2): 0, 1: -1, Fraction(3, 2): 0}.get(q % 2)
        if t is not None:
            return num(t)
    if p.kind not in REALK and p.kind != "?":
        return of(atom("cos", (p,), "c"))
    _, q = _orient(p)
    return of(atom("cos", (q,), "f" if p.kind in REALK else "?"))


def sin(p):
    return hoist(_sin, p)


def _sin(p):
    q = _pi_multiple(p)
    if q is not None:
        t = {0: 0, Fraction(1, 2): 1, 1: 0, Fraction(3, 2): -1}.get(q % 2)
        if t is not None:
            return num(t)
    sg, q = _orient(p)
    r = of(atom("sin", (q,), "f" if p.kind in REALK else "?"))
    return r if sg > 0 else neg(r)


def exp(p):
    return hoist(_exp, p)


def _exp(p):
    if not p.terms:
        return ONE
    if p.kind in REALK:
        return of(atom("exp", (p,), "f"))
    if p.kind == "?":
        return of(atom("exp", (p,), "?"))
    re, im = real(p), imag(p)
    r = ONE
    if re.terms:
        r = of(atom("exp", (re,), "f"))
    return mul(r, add(_cos(im), mul(I, _sin(im))))


def absv(p):
    return hoist(_abs, p)


def _abs(p):
    c = const_of(p)
    if c is not None:
        return num(abs(c))
    if p.kind in REALK:
        if _sign_known(p) in ("+", "0+"):
            return p
        if len(p.terms) == 1:
            cf = abs(p.terms[0][1])
            _, q = _orient(p)
            q = scale(q, 1 / cf)
            return scale(of(atom("abs", (q,), q.kind)), cf)
        _, q = _orient(p)
        return of(atom("abs", (q,), q.kind))
    if p.kind == "c":
        return _sqrt(mul(p, conj(p)))
    return of(atom("abs", (p,), "f"))


def log(p):
    return hoist(_log, p)


def _log(p):
    if p is ONE:
        return ZERO
    c = const_of(p)
    if c is not None and c > 0 and c.denominator == 1:
        # log(8) = 3 log 2
        n = int(c)
        for b in (2, 3, 5, 7, 10):
            k, m = 0, n
            while m % b == 0:
                m //= b
                k += 1
            if m == 1 and k > 1:
                return scale(of(atom("log", (num(b),), "f")), k)
    return of(atom("log", (p,), "f" if p.kind in REALK else "?"))


def fn1(head, kind=None):
    def _f(p):
        return of(atom(head, (p,), kind or ("f" if p.kind in REALK else "?")))

    def f(p):
        return hoist(_f, p)
    return f


def floor_(p):
    def _f(p):
        if p.kind in ("i", "b"):
            return p
        c = const_of(p)
        if c is not None:
            return num(c.numerator // c.denominator)
        # integer offset pulled out
        k = Fraction(0)
        for m, cf in p.terms:
            if m == ():
                k = Fraction(cf.numerator // cf.denominator)
        q = add(p, num(-k))
        return add(of(atom("floor", (q,), "i")), num(k))
    return hoist(_f, p)


def floordiv(a, b):
    def _f(a, b):
        ca, cb = const_of(a), const_of(b)
        if cb == 1 and a.kind in ("i", "b"):
            return a
        if ca is not None and cb:
            return num((ca / cb).numerator // (ca / cb).denominator)
        if a.kind in ("i", "b") and b.kind in ("i", "b"):
            if cb:
                # exact division of all coefs
                if all((c / cb).denominator == 1 for _, c in a.terms):
                    return scale(a, 1 / cb)
            return of(atom("fdiv", (a, b), "i"))
        return floor_(mul(a, inv(b)))
    return hoist(_f, a, b)


def mod(a, b):
    def _f(a, b):
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb:
            return num(ca % cb)
        if a.kind in ("i", "b") and b.kind in ("i", "b"):
            return add(a, neg(mul(b, floordiv(a, b))))
        return of(atom("mod", (a, b), "f"))
    return hoist(_f, a, b)


def toint(p):
    """truncation towards zero of a real"""
    def _f(p):
        if p.kind in ("i", "b"):
            return p
        c = const_of(p)
        if c is not None:
            return num(int(c))
        return of(atom("trunc", (p,), "i"))
    return hoist(_f, p)


def rnd(p):
    def _f(p):
        if p.kind in ("i", "b"):
            return p
        c = const_of(p)
        if c is not None:
            return num(round(c))
        return of(atom("round", (p,), "i"))
    return hoist(_f, p)


def maxv(a, b):
    return sel(cmp("<", a, b), b, a)


def minv(a, b):
    return sel(cmp("<", b, a), b, a)


def elem(name, idx, kind):
    """element of an input array"""
    def f(*ix):
        return of(atom("el", (name,) + tuple(ix), kind))
    if not idx:
        return of(atom("el", (name,), kind))
    return hoist(f, *idx)


def opaque(tag, *args):
    return of(atom("opq", (tag,) + tuple(args), "?"))


# --------------------------------------------------------------------------
_ctr = [0]


def fresh(tag="v", nn=True):
    _ctr[0] += 1
    return atom("var", (_ctr[0], "nn" if nn else "any", tag), "i")


def bvar(n):
    return atom("bv", (n,), "i")


# bound variables must look non negative only if lo >= 0
def mk_sum(var, lo, hi, body):
    """sum of body for lo <= var < hi  (var an Atom)"""
    cl, ch = const_of(lo), const_of(hi)
    if cl is not None and ch is not None:
        if ch - cl <= 0:
            return ZERO
        if ch - cl <= 8:
            r = ZERO
            for k in range(int(cl), int(ch)):
                r = add(r, subst(body, {var: num(k)}))
            return r
    out = ZERO
    groups = {}
    for m, c in body.terms:
        indep = tuple(t for t in m if var not in t[0].fv)
        dep = tuple(t for t in m if var in t[0].fv)
        if not dep:
            out = add(out, mul(_mk({indep: c}), add(hi, neg(lo))))
            continue
        groups.setdefault(dep, []).append((indep, c))
    for dep, lst in groups.items():
        coef = _mk(_acc(lst))
        out = add(out, mul(coef, _sum_dep(var, lo, hi, dep)))
    return out


def _acc(lst):
    d = {}
    for m, c in lst:
        d[m] = d.get(m, 0) + c
    return d


def _sum_dep(var, lo, hi, dep):
    # flatten a nested sum factor
    quants = [(var, lo, hi)]
    rest = []
    for a, e in dep:
        if a.head == "sum" and e == 1:
            m = {}
            inner = []
            for k, (l, h) in enumerate(a.args[0]):
                nv = fresh("s")
                inner.append((bvar(a.args[2] + k), nv))
            mp = {bv: of(nv) for bv, nv in inner}
            for (bv, nv), (l, h) in zip(inner, a.args[0]):
                quants.append((nv, subst(l, mp), subst(h, mp)))
            body = subst(a.args[1], mp)
            # body is a single monomial by construction
            rest.append(body)
        else:
            rest.append(of(a, e))
    body = ONE
    for r in rest:
        body = mul(body, r)
    return _canon_sum(quants, body)


def _canon_sum(quants, body):
    if len(body.terms) != 1:
        # products of reduced monomials produced several terms
        r = ZERO
        for m, c in body.terms:
            r = add(r, scale(_canon_sum_q(quants, m), c))
        return r
    m, c = body.terms[0]
    return scale(_canon_sum_q(quants, m), c)


def _canon_sum_q(quants, mono):
    qs = list(quants)
    # drop quantifiers the monomial and ranges no longer depend on
    factor = ONE
    allfv = set()
    for a, _ in mono:
        allfv |= a.fv
    keep = []
    for (v, l, h) in qs:
        used = v in allfv or any(v in l2.fv or v in h2.fv for _, l2, h2 in qs)
        if used:
            keep.append((v, l, h))
        else:
            factor = mul(factor, add(h, neg(l)))
    qs = keep
    # pull out factors not depending on any quantifier
    vs = {v for v, _, _ in qs}
    ind = [(a, e) for a, e in mono if not (a.fv & vs)]
    dep = [(a, e) for a, e in mono if a.fv & vs]
    for a, e in ind:
        factor = mul(factor, of(a, e))
    if not dep:
        if not qs:
            return factor
        # dependent ranges only: fall through with body 1
    body = _mk({tuple(sorted(dep, key=lambda t: t[0].key)): Fraction(1)})
    # delta elimination: [q - e == 0] with unit coefficient of q
    for a, e_ in dep:
        if a.head == "eq":
            p = a.args[0]
            for (v, l, h) in qs:
                co = None
                for m, c in p.terms:
                    if any(x is v for x, _ in m):
                        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                            co = c
                        else:
                            co = None
                            break
                if co is not None:
                    rest = add(p, scale(of(v), -co))
                    if v in rest.fv:
                        continue
                    sol = scale(rest, -1 / co)
                    if any(v in l2.fv or v in h2.fv for v2, l2, h2 in qs if v2 is not v):
                        continue
                    nb = subst(cofactor(body, a, 1), {v: sol})
                    g = in_range(sol, l, h)
                    nq = [(v2, l2, h2) for v2, l2, h2 in qs if v2 is not v]
                    nb = mul(nb, g)
                    if nq:
                        r = ZERO
                        for m, c in nb.terms:
                            r = add(r, scale(_canon_sum_q(nq, m), c))
                    else:
                        r = nb
                    return mul(factor, r)
    best = None
    base = _height(body)
    for _, l, h in qs:
        base = max(base, _height(l), _height(h))
    n = len(qs)
    perms = permutations(range(n)) if n <= 4 else [tuple(range(n))]
    for pm in perms:
        order = [qs[i] for i in pm]
        # range dependencies must refer to earlier binders
        seen = set()
        ok = True
        for v, l, h in order:
            if ((l.fv | h.fv) & vs) - seen:
                ok = False
                break
            seen.add(v)
        if not ok:
            continue
        mp = {v: of(bvar(base + i)) for i, (v, _, _) in enumerate(order)}
        b = subst(body, mp)
        rg = tuple((subst(l, mp), subst(h, mp)) for _, l, h in order)
        k = (_akey(rg), b.key)
        if best is None or k < best[0]:
            best = (k, rg, b)
    _, rg, b = best
    return mul(factor, of(atom("sum", (rg, b, base), "i" if b.kind == "b" else b.kind)))


def _height(p, seen=None):
    """1 + largest bound-variable index of sums nested in p"""
    h = 0
    stack = [p]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, (Poly, Atom)) or x in seen:
            continue
        seen.add(x)
        if "sum" not in x.heads and "last" not in x.heads:
            continue
        if isinstance(x, Poly):
            for m, _ in x.terms:
                stack.extend(a for a, _e in m)
        else:
            if x.head == "sum":
                h = max(h, x.args[2] + len(x.args[0]))
            elif x.head == "last":
                h = max(h, x.args[4] + len(x.args[0]))
            stack.extend(x.args)
    return h


def rebuild_sum(rg, body, base):
    nv = [fresh("s") for _ in rg]
    mp = {bvar(base + i): of(v) for i, v in enumerate(nv)}
    b = subst(body, mp)
    for i in reversed(range(len(rg))):
        l, h = rg[i]
        b = mk_sum(nv[i], subst(l, mp), subst(h, mp), b)
    return b


_ranges = {}       # var atom -> (lo, hi)


def set_range(v, lo, hi):
    _ranges[v] = (lo, hi)


def in_range(p, lo, hi):
    """indicator lo <= p < hi, simplified using known variable ranges"""
    if len(p.terms) == 1:
        m, c = p.terms[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in _ranges:
            l, h = _ranges[m[0][0]]
            a = ONE if l is lo else cmp("<=", lo, p)
            b = ONE if h is hi else cmp("<", p, hi)
            return mul(a, b)
    return mul(cmp("<=", lo, p), cmp("<", p, hi))


# --------------------------------------------------------------------------
# substitution (capture free: bound variables are bv atoms, substituted values
# never contain them except through nested binders, which are re-freshened)
REBUILD = {}


def subst(p, mp, _cache=None):
    if not mp:
        return p
    keys = frozenset(mp)
    if not (p.fv & keys):
        return p
    if _cache is None:
        _cache = {}
    r = _cache.get(p)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.terms:
        t = num(c)
        for a, e in m:
            if a.fv & keys:
                q = subst_atom(a, mp, keys, _cache)
                t = mul(t, _rpow(q, e))
            else:
                t = mul(t, of(a, e))
        out = add(out, t)
    _cache[p] = out
    return out


def _rpow(q, e):
    if e.denominator == 1 and e >= 0:
        return ipow(q, int(e))
    if e.denominator == 1:
        return ipow(inv(q), int(-e))
    return power(q, num(e))


def _sargs(args, mp, keys, cache):
    out = []
    for a in args:
        if isinstance(a, Poly):
            out.append(subst(a, mp, cache))
        elif isinstance(a, Atom):
            q = subst_atom(a, mp, keys, cache) if a.fv & keys else of(a)
            out.append(q)
        elif isinstance(a, tuple):
            out.append(tuple(_sargs(a, mp, keys, cache)))
        else:
            out.append(a)
    return out


def subst_atom(a, mp, keys, cache):
    if a in mp:
        return mp[a]
    h = a.head
    if h == "sum":
        rg, body, base = a.args
        nv = [fresh("s") for _ in rg]
        m0 = {bvar(base + i): of(v) for i, v in enumerate(nv)}
        k0 = frozenset(m0)
        inner = {}
        for k, v in mp.items():
            if k.fv & k0 and k not in k0:       # a key that mentions the summation index
                k2 = subst_atom(k, m0, k0, {})
                if len(k2.terms) == 1 and len(k2.terms[0][0]) == 1:
                    inner[k2.terms[0][0][0][0]] = subst(v, m0)
        if inner:
            mp = dict(mp)
            mp.update(inner)
        b = subst(subst(body, m0), mp)
        rs = [(subst(subst(l, m0), mp), subst(subst(hh, m0), mp)) for l, hh in rg]
        for i in reversed(range(len(rg))):
            b = mk_sum(nv[i], rs[i][0], rs[i][1], b)
        return b
    args = _sargs(a.args, mp, keys, cache)
    return rebuild(h, args, a)


def rebuild(h, args, a):
    if h == "el":
        return elem(args[0], args[1:], a.kind)
    if h in ("cos", "sin", "exp", "log"):
        return {"cos": cos, "sin": sin, "exp": exp, "log": log}[h](args[0])
    if h == "abs":
        return absv(args[0])
    if h == "lt":
        return lt0(args[0])
    if h == "eq":
        return eq0(args[0])
    if h == "poly" or h == "let" and len(args[0].terms) < 2:
        return args[0]
    if h == "conj":
        return conj(args[0])
    if h == "pow":
        return power(args[0], args[1])
    if h == "floor":
        return floor_(args[0])
    if h == "trunc":
        return toint(args[0])
    if h == "round":
        return rnd(args[0])
    if h == "fdiv":
        return floordiv(args[0], args[1])
    if h == "mod":
        return mod(args[0], args[1])
    if h in REBUILD:
        return REBUILD[h](args, a)
    polys = [x for x in args if isinstance(x, Poly)]
    return of(atom(h, args, a.kind))


# --------------------------------------------------------------------------
def equal(a, b):
    """equality of rational functions"""
    if a is b:
        return True
    d = add(a, neg(b))
    if not d.terms:
        return True
    # clear polynomial denominators
    for _ in range(6):
        dens = {}
        for m, _c in d.terms:
            for at, e in m:
                if at.head == "poly" and e < 0:
                    k = -e
                    if k.denominator != 1:
                        k = Fraction(k.numerator // k.denominator + 1)
                    dens[at] = max(dens.get(at, 0), k)
        if not dens:
            break
        f = ONE
        for at, k in dens.items():
            f = mul(f, ipow(at.args[0], int(k)))
        try:
            nd = ZERO
            for m, c in d.terms:
                t = num(c)
                left = dict(dens)
                for at, e in m:
                    if at in left and e < 0:
                        k = left.pop(at) + e
                        t = mul(t, power(at.args[0], num(k)) if k.denominator != 1 or k < 0
                                else ipow(at.args[0], int(k)))
                    else:
                        t = mul(t, of(at, e))
                for at, k in left.items():
                    t = mul(t, ipow(at.args[0], int(k)))
                nd = add(nd, t)
        except TooBig:
            return None
        d = nd
        if not d.terms:
            return True
    return False


# --------------------------------------------------------------------------
def show_atom(a, depth=6):
    h = a.head
    if depth <= 0:
        return h + "(..)"
    if h == "el":
        ix = ",".join(show(x, depth - 1) if isinstance(x, Poly) else str(x) for x in a.args[1:])
        return "%s[%s]" % (a.args[0], ix)
    if h == "var":
        return "%s%s" % (a.args[2], a.args[0])
    if h in ("xvar", "yvar"):
        return "%s%s" % (h[0], a.args[0])
    if h == "dim":
        return str(a.args[0])
    if h == "sum":
        return "SUM{%s}(%s)" % (",".join("%s:%s" % (show(l, depth - 1), show(u, depth - 1)) for l, u in a.args[0]),
                                show(a.args[1], depth - 1))
    if h in ("lt", "eq"):
        return "[%s %s 0]" % (show(a.args[0], depth - 1), "<" if h == "lt" else "==")
    if not a.args:
        return h

    def sh(x):
        if isinstance(x, Poly):
            return show(x, depth - 1)
        if isinstance(x, Atom):
            return show_atom(x, depth - 1)
        if isinstance(x, tuple):
            return "(" + ",".join(sh(y) for y in x) + ")"
        return str(x)
    return "%s(%s)" % (h, ", ".join(sh(x) for x in a.args))


def show(p, depth=6, maxterms=12):
    if not p.terms:
        return "0"
    out = []
    for m, c in p.terms[:maxterms]:
        fs = []
        for a, e in m:
            s = show_atom(a, depth)
            fs.append(s if e == 1 else "%s^%s" % (s, e))
        if c == 1 and fs:
            out.append("*".join(fs))
        elif c == -1 and fs:
            out.append("-" + "*".join(fs))
        else:
            out.append("*".join([str(c) if c.denominator < 10 ** 6 else repr(float(c))] + fs))
    s = " + ".join(out)
    if len(p.terms) > maxterms:
        s += " + ...(%d terms)" % (len(p.terms) - maxterms)
    return s
