"""C11: direction cosines follow the documented projection, and converting back recovers the direction."""
from sa.harness import A
from sa.rint import _hash

R = "value-graph equality with the documented projection about the phase centre"
RT = "the composition of both conversions is the identity on the visible hemisphere"
RR = "an error is raised on exactly the documented condition"
C = "africanus.coordinates.coordinates."
P = "specs.coordinates."


def u(V, tag, *ix):
    return _hash(V.seed, tag, ix)[0] % 10007 / 10007. - .5


# directions within 60 degrees of a phase centre anywhere on the sky, the poles included
def sky(V, i, k):
    import math
    a0, d0 = pc(V, 0), pc(V, 1)
    r, t = 1.6 * u(V, "r", i), 6.28 * u(V, "t", i)
    d = math.asin(math.sin(d0) * math.cos(r) + math.cos(d0) * math.sin(r) * math.cos(t))
    a = a0 + math.atan2(math.sin(t) * math.sin(r) * math.cos(d0), math.cos(r) - math.sin(d0) * math.sin(d))
    return a if k == 0 else d


def pc(V, k):
    return 4. * u(V, "a") if k == 0 else 3.1 * u(V, "d")


def run(ck):
    ck.rules = [R, RT, RR]
    p = A("pc", (2,))
    n = 40 if ck.tier == "quick" else 400
    inp = {"pc": pc, "radec": sky, "lm": lambda V, i, k: u(V, "lm", i, k), "lmn": lambda V, i, k: u(V, "lm", i, k)}
    kw = dict(inputs=inp, n=n, dtype=True, raises=True)
    for kind in ("float64", "float32"):
        for f, name, k in (("radec_to_lmn", "radec", 2), ("radec_to_lm", "radec", 2), ("lmn_to_radec", "lmn", 3), ("lm_to_radec", "lm", 2)):
            x = A(name, ("source", k), kind)
            ck.equiv("%s %s" % (f, kind), C + f, P + f, (x, A("pc", (2,), kind)), None, R, **kw)
            ck.equiv("%s %s by keyword" % (f, kind), C + f, P + f, (x,), {"phase_centre": A("pc", (2,), kind)}, R, sargs=(x, A("pc", (2,), kind)), skw={}, **kw)
            ck.equiv("%s %s, no phase centre" % (f, kind), C + f, P + f + "0", (x,), None, R, **kw)
            ck.equiv("%s %s, wrong shape" % (f, kind), C + f, P + "value_error", (A(name, ("source", k + 1 if k == 3 else 4), kind), A("pc", (2,), kind)), None, RR)
    ck.equiv("there and back", P + "there_and_back", P + "unchanged", (A("radec", ("source", 2)), p), None, RT, inputs=inp, n=n, dtype=False)
    ck.equiv("lm of lmn", P + "consistent", C + "radec_to_lm", (A("radec", ("source", 2)), p), None, R, inputs=inp, n=n, dtype=False)
    return ck.finish("both precisions, with and without a phase centre, any number of directions; the round trip over the visible hemisphere about "
                     "phase centres anywhere, poles included", [], 10)
