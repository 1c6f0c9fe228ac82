"""C10: correlation and Stokes conversions are the documented linear maps, in every layout."""
import itertools
from sa.harness import A, DA, whole
from sa.values import DType

RULE = "value-graph equality with the documented Stokes/correlation relations"
N = "africanus.model.coherency.conversion.convert"
DK = "africanus.model.coherency.dask.convert"
IDS = dict(I=1, Q=2, U=3, V=4, RR=5, RL=6, LR=7, LL=8, XX=9, XY=10, YX=11, YY=12)
ST, LIN, CIRC = ("I", "Q", "U", "V"), ("XX", "XY", "YX", "YY"), ("RR", "RL", "LR", "LL")
NEED = {"I": (("XX", "YY"), ("RR", "LL")), "Q": (("XX", "YY"), ("RL", "LR")), "U": (("XY", "YX"), ("RL", "LR")),
        "V": (("XY", "YX"), ("RR", "LL")), "XX": (("I", "Q"),), "XY": (("U", "V"),), "YX": (("U", "V"),), "YY": (("I", "Q"),),
        "RR": (("I", "V"),), "RL": (("Q", "U"),), "LR": (("Q", "U"),), "LL": (("I", "V"),)}


def L(*xs):
    return ("$list", list(xs))


def sq(s, enc=lambda x: x):
    return L(L(enc(s[0]), enc(s[1])), L(enc(s[2]), enc(s[3])))


PARALLEL = True


def run(ck):
    ck.rules = [RULE]
    perms = [(0, 1, 2, 3), (3, 1, 0, 2), (1, 0, 3, 2)] if ck.tier == "quick" else list(itertools.permutations(range(4)))
    encs = (("str", lambda x: x), ("id", IDS.get))

    def both(tag, args, spec, sargs, **kw):
        ck.equiv("convert " + tag, N, spec, args, None, RULE, sargs=sargs, dtype=True, **kw)

    for src, dsts in ((ST, (LIN, CIRC)), (LIN, (ST,)), (CIRC, (ST,))):
        dt = DType(["float64"]) if src is ST else DType(["complex128"])
        dts = [dt, DType(["complex128"])] if src is ST else [dt]
        for dst in dsts:
            for en, enc in encs:
                for pi in perms:
                    s = tuple(src[i] for i in pi)
                    for po in perms:
                        d = tuple(dst[i] for i in po)
                        if pi != perms[0] and po != perms[0] and pi != po:
                            continue
                        x = A("input", ("row", "chan", 4), dt)
                        t = "%s->%s" % ("".join(s), "".join(d))
                        both("flat %s %s" % (en, t), (x, L(*map(enc, s)), L(*map(enc, d))), "specs.coherency.flat", (x, s, d))
                        m = A("input", ("row", "chan", 2, 2), dt)
                        both("matrix in %s %s" % (en, t), (m, sq(s, enc), L(*map(enc, d))), "specs.coherency.mat_in", (m, s, d))
                        if dst is not ST:
                            both("matrix out %s %s" % (en, t), (x, L(*map(enc, s)), sq(d, enc)), "specs.coherency.mat_out", (x, s, d))
            # every output that the supplied pair of inputs determines, alone and against every other pair
            for o in dst:
                for pair in itertools.combinations(src, 2):
                    ok = any(set(p) == set(pair) for p in NEED[o])
                    for pr in (pair, pair[::-1]):
                        for xdt in dts:
                            x = A("input", ("row", "chan", 2), xdt)
                            if ok:
                                both("pair %s->%s %s" % ("".join(pr), o, xdt), (x, L(*pr), L(o)), "specs.coherency.flat", (x, pr, (o,)))
                            elif xdt is dt:
                                ck.equiv("convert pair %s cannot give %s" % ("".join(pr), o), N, "specs.coherency.missing",
                                         (x, L(*pr), L(o)), None, RULE)
            for k in (2, 3):
                for d in itertools.permutations(dst, k):
                    if ck.tier == "quick" and d != tuple(sorted(d, reverse=True)):
                        continue
                    x = A("input", ("row", "chan", 4), dt)
                    both("subset %s->%s" % ("".join(src), "".join(d)), (x, L(*src), L(*d)), "specs.coherency.flat", (x, src, d))
    # malformed schemas
    x = A("input", ("row", "chan", 4), DType(["complex128"]))
    bad = (("shape", (x, L("XX", "YY"), L("I")), "value_error"), ("shape2", (x, sq(LIN), L("I")), "value_error"),
           ("repeat in", (x, L("XX", "XX", "XY", "YY"), L("I")), "value_error"),
           ("repeat id in", (x, L("XX", 9, "XY", "YY"), L("I")), "value_error"),
           ("repeat out", (x, L(*LIN), L("I", "Q", "I")), "value_error"), ("unknown out", (x, L(*LIN), L("Ptotal")), "value_error"),
           ("unknown id", (x, L(*LIN), L(99)), "value_error"), ("float element", (x, L(*LIN), L(1.5)), "type_error"),
           ("ragged", (x, L(*LIN), L(L("I", "Q"), L("U"))), "mismatch"), ("same family", (x, L(*LIN), L("XX")), "missing"))
    for n, args, s in bad:
        ck.equiv("convert rejects " + n, N, "specs.coherency." + s, args, None, RULE)
    # dask
    for r, c in ((("row", "chan"),) if ck.tier == "quick" else (("row", "chan"),)) + ((["row_a", "row_b"], ["chan_a", "chan_b"]),):
        t = "1 chunk" if r == "row" else "2x2 chunks"
        for src, dst in ((ST, LIN), (ST, CIRC), (LIN, ST), (CIRC, ST)):
            dt = DType(["float64"]) if src is ST else DType(["complex128"])
            x, m = DA("input", (r, c, 4), dt), DA("input", (r, c, 2, 2), dt)
            ck.equiv("dask convert flat %s->%s %s" % (src, dst, t), DK, "specs.coherency.flat", (x, L(*src), L(*dst)), None, RULE,
                     sargs=(whole(x), src, dst), dtype=True)
            ck.equiv("dask convert matrix in %s->%s %s" % (src, dst, t), DK, "specs.coherency.mat_in", (m, sq(src), L(*dst)), None, RULE,
                     sargs=(whole(m), src, dst), dtype=True)
            if dst is not ST:
                ck.equiv("dask convert matrix out %s->%s %s" % (src, dst, t), DK, "specs.coherency.mat_out", (x, L(*src), sq(dst)), None, RULE,
                         sargs=(whole(x), src, dst), dtype=True)
    return ck.finish("every registered conversion, layout (flat, 2x2, permuted, partial), element encoding and malformed schema, for arrays "
                     "of any leading extent", ["arrays hold exact complex numbers (rounding is not modelled)"], 60)
