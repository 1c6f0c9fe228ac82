"""C03: corrupting, correcting and subtracting models with gains follow V = sum_s G_p M G_q^H."""
from sa.harness import A, S
from sa.rint import _hash

R = "value-graph equality with the measurement equation V_pq = sum over directions of G_p M_pq G_q^H, per time bin"
RR = "an error is raised on exactly the documented condition"
U = "africanus.calibration.utils."
P = "specs.calibration."


def h(V, tag, *ix):
    return _hash(V.seed, tag, ix)[0]


def counts(V):
    """rows of each time bin: they cover all the rows, in order, and may be empty"""
    n, t = V.dim("row"), V.dim("time")
    cuts = [0] + sorted(h(V, "cut", k) % (n + 1) for k in range(t - 1)) + [n]
    return [cuts[k + 1] - cuts[k] for k in range(t)], cuts


INPUTS = {"tbi": lambda V, i: V.seed % 5 * (V.seed % 2) + counts(V)[1][i], "tbc": lambda V, i: counts(V)[0][i],
          "ant1": lambda V, i: h(V, "p", i) % V.dim("ant"), "ant2": lambda V, i: h(V, "q", i) % V.dim("ant"),
          "flag": lambda V, *i: h(V, "f", *i) % 4 == 0}
DIMS = [dict(row=r, time=t, ant=a, chan=c, dir=d, corr=k) for r, t, a, c, d, k in
        ((1, 1, 1, 1, 1, 1), (3, 1, 2, 2, 1, 2), (4, 2, 3, 1, 2, 2), (3, 2, 2, 2, 3, 1), (5, 3, 3, 2, 1, 2), (2, 1, 2, 3, 2, 2))]
BASE = (A("tbi", ("time",), "i"), A("tbc", ("time",), "i"), A("ant1", ("row",), "i"), A("ant2", ("row",), "i"))
# mode -> axes of the gains after direction, axes of the visibilities after channel
MODES = {"scalar": (("corr",), ("corr",)), "one correlation": ((1,), (1,)), "two correlations": ((2,), (2,)),
         "diagonal gains": ((2,), (2, 2)), "full gains": ((2, 2), (2, 2))}
LM = lambda V, *i: ((h(V, "lm", *i) % 1000) / 2000. - .25)


def arrays(js, vs, nd="dir"):
    return dict(jones=A("jones", ("time", "ant", "chan", nd) + js, "c"), vis=A("vis", ("row", "chan") + vs, "c"),
                model=A("model", ("row", "chan", nd) + vs, "c"), flag=A("flag", ("row", "chan") + vs, "b"),
                tmodel=A("model", ("time", "chan", nd) + vs, "c"))


PARALLEL = True


def run(ck):
    ck.rules = [R, RR]
    n = 12 if ck.tier == "quick" else 60
    kw = dict(inputs=dict(INPUTS, lm=LM), dimsets=DIMS, n=n, raises=True, dtype=False)
    for mode, (js, vs) in MODES.items():
        a = arrays(js, vs)
        ck.equiv("corrupt, " + mode, U + "corrupt_vis.corrupt_vis", P + "corrupt_vis", BASE + (a["jones"], a["model"]), None, R, **kw)
        ck.equiv("corrupt a sky that varies, " + mode, U + "compute_and_corrupt_vis.compute_and_corrupt_vis",
                 P + "compute_and_corrupt_vis", BASE + (a["jones"], a["tmodel"], A("uvw", ("row", 3)), A("freq", ("chan",)),
                                                        A("lm", ("time", "dir", 2))), None, R, **kw)
        ck.equiv("residual, " + mode, U + "residual_vis.residual_vis", P + "residual_vis",
                 BASE + (a["jones"], a["vis"], a["flag"], a["model"]), None, R, **kw)
        one = arrays(js, vs, 1)
        ck.equiv("correct, " + mode, U + "correct_vis.correct_vis", P + "correct_vis", BASE + (one["jones"], one["vis"], one["flag"]),
                 None, R, **kw)
        ck.equiv("correct with several directions, " + mode, U + "correct_vis.correct_vis", P + "value_error",
                 BASE + (arrays(js, vs, 2)["jones"], a["vis"], a["flag"]), None, RR)
    j5, j6, j4 = (A("jones", ("time", "ant", "chan", "dir", 2, 2)[:k], "c") for k in (5, 6, 4))
    for t, base in (("vis", ("row", "chan")), ("model", ("row", "chan", "dir"))):
        one, two, three = (A("vis", base + k, "c") for k in ((2,), (2, 2), (2, 2, 2)))
        for args, want in (((j5, one), "check_diag_diag"), ((j5, two), "check_diag"), ((j6, two), "check_full"), ((j6, one), "runtime_error"),
                           ((j4, two), "runtime_error"), ((j4, one), "runtime_error"), ((j5, three), "runtime_error")):
            ck.equiv("mode of %d-axis gains, %d-axis %s" % (len(args[0][2]), len(args[1][2]), t), U + "utils.check_type", P + want, args,
                     {"vis_type": t}, R)
        if t == "vis":
            ck.equiv("mode, default kind", U + "utils.check_type", P + "check_diag", (j5, two), None, R)
    ck.equiv("mode of another kind", U + "utils.check_type", P + "value_error", (j5, j5), {"vis_type": "visibility"}, RR)
    ck.equiv("rows per chunk", U + "utils.chunkify_rows", P + "chunkify_rows", (A("time", ("row",)), S("per", "i")), None, R,
             inputs={"time": lambda V, i: 1. + i // 2 + h(V, "t") % 3 * (i // 3), "per": lambda V: 1 + h(V, "p") % 4},
             dimsets=[{"row": k} for k in (1, 2, 3, 5, 6, 7, 8)], n=2 * n, dtype=False, raises=True)
    return ck.finish("every mode of gains and visibilities, any number of rows, time bins, antennas, channels, directions; bins that start "
                     "anywhere, flags in any correlation", ["time bins are contiguous and in row order"], 6)
