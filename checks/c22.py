"""C22: Hogbom CLEAN."""
from sa.harness import A, S, D, T

R1 = "value-graph equality of model and residual images with k documented minor cycles, loop unrolled to its constant bound"
R2 = "value-graph equality with the documented formula"
R3 = "error on every path for a wrongly sized point spread function"
H = "africanus.deconv.hogbom.clean."
P = "specs.hogbom."


def run(ck):
    ck.rules = [R1, R2, R3]
    d = A("dirty", ("n", "n"))
    two = T.mul(T.num(2), D("n"))
    psf = A("psf", (two, two))
    g, f = S("gamma"), S("frac")
    ds = [{"n": 2}, {"n": 3}]
    ck.equiv("find_peak", H + "find_peak", P + "find_peak", (A("r", ("n", "m")),), None, R2)
    for k in range(4 if ck.tier == "quick" else 5):
        if k < 4:
            ck.equiv("%d minor cycles" % k, H + "hogbom_clean", P + "clean%d" % k, (d, psf, g, f, k), None, R1, sargs=(d, psf, g, f), skw={},
                     dtype=False, dimsets=ds, n=12)
    ck.equiv("keyword options", H + "hogbom_clean", P + "clean2", (d, psf), dict(niter=2, threshold=f, gamma=g), R1,
             sargs=(d, psf, g, f), skw={}, dtype=False, dimsets=ds, n=12)
    ck.equiv("default gain and threshold", H + "hogbom_clean", P + "clean1_default", (d, psf), dict(niter=1), R1,
             sargs=(d, psf), skw={}, dtype=False, dimsets=ds, n=12)
    one = A("dirty", (1, 1))
    near = {"psf": lambda V, *ix: 7 + 0.8 * abs(V.leaf("f", "psf", ix))}      # second peak near the default threshold
    ck.equiv("default threshold", H + "hogbom_clean", P + "clean2_default", (one, A("psf", (2, 2))), dict(niter=2), R1,
             sargs=(one, A("psf", (2, 2))), skw={}, dtype=False, n=24, inputs=near)
    ck.equiv("default iteration limit", H + "hogbom_clean", P + "clean3", (one, A("psf", (2, 2)), g, f), None, R1,
             dtype=False, n=12)
    ck.equiv("elliptical Gaussian", H + "twod_gaussian", P + "twod_gaussian", ((A("x", ("n", "m")), A("y", ("n", "m"))),) +
             tuple(S(x) for x in ("a", "xo", "yo", "sx", "sy", "th", "off")), None, R2, dtype=False)
    ck.equiv("restore", H + "restore", P + "restore", (d, psf, A("resid", ("n", "n"))), None, R2, dtype=False)
    for a, b in ((8, 4), (4, 8), (4, 4), (7, 8), (16, 16)):
        ck.equiv("rejects psf of %dx%d for 4x4" % (a, b), H + "hogbom_clean", P + "value_error", (A("dirty", (4, 4)), A("psf", (a, b))), None, R3)
    o = ck.run(H + "hogbom_clean", (d, psf, g, f, 2))
    w = [x for x in getattr(o.I, "written_inputs", [])] if o.kind == "value" else None
    ck.ob("inputs unchanged", "unknown" if w is None else "violated" if w else "proved", str(w)[:300], H + "hogbom_clean", R1)
    return ck.finish("images of any size (square), gains and thresholds symbolic; 0 to 3 minor cycles", ["peaks without ties"], 10)
