"""C18: source spectra, shapes and WSClean predictions follow their documented formulas."""
from sa.harness import A, S
from sa.rint import _hash
from .c03 import LM

R = "value-graph equality of the summary with the documented formula"
RR = "an error is raised on exactly the documented condition"
P = "specs.sources."


def L(*xs):
    return ("$list", xs)


def h(V, tag, *ix):
    return _hash(V.seed, tag, ix)[0]


def pos(tag, n=7):
    return lambda V, *i: .25 + h(V, tag, *i) % n / 4.


INP = {"stokes": pos("st"), "frequency": pos("fr"), "ref_freq": pos("rf"), "flux": lambda V, *i: (h(V, "fl", *i) % 9 - 1) / 4.,
       "spi": lambda V, *i: (h(V, "sp", *i) % 9 - 1) / 4., "gs": lambda V, s, k: h(V, "gs", s, k) % 4 * 60., "lm": LM,
       "log_poly": lambda V, i: h(V, "lp", i) % 2, "uvw": lambda V, *i: h(V, "uv", *i) % 17 * 1e5 - 8e5, "data": pos("da"),
       "freqs": pos("fq"), "beam": pos("be"), "weights": pos("we"), "alpha": lambda V, i: h(V, "al", i) % 7 / 4. - 1, "i0": pos("i0")}
PARALLEL = True


def boxes(I):
    I.boxsize = 3


def run(ck):
    ck.rules = [R, RR]
    n = 12 if ck.tier == "quick" else 60
    s, fr, rf = ("source",), A("frequency", ("chan",)), A("ref_freq", ("source",))
    M = "africanus.model."
    SM = M + "spectral.spec_model.spectral_model"
    for pol in ((), ("pol",), (1,), (2,), (4,)):
        for nspi in (1, 2, 3):
            for base in (0, 1, 2, "std", "log", "log10"):
                ck.equiv("spectral model, base %r, polarisations %s, %d indices" % (base, pol, nspi), SM, P + "spectral_model",
                         (A("stokes", s + pol), A("spi", ("source", nspi) + pol), rf, fr), {"base": base}, R, inputs=INP, n=n)
    ck.equiv("spectral model, default base", SM, P + "spectral_model", (A("stokes", s), A("spi", ("source", 2)), rf, fr), {}, R, inputs=INP, n=n)
    for bs in ((0,), (1, 2), (2, 0, 1), ("log", "std"), (0, 1, 2, 1), ("log10", "std", "log")):
        ck.equiv("spectral model, bases %s" % (bs,), SM, P + "spectral_model_bases", (A("stokes", ("source", 4)), A("spi", ("source", 2, 4)), rf, fr),
                 {"base": L(*bs)}, R, sargs=(A("stokes", ("source", 4)), A("spi", ("source", 2, 4)), rf, fr, L(*bs)), skw={}, inputs=INP, n=n)
    ck.equiv("spectral model, unknown base", SM, "specs.common.any_error", (A("stokes", s), A("spi", ("source", 2)), rf, fr), {"base": 1.5}, RR)
    ck.equiv("spectral model, polarisations of one argument only", SM, "specs.common.value_error",
             (A("stokes", ("source", 2)), A("spi", ("source", 2)), rf, fr), {}, RR)
    ck.equiv("spectral model, other polarisations", SM, "specs.common.value_error",
             (A("stokes", ("source", 2)), A("spi", ("source", 2, 4)), rf, fr), {}, RR)
    W = M + "wsclean.spec_model.spectra"
    for k in (1, 2, 3):
        for t, lp in (("ordinary", False), ("logarithmic", True), ("either", A("log_poly", s, "b"))):
            ck.equiv("WSClean spectra, %s, %d coefficients" % (t, k), W, P + "spectra", (A("flux", s), A("spi", ("source", k)), lp, rf, fr), {}, R,
                     inputs=INP, n=n, raises=True)
    ck.equiv("WSClean spectra, sources of the reference frequencies", W, "specs.common.value_error",
             (A("flux", (3,)), A("spi", (3, 2)), False, A("ref_freq", (4,)), fr), {}, RR)
    ck.equiv("WSClean spectra, sources of the coefficients", W, "specs.common.value_error",
             (A("flux", (3,)), A("spi", (4, 2)), False, A("ref_freq", (3,)), fr), {}, RR)
    ck.equiv("WSClean spectra, sources of the kinds", W, "specs.common.value_error",
             (A("flux", (3,)), A("spi", (3, 2)), A("log_poly", (4,), "b"), A("ref_freq", (3,)), fr), {}, RR)
    ck.equiv("Gaussian shape", M + "shape.gaussian_shape.gaussian", P + "gaussian", (A("uvw", ("row", 3)), fr, A("gs", ("source", 3))), {}, R, inputs=INP, n=n)
    for k in (1, 2):
        for t, lp in (("ordinary", False), ("either", A("log_poly", s, "b"))):
            ck.equiv("WSClean prediction, %s, %d coefficients" % (t, k), "africanus.rime.wsclean_predict.wsclean_predict", P + "wsclean_predict",
                     (A("uvw", ("row", 3)), A("lm", ("source", 2)), A("source_type", s, "?"), A("flux", s), A("spi", ("source", k)), lp, rf,
                      A("gs", ("source", 3)), fr), {}, R, inputs=INP, n=n, dtype=False, raises=True)
    # well-conditioned problems: a Newton step divides by the determinant of the normal matrix
    fitin = dict(INP, tol=lambda V: h(V, "tol") % 8 / 64., freq0=lambda V: .5, freqs=lambda V, i: .3 + .4 * i + h(V, "fr%d" % i) % 8 / 64.,
                 weights=lambda V, i: 1 + h(V, "w%d" % i) % 8 / 16., beam=lambda V, c, i: 1 + h(V, "b%d,%d" % (c, i)) % 8 / 32.)
    fitds = [{"comp": 1, "chan": 3}, {"comp": 2, "chan": 4}, {"comp": 2, "chan": 3}]
    FIT = M + "spi.component_spi.fit_spi_components"
    for dt, md in (("float64", 1e-12), ("float32", 1e-5)):
        d = A("data", ("comp", "chan"), dt)
        a = (d, A("weights", ("chan",)), A("freqs", ("chan",)), S("freq0"))
        ck.equiv("fit step, " + dt, FIT, P + "fit_step", a, dict(alphai=A("alpha", ("comp",)), I0i=A("i0", ("comp",)), beam=A("beam", ("comp", "chan")),
                                                                 tol=0.0, maxiter=1), R,
                 sargs=a + (A("alpha", ("comp",)), A("i0", ("comp",)), A("beam", ("comp", "chan")), md), skw={}, inputs=fitin, dimsets=fitds, n=n, dtype=False)
        if dt == "float64":
            ck.equiv("two fit steps, " + dt, FIT, P + "fit_two", a, dict(alphai=A("alpha", ("comp",)), I0i=A("i0", ("comp",)), beam=A("beam", ("comp", "chan")),
                                                                     tol=S("tol"), maxiter=2), R,
                 sargs=a + (A("alpha", ("comp",)), A("i0", ("comp",)), A("beam", ("comp", "chan")), md, S("tol")), skw={},
                 inputs=fitin, dimsets=fitds, n=n, dtype=False, setup=boxes, ssetup=boxes)
        ck.equiv("fit step from defaults, " + dt, FIT, P + "fit_defaults", a, dict(tol=0.0, maxiter=1), R, sargs=a + (md,), skw={}, inputs=fitin, dimsets=fitds, n=n, dtype=False)
    return ck.finish("spectra for 1 to 3 coefficients, every base and polarisation shape; shapes and predictions for any number of sources, rows and channels", [], 60)
