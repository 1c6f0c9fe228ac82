"""C07: computing on chunked (dask) arrays gives what the in-memory functions give on the whole arrays."""
from sa.harness import A, DA, S, whole
from sa.terms import Poly, atom, of
from sa.rint import _hash
from .c03 import LM
from .c11 import u

R = "value-graph equality of the graph's blocks, reassembled, with the in-memory function on the whole arrays"
RR = "an error is raised on exactly the documented condition"


def h(V, tag, *ix):
    return _hash(V.seed, tag, ix)[0]


def split(V, rows, bins, tag):
    cuts = [0] + sorted(h(V, tag, k) % (rows + 1) for k in range(bins - 1)) + [rows]
    return [cuts[k + 1] - cuts[k] for k in range(bins)]


def bins(chunked):
    def f(V, i):
        if chunked:
            c = split(V, V.dim("row_a"), V.dim("time_a"), "c1") + split(V, V.dim("row_b"), V.dim("time_b"), "c2")
        else:
            c = split(V, V.dim("row"), V.dim("time"), "c")
        return c, i
    return {"tbi": lambda V, i: sum(f(V, i)[0][:i]), "tbc": lambda V, i: f(V, i)[0][i],
            "ant1": lambda V, i: h(V, "p", i) % V.dim("ant"), "ant2": lambda V, i: h(V, "q", i) % V.dim("ant"),
            "time_index": lambda V, i: 0 if not chunked or i < V.dim("row_a") else V.dim("time_a"),
            "flag": lambda V, *i: h(V, "f", *i) % 4 == 0, "lm": lambda V, *i: LM(V, *i), "source_type": lambda V, i: h(V, "st", i) % 2,
            "log_poly": lambda V, i: h(V, "lp", i) % 2, "flux": lambda V, *i: .5 + h(V, "fl", *i) % 5,
            "stokes": lambda V, *i: .5 + h(V, "fl", *i) % 5, "frequency": lambda V, i: 1. + h(V, "fr", i) % 5,
            "ref_freq": lambda V, i: 1. + h(V, "rf", i) % 5, "noll": lambda V, *i: h(V, "nl", *i) % 6}


def table(r, t, s, c, tier):
    """(name, dask function, in-memory function, args, kw)"""
    U, PO = "africanus.calibration.utils.", "africanus.calibration.phase_only."
    base = (DA("tbi", (t,), "i"), DA("tbc", (t,), "i"), DA("ant1", (r,), "i"), DA("ant2", (r,), "i"))
    out = []
    for mode, js, vs in (("two correlations", (2,), (2,)), ("diagonal gains", (2,), (2, 2)), ("full gains", (2, 2), (2, 2))):
        j = DA("jones", (t, "ant", c, "dir") + js, "c")
        j1 = DA("jones", (t, "ant", c, 1) + js, "c")
        v, m, f = DA("vis", (r, c) + vs, "c"), DA("model", (r, c, "dir") + vs, "c"), DA("flag", (r, c) + vs, "b")
        tm = DA("model", (t, c, "dir") + vs, "c")
        for name, args in (("corrupt_vis", base + (j, m)), ("residual_vis", base + (j, v, f, m)), ("correct_vis", base + (j1, v, f)),
                           ("compute_and_corrupt_vis", base + (j, tm, DA("uvw", (r, 3)), DA("freq", (c,)), DA("lm", (t, "dir", 2))))):
            out.append(("%s, %s" % (name, mode), U + "dask." + name, U + "%s.%s" % (name, name), args, {}))
        if vs == (2,):
            res = DA("residual", (r, c) + vs, "c")
            out.append(("compute_jhj", PO + "dask.compute_jhj", PO + "phase_only.compute_jhj", base + (j, m, f), {}))
            out.append(("compute_jhr", PO + "dask.compute_jhr", PO + "phase_only.compute_jhr", base + (j, res, m, f), {}))
    C = "africanus.coordinates."
    for name, a in (("radec_to_lmn", DA("radec", (s, 2))), ("radec_to_lm", DA("radec", (s, 2))), ("lmn_to_radec", DA("lmn", (s, 3))),
                    ("lm_to_radec", DA("lm", (s, 2)))):
        out.append((name, C + "dask." + name, C + "coordinates." + name, (a, DA("pc", (2,))), {}))
        out.append((name + " about the origin", C + "dask." + name, C + "coordinates." + name, (a,), {}))
    uvw, fr, lm = DA("uvw", (r, 3)), DA("frequency", (c,)), DA("lm", (s, 2))
    lm1, f_ = DA("lm", ("source", 2)), DA("flag", (r, c, "corr"), "b")
    for conv in ("fourier", "casa"):
        out.append(("phase_delay " + conv, "africanus.rime.dask.phase_delay", "africanus.rime.phase.phase_delay", (lm, uvw, fr), {"convention": conv}))
        out.append(("im_to_vis " + conv, "africanus.dft.dask.im_to_vis", "africanus.dft.kernels.im_to_vis",
                    (DA("image", ("source", c, "corr")), uvw, lm1, fr), {"convention": conv}))
        out.append(("vis_to_im " + conv, "africanus.dft.dask.vis_to_im", "africanus.dft.kernels.vis_to_im",
                    (DA("vis", (r, c, "corr"), "c"), uvw, lm, fr, f_), {"convention": conv}))
    out.append(("phase_delay", "africanus.rime.dask.phase_delay", "africanus.rime.phase.phase_delay", (lm, uvw, fr), {}))
    out.append(("im_to_vis", "africanus.dft.dask.im_to_vis", "africanus.dft.kernels.im_to_vis",
                (DA("image", ("source", c, "corr")), uvw, lm1, fr), {}))
    out.append(("vis_to_im", "africanus.dft.dask.vis_to_im", "africanus.dft.kernels.vis_to_im", (DA("vis", (r, c, "corr"), "c"), uvw, lm, fr, f_), {}))
    for ft in ("linear", "circular"):
        for k in (1, 2, 3):
            out.append(("feed_rotation %s, %d axes" % (ft, k), "africanus.rime.dask.feed_rotation", "africanus.rime.feeds.feed_rotation",
                        (DA("pa", (t, "ant", c)[:k], "float64"),), {"feed_type": ft}))
    out.append(("transform_sources", "africanus.rime.dask.transform_sources", "africanus.rime.transform.transform_sources",
                (lm, DA("pa", (t, "ant")), DA("pe", (t, "ant", 2)), DA("as", ("ant", c)), fr), {}))
    for cs in ((2,), (2, 2)):
        out.append(("beam_cube_dde %d" % len(cs), "africanus.rime.dask.beam_cube_dde", "africanus.rime.fast_beam_cubes.beam_cube_dde",
                    (DA("beam", ("bl", "bm", "bn") + cs, "c"), DA("ext", (2, 2)), DA("bfm", ("bn",)), lm, DA("pa", (t, "ant")), DA("pe", (t, "ant", c, 2)),
                     DA("as", ("ant", c, 2)), fr), {}))
        out.append(("zernike_dde %d" % len(cs), "africanus.rime.dask.zernike_dde", "africanus.rime.zernike.zernike_dde",
                    (DA("coords", (3, s, t, "ant", c)), DA("coeffs", ("ant", c) + cs + (3,), "c"), DA("noll", ("ant", c) + cs + (3,), "i")), {}))
    for pol in ((), ("pol",)):
        for b in (0, 1, 2):
            out.append(("spectral_model base %d, %d polarisation axes" % (b, len(pol)), "africanus.model.spectral.dask.spectral_model",
                        "africanus.model.spectral.spec_model.spectral_model",
                        (DA("stokes", (s,) + pol), DA("spi", (s, 3) + pol), DA("ref_freq", (s,)), fr), {"base": b}))
    out.append(("spectral_model", "africanus.model.spectral.dask.spectral_model", "africanus.model.spectral.spec_model.spectral_model",
                (DA("stokes", (s,)), DA("spi", (s, 3)), DA("ref_freq", (s,)), fr), {}))
    out.append(("gaussian", "africanus.model.shape.dask.gaussian", "africanus.model.shape.gaussian_shape.gaussian",
                (uvw, fr, DA("shape_params", (s, 3))), {}))
    st = (DA("flux", (s,)), DA("spi", (s, 3)))
    for n, l in (("", DA("log_poly", (s,), "b")), (", all ordinary", False), (", all logarithmic", True)):
        out.append(("wsclean spectra" + n, "africanus.model.wsclean.dask.spectra", "africanus.model.wsclean.spec_model.spectra",
                    st + (l, DA("ref_freq", (s,)), fr), {}))
    out.append(("wsclean_predict", "africanus.rime.dask_predict.wsclean_predict", "africanus.rime.wsclean_predict.wsclean_predict",
                (uvw, lm, DA("source_type", (s,), "?")) + st + (DA("log_poly", (s,), "b"), DA("ref_freq", (s,)), DA("gs", (s, 3)), fr), {}))
    P, N = "africanus.rime.dask_predict.predict_vis", "africanus.rime.predict.predict_vis"
    for cs in ((2,), (2, 2)):
        idx = dict(time_index=DA("time_index", (r,), "i"), antenna1=DA("ant1", (r,), "i"), antenna2=DA("ant2", (r,), "i"))
        a = dict(dde1_jones=DA("dde1_jones", (s, t, "ant", c) + cs, "c"), dde2_jones=DA("dde2_jones", (s, t, "ant", c) + cs, "c"),
                 source_coh=DA("source_coh", (s, r, c) + cs, "c"), base_vis=DA("base_vis", (r, c) + cs, "c"),
                 die1_jones=DA("die1_jones", (t, "ant", c) + cs, "c"), die2_jones=DA("die2_jones", (t, "ant", c) + cs, "c"))
        for tag, ks in (("dde+coh+die+base", list(a)), ("coh", ["source_coh"]), ("dde", ["dde1_jones", "dde2_jones"]),
                        ("dde+coh+base", ["dde1_jones", "dde2_jones", "source_coh", "base_vis"]), ("die+base", ["die1_jones", "die2_jones", "base_vis"]),
                        ("coh+die", ["source_coh", "die1_jones", "die2_jones"]), ("base", ["base_vis"]), ("coh+base", ["source_coh", "base_vis"])):
            for streams in (None, True, False):
                kw = {k: a[k] for k in ks}
                out.append(("predict_vis %s, %s, corr %s" % (tag, {None: "default", True: "streams", False: "tree"}[streams], "x".join(map(str, cs))),
                            P, N, (), dict(idx, **kw, **({} if streams is None else {"streams": streams}))))
    return out


def rejected():
    """chunkings the functions cannot compute with and must refuse"""
    U = "africanus.calibration.utils.dask."
    two = [2, 3]
    base = (DA("tbi", ("time",), "i"), DA("tbc", ("time",), "i"), DA("ant1", ("row",), "i"), DA("ant2", ("row",), "i"))
    v, f = DA("vis", ("row", "chan", 2), "c"), DA("flag", ("row", "chan", 2), "b")

    def j(ant="ant", dr="dir"):
        return DA("jones", ("time", ant, "chan", dr, 2), "c")

    def m(dr="dir", r="row"):
        return DA("model", (r, "chan", dr, 2), "c")
    for tag, kj, km in (("antennas", {"ant": two}, {}), ("directions", {"dr": two}, {"dr": two}), ("directions of the gains", {"dr": two}, {}),
                        ("directions of the model", {}, {"dr": two})):
        yield "corrupt_vis, chunked " + tag, U + "corrupt_vis", base + (j(**kj), m(**km)), {}
        yield "residual_vis, chunked " + tag, U + "residual_vis", base + (j(**kj), v, f, m(**km)), {}
        if kj:
            yield "correct_vis, chunked " + tag, U + "correct_vis", base + (j(**kj), v, f), {}
        yield "compute_and_corrupt_vis, chunked " + tag, U + "compute_and_corrupt_vis", \
            base + (j(**kj), m(r="time", **km), DA("uvw", ("row", 3)), DA("freq", ("chan",)), DA("lm", ("time", "dir", 2))), {}
    sp = ("africanus.model.spectral.dask.spectral_model", "africanus.model.wsclean.dask.spectra", "africanus.rime.dask_predict.wsclean_predict")
    s = ("source",)
    yield "spectral_model, chunked coefficients", sp[0], (DA("stokes", s), DA("spi", ("source", two)), DA("ref_freq", s), DA("frequency", ("chan",))), {}
    yield "wsclean spectra, chunked coefficients", sp[1], (DA("flux", s), DA("spi", ("source", two)), DA("log_poly", s, "b"), DA("ref_freq", s),
                                                           DA("frequency", ("chan",))), {}
    yield "wsclean_predict, chunked coefficients", sp[2], (DA("uvw", ("row", 3)), DA("lm", ("source", 2)), DA("source_type", s, "?"), DA("flux", s),
                                                           DA("spi", ("source", two)), DA("log_poly", s, "b"), DA("ref_freq", s),
                                                           DA("gs", ("source", 3)), DA("frequency", ("chan",))), {}
    yield "im_to_vis, chunked sources", "africanus.dft.dask.im_to_vis", (DA("image", (two, "chan", "corr")), DA("uvw", ("row", 3)), DA("lm", (two, 2)),
                                                                         DA("frequency", ("chan",))), {}
    P = "africanus.rime.dask_predict.predict_vis"
    idx = dict(time_index=DA("time_index", ("row",), "i"), antenna1=DA("ant1", ("row",), "i"), antenna2=DA("ant2", ("row",), "i"))
    two_r = dict(time_index=DA("time_index", ([4, 5],), "i"), antenna1=DA("ant1", ([4, 5],), "i"), antenna2=DA("ant2", ([4, 5],), "i"))
    for tag, t, a, ix in (("antennas", "time", two, idx), ("times, not rows", two, "ant", idx), ("rows, not times", "time", "ant", two_r)):
        yield "predict_vis, direction dependent, chunked " + tag, P, (), dict(
            ix, dde1_jones=DA("dde1_jones", ("source", t, a, "chan", 2), "c"), dde2_jones=DA("dde2_jones", ("source", t, a, "chan", 2), "c"))
        yield "predict_vis, direction independent, chunked " + tag, P, (), dict(
            ix, die1_jones=DA("die1_jones", (t, a, "chan", 2), "c"), die2_jones=DA("die2_jones", (t, a, "chan", 2), "c"),
            base_vis=DA("base_vis", ([4, 5] if ix is two_r else "row", "chan", 2), "c"))


CHUNKS = {"one chunk": ("row", "time", "source", "chan"),
          "chunks of rows": (["row_a", "row_b"], ["time_a", "time_b"], "source", "chan"),
          "chunks of sources": ("row", "time", ["source_a", "source_b"], "chan"),
          "chunks of channels": ("row", "time", "source", ["chan_a", "chan_b"]),
          "chunks of all": (["row_a", "row_b"], ["time_a", "time_b"], ["source_a", "source_b"], ["chan_a", "chan_b"]),
          "three source chunks": (["row_a", "row_b"], ["time_a", "time_b"], ["source_a", "source_b", "source_c"], "chan")}


def heavy(name, cname, tier):
    return tier == "quick" and name.startswith("beam_cube") and cname in ("chunks of all", "three source chunks")


def items(ck):
    for cname, (r, t, s, c) in CHUNKS.items():
        for name, f, g, args, kw in table(r, t, s, c, ck.tier):
            if heavy(name, cname, ck.tier):
                continue
            yield "%s, %s" % (name, cname), f, g, args, kw, isinstance(r, list)


PURE = ("africanus.rime.zernike.zernike",)


def abstract(I):
    """the value of these functions of numbers only: whatever it is, it is the same for the same numbers"""
    I.boxsize = 4

    def model(key):
        def f(I, fn, args, kw, n):
            if kw or not all(isinstance(a, Poly) for a in args):
                return NotImplemented
            return of(atom("call", (key,) + tuple(args), "c"))
        return f
    for k in PURE:
        I.funcmodels[k] = model(k)


PARALLEL = True


def run(ck):
    ck.rules = [R, RR]
    ck.limit = 25 if ck.tier == "quick" else 120
    n = 6 if ck.tier == "quick" else 30
    for name, f, g, args, kw, ch in items(ck):
        swhole = {k: whole(v) for k, v in kw.items() if k != "streams"}
        ck.equiv(name, f, g, args, kw, R, setup=abstract, ssetup=abstract, sargs=tuple(whole(x) for x in args), skw=swhole, inputs=bins(ch), n=n, dtype=False)
    for name, f, args, kw in rejected():
        ck.equiv("rejected: " + name, f, "specs.common.rejects", args, kw, RR)
    return ck.finish("every dask function but gridding and averaging, for one and two chunks along each axis that may be chunked, of any sizes", [], 100)
