"""C14: facet gridding and degridding."""
from sa.harness import A, DA, S, D, T, whole
from sa.rint import _hash
from specs.facettables import STOKES, CORRS

R = "value-graph equality of the grid (or visibilities) with the documented sum over samples and kernel taps"
RK = "value-graph equality of kernel samples with the documented formula"
RR = "an error is raised on exactly the documented condition"
P = "specs.facets."
M = "africanus.gridding.perleypolyhedron."
PARALLEL = True


def h(V, tag, *ix):
    return _hash(V.seed, tag, ix)[0]


# positions within and (for kernels that clip) around a grid of 4 pixels; distinct fractions of a pixel
def inputs(npix, edge, taps):
    return {"kernel": lambda V, i: V.leaf("f", "kernel", (i if i >= 0 else i + taps,)),        # negative indices wrap
            "uvw": lambda V, i, j: h(V, "uv", i, j) % (npix + edge) - (npix + edge) // 2 + FRAC[h(V, "fr", i, j) % len(FRAC)],
            "lam": lambda V, i: 1. + h(V, "la", i) % 5 / 40., "ra": lambda V: h(V, "ra") % 7 / 20., "dec": lambda V: .3 + h(V, "de") % 7 / 20.,
            "ra0": lambda V: h(V, "ra0") % 7 / 50., "dec0": lambda V: .3 + h(V, "de0") % 7 / 50.,
            "chanmap": lambda V, i: h(V, "cm", i) % 2}


FRAC = (-.45, -.41, -.38, -.2, .1, .26, .36, .42, .44)
CELL = 3600 * 180 / 3.141592653589793


def run(ck):
    ck.rules = [R, RK, RR]
    quick = ck.tier == "quick"
    n = 16 if quick else 60
    npix = 4
    uvw, lam, cm = A("uvw", ("row", 3)), A("lam", ("chan",)), A("chanmap", ("chan",), "i")
    image, centre = (S("ra"), S("dec")), (S("ra0"), S("dec0"))
    W, OS = 3, 3
    K = A("kernel", (OS * (W + 2),))
    dims = [{"row": 2, "chan": 2}, {"row": 1, "chan": 3}]
    cell = CELL / npix

    def g(name, stokes, btp="None", ptp="None", conv="conv_nn_scatter", norm=False, edge=0, W=W, OS=OS, n=n):
        K = A("kernel", (OS * (W + 2),))
        vis = A("vis", ("row", "chan", 4 if len(stokes) > 12 else 2), "c")
        kw = {"do_normalize": True} if norm else {}
        ck.equiv(name, M + "gridder.gridder", P + "grid",
                 (uvw, vis, lam, cm, npix, cell, image, centre, K, W, OS, btp, ptp, stokes, conv), kw, R,
                 sargs=(uvw, vis, lam, cm, npix, cell, image, centre, K, W, OS, btp, ptp, stokes, conv, norm), skw={},
                 dtype=False, n=n, inputs=inputs(npix, edge, OS * (W + 2)), dimsets=dims)
    for s in STOKES:
        g("grid " + s, s)
    I = "I_FROM_XXYY"
    g("grid normalised", I, norm=True)
    for b in ("rotate", "wlinapprox"):
        g("grid, baselines " + b, I, btp=b, conv="conv_1d_axisymmetric_unpacked_scatter", W=1, OS=64)
        g("grid, baselines %s and phases" % b, I, btp=b, ptp="phase_rotate")
    g("grid, phases", "Q_FROM_XXXYYXYY", ptp="phase_rotate")
    for cv in ("unpacked", "packed"):
        g("grid, %s kernel" % cv, I, conv="conv_1d_axisymmetric_%s_scatter" % cv, edge=1, n=n if cv == "unpacked" else 6)
        g("grid, %s kernel, normalised" % cv, I, conv="conv_1d_axisymmetric_%s_scatter" % cv, norm=True, W=1, OS=4)

    # nothing is written around the grid: every store into it carries the bounds
    around = [(b, i, j) for b in (0, 1) for i, j in ((npix, 1), (1, npix), (-1, 2), (2, -1))]
    for cv in ("unpacked", "packed"):
        K = A("kernel", (OS * (W + 2),))
        ck.equiv("grid, %s kernel, nothing outside" % cv, M + "gridder.gridder", P + "nothing",
                 (uvw, A("vis", ("row", "chan", 2), "c"), lam, cm, npix, cell, image, centre, K, W, OS, "None", "None", I, "conv_1d_axisymmetric_%s_scatter" % cv), {}, R,
                 sargs=(len(around),), skw={}, post=lambda J, r, a, k: tuple(J.read(r, tuple(T.num(x) for x in ix)) for ix in around), spost=lambda J, r, a, k: r,
                 dtype=False, n=n if cv == "unpacked" else 6, inputs=inputs(npix, 1, OS * (W + 2)), dimsets=dims)

    def d(name, corrs, ptp="None", cv="packed", edge=0, f="degridder", W=1, OS=5):
        K = A("kernel", (OS * (W + 2),))
        gs = A("grid", (2, npix, npix), "c")
        conv = "conv_1d_axisymmetric_%s_gather" % cv
        ck.equiv(name, M + "degridder." + f, P + "degrid",
                 (uvw, gs, lam, cm, cell, image, centre, K, W, OS, "None", ptp, corrs, conv), {}, R,
                 sargs=(uvw, gs, lam, cm, cell, image, centre, K, W, OS, ptp, corrs, conv), skw={},
                 dtype=False, n=n, inputs=inputs(npix, edge, OS * (W + 2)), dimsets=dims)
    for f in ("degridder", "degridder_serial"):
        for s in CORRS:
            d("%s %s" % (f, s), s, f=f)
        for cv in ("unpacked", "packed"):
            d("%s, %s kernel" % (f, cv), "XXYY_FROM_I", cv=cv, f=f, edge=1, W=3, OS=3)
        d(f + ", phases", "XXYY_FROM_I", ptp="phase_rotate", f=f)
    for r, cc in (("row", "chan"), (["row_a", "row_b"], ["chan_a", "chan_b"])):
        K1 = A("kernel", (9,))
        tag = "one chunk" if r == "row" else "2x2 chunks"
        for par in ({}, {"rowparallel": True}):
            ck.equiv("dask degridder, 2 facets, %s%s" % (tag, ", parallel rows" if par else ""), M + "dask.degridder", P + "dask_degrid",
                     (DA("uvw", (r, 3)), DA("grid", (2, 2, npix, npix), "c"), DA("lam", (cc,)), DA("chanmap", (cc,), "i"), cell, DA("images", (2, 2)), centre,
                      K1, 1, 3, "None", "phase_rotate", "XXYY_FROM_I", "conv_1d_axisymmetric_packed_gather"), par, R,
                     sargs=(whole(DA("uvw", (r, 3))), whole(DA("grid", (2, 2, npix, npix), "c")), whole(DA("lam", (cc,))), whole(DA("chanmap", (cc,), "i")), cell,
                            whole(DA("images", (2, 2))), centre, K1, 1, 3, "phase_rotate", "XXYY_FROM_I", "conv_1d_axisymmetric_packed_gather"), skw={},
                     dtype=False, n=4, inputs=dict(inputs(npix, 0, 9), images=lambda V, i, j: (.3 if j else 0) + h(V, "im", i, j) % 7 / 50.),
                     dimsets=[{"row": 2, "chan": 2, "row_a": 1, "row_b": 2, "chan_a": 2, "chan_b": 1}])

    def bad(name, f, uvw, arr, lam, cm):
        g0 = (uvw, arr, lam, cm) + ((npix,) if f == "gridder" else ()) + (cell, image, centre, A("kernel", (6,)), 1, 2, "None", "None")
        g0 += ("I_FROM_XXYY", "conv_nn_scatter") if f == "gridder" else ("XXYY_FROM_I", "conv_1d_axisymmetric_packed_gather")
        ck.equiv("%s rejects %s" % (f, name), M + ("gridder." if f == "gridder" else "degridder.") + f, "specs.common.any_error", g0, {}, RR, skw={})
    V = A("vis", (5, 3, 2), "c")
    bad("fewer coordinates than rows", "gridder", A("uvw", (4, 3)), V, A("lam", (3,)), A("chanmap", (3,), "i"))
    bad("pairs of coordinates", "gridder", A("uvw", (5, 2)), V, A("lam", (3,)), A("chanmap", (3,), "i"))
    bad("a band map of other length", "gridder", A("uvw", (5, 3)), V, A("lam", (3,)), A("chanmap", (2,), "i"))
    bad("wavelengths of other length", "gridder", A("uvw", (5, 3)), V, A("lam", (2,)), A("chanmap", (2,), "i"))
    for f in ("degridder", "degridder_serial"):
        G = A("grid", (2, npix, npix), "c")
        bad("an oblong grid", f, A("uvw", (5, 3)), A("grid", (2, 4, 5), "c"), A("lam", (3,)), A("chanmap", (3,), "i"))
        bad("pairs of coordinates", f, A("uvw", (5, 2)), G, A("lam", (3,)), A("chanmap", (3,), "i"))
        bad("a band map of other length", f, A("uvw", (5, 3)), G, A("lam", (3,)), A("chanmap", (2,), "i"))
    KM = M + "kernels."
    for W in (1, 3, 5):
        OS = D("os")
        t = "%d taps" % W
        ds = [{"os": 1, "npix": 3}, {"os": 2, "npix": 4}, {"os": 4, "npix": 2}]
        ck.equiv("sinc, " + t, KM + "sinc", P + "sinc", (W,), {"oversample": OS, "a": S("a")}, RK, dtype=False, dimsets=ds)
        ck.equiv("sinc, %s, positional" % t, KM + "sinc", P + "sinc", (W, OS), {}, RK, dtype=False, dimsets=ds)
        ck.equiv("hanning windowed sinc, " + t, KM + "hanningsinc", P + "hanning", (W, S("a")), {"oversample": OS}, RK, dtype=False, dimsets=ds)
        K = A("kernel", (T.mul(OS, T.num(W + 2)),))
        K2 = A("kernel", (T.mul(OS, T.num(W + 2)), T.mul(OS, T.num(W + 2))))
        ck.equiv("detaper of a 2D kernel, " + t, KM + "compute_detaper_dft", P + "detaper2", (D("npix"), K2, W, OS), {}, RK, dtype=False, n=3, dimsets=ds)
        ck.equiv("detaper of a 1D kernel, " + t, KM + "compute_detaper_dft_seperable", P + "detaper1", (D("npix"), K, W, OS), {}, RK, dtype=False, n=3,
                 dimsets=ds)
        for OS in (1, 2, 3):
            K = A("kernel", (OS * (W + 2),))
            ck.equiv("pack, %s, oversampled %d" % (t, OS), KM + "pack_kernel", P + "pack", (K, W, OS), {}, RK, dtype=False)
            ck.equiv("unpack, %s, oversampled %d" % (t, OS), KM + "unpack_kernel", P + "unpack", (K, W, OS), {}, RK, dtype=False)
    return ck.finish("grids of 4 pixels; rows, channels, values and positions symbolic; kernels of 1 and 3 taps", ["no out-of-grid position for nearest neighbour gridding"], 60)
