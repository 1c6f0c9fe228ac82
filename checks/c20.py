"""C20: feed rotations, source transforms, beams and Zernike effects follow their documented formulas."""
from sa.harness import A, S
from sa.rint import _hash
from .c07 import abstract

R = "value-graph equality of the summary with the documented formula"
RR = "an error is raised on exactly the documented condition"
P = "specs.effects."
M = "africanus.rime."
PARALLEL = True


def h(V, tag, *ix):
    return _hash(V.seed, tag, ix)[0]


def boxes(I):
    I.boxsize = 2


# planes at increasing frequencies; samples below, on, between and above them; an extent that increases
BEAM = {"bfm": lambda V, i: 1. + i + h(V, "bf", i) % 3 / 8., "frequency": lambda V, i: h(V, "fr", i) % 48 / 8. if h(V, "on", i) % 3 else 1. + h(V, "bf", 0) % 3 / 8.,
        "ext": lambda V, i, j: (-1. if j == 0 else 1.5) + h(V, "ex", i) % 3 / 8., "lm": lambda V, *i: h(V, "lm", *i) % 9 / 4. - 1,
        "pe": lambda V, *i: h(V, "pe", *i) % 3 / 8., "as": lambda V, *i: .5 + h(V, "as", *i) % 3 / 4.,
        "beam": lambda V, *i: complex(h(V, "br", *i) % 5 - 2, h(V, "bi", *i) % 5 - 2)}


def run(ck):
    ck.rules = [R, RR]
    n = 12 if ck.tier == "quick" else 80
    for ft in ("linear", "circular"):
        for dt in ("float32", "float64"):
            for k in (1, 2):
                ck.equiv("feed rotation, %s, %s, %d axes" % (ft, dt, k), M + "feeds.feed_rotation", P + "%s%d" % (ft, k),
                         (A("pa", ("time", "ant")[:k], dt),), {"feed_type": ft}, R, skw={}, dtype=False)
    ck.equiv("feed rotation, default", M + "feeds.feed_rotation", P + "linear2", (A("pa", ("time", "ant"), "float64"),), {}, R, dtype=False)
    ck.equiv("feed rotation, unknown feeds", M + "feeds.feed_rotation", "specs.common.value_error", (A("pa", ("time",), "float64"),), {"feed_type": "square"}, RR)
    ck.equiv("feed rotation, integers", M + "feeds.feed_rotation", "specs.common.value_error", (A("pa", ("time",), "int64"),), {}, RR)
    lm, pa, fr = A("lm", ("source", 2)), A("pa", ("time", "ant")), A("frequency", ("chan",))
    ck.equiv("source transform", M + "transform.transform_sources", P + "transform_sources",
             (lm, pa, A("pe", ("time", "ant", 2)), A("as", ("ant", "chan")), fr), {}, R, dtype=False)
    ts, ps, fc = A("times", ("time",)), A("positions", ("ant", 3)), A("fc", (2,))
    ck.equiv("parallactic angles for tests", M + "parangles.parallactic_angles", P + "test_angles", (ts, ps, fc), {"backend": "test"}, R,
             sargs=(ts, ps), skw={}, dtype=False)
    ck.equiv("parallactic angles, unknown backend", M + "parangles.parallactic_angles", "specs.common.value_error", (ts, ps, fc), {"backend": "other"}, RR)
    ck.equiv("parallactic angles, several field centres", M + "parangles.parallactic_angles", "specs.common.value_error",
             (ts, ps, A("fc", (3,))), {"backend": "test"}, RR)
    ck.equiv("parallactic angles, field centre of two axes", M + "parangles.parallactic_angles", "specs.common.value_error",
             (ts, ps, A("fc", (1, 2))), {"backend": "test"}, RR)
    for j in list(range(17)) + [21]:
        ck.equiv("Zernike polynomial %d" % j, M + "zernike.zernike", P + "noll", (j, S("rho"), S("phi")), {}, R, n=n,
                 inputs={"rho": lambda V: h(V, "rho") % 13 / 10.}, dtype=False)
    co = A("coords", (3, "source", "time", "ant", "chan"))
    for k in (1, 2, 3, "poly"):
        ck.equiv("Zernike effects, %s polynomials" % k, M + "zernike.zernike_dde", P + "zernike_dde",
                 (co, A("coeffs", ("ant", "chan", "corr", k), "c"), A("noll", ("ant", "chan", "corr", k), "i")), {}, R, setup=abstract, ssetup=abstract,
                 n=n, dtype=False)
    ck.equiv("Zernike effects, two correlation axes", M + "zernike.zernike_dde", P + "zernike_dde2",
             (co, A("coeffs", ("ant", "chan", 2, 2, 2), "c"), A("noll", ("ant", "chan", 2, 2, 2), "i")), {}, R, setup=abstract, ssetup=abstract, n=n, dtype=False)
    for nc in (1, 2):
        a = (A("beam", ("bl", "bm", "bn", nc), "c"), A("ext", (2, 2)), A("bfm", ("bn",)), lm, pa, A("pe", ("time", "ant", "chan", 2)),
             A("as", ("ant", "chan", 2)), fr)
        ck.equiv("beam cube, %d correlations" % nc, M + "fast_beam_cubes.beam_cube_dde", P + "beam_cube", a, {}, R, setup=boxes, ssetup=boxes, n=2 * n,
                 inputs=BEAM, dimsets=[dict(bl=2, bm=3, bn=2), dict(bl=3, bm=2, bn=3), dict(bl=4, bm=3, bn=4)], dtype=False)
    for t, d in (("l", (1, 3, 3)), ("m", (3, 1, 3)), ("frequency", (3, 3, 1))):
        ck.equiv("beam cube of one plane in " + t, M + "fast_beam_cubes.beam_cube_dde", "specs.common.value_error",
                 (A("beam", d + (1,), "c"), A("ext", (2, 2)), A("bfm", (d[2],)), lm, pa, A("pe", ("time", "ant", "chan", 2)), A("as", ("ant", "chan", 2)), fr), {}, RR)
    return ck.finish("rotations and transforms for any number of times, antennas and channels; Zernike polynomials 0 to 16 and 21; beam cubes of any size", [], 40)
