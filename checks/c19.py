"""C19: cubic splines."""
from sa.harness import A, S
from sa.rint import _hash

RF = "value-graph identity: misfit, jumps of slope and curvature and deviation from the end conditions are all zero"
RE = "value-graph equality with the derivative of the piece around each position"
RR = "an error is raised on exactly the documented condition"
M = "africanus.averaging.splines."
P = "specs.splines."
PARALLEL = True


def h(V, tag, *ix):
    return _hash(V.seed, tag, ix)[0]


INPUTS = {"x": lambda V, i: i + h(V, "x", i) % 7 / 9., "y": lambda V, i: h(V, "y", i) % 23 / 5. - 2.,
          "p": lambda V, i: h(V, "p", i) % 60 / 10. - 1. + .013, "lv": lambda V: h(V, "lv") % 9 / 7. - .5, "rv": lambda V: h(V, "rv") % 9 / 7. - .5}


def run(ck):
    ck.rules = [RF, RE, RR]
    quick = ck.tier == "quick"
    for n in (2, 3, 4):
        x, y = A("x", (n,)), A("y", (n,))
        for lt in (1, 2):
            for rt in (1, 2):
                if n > 3 and rt == 1 and quick:       # the identity grows too large
                    continue

                def post(I, r, a, k):
                    return I.call(I.getfunc(P + "residual"), [r] + a, {})
                ck.equiv("fit, %d points, ends of type %d and %d" % (n, lt, rt), M + "fit_cubic_spline", P + "zeros", (x, y, lt, rt, S("lv"), S("rv")), {}, RF,
                         sargs=(n,), skw={}, post=post, spost=lambda I, r, a, k: r, dtype=False, n=6, inputs=INPUTS)

        def dflt(I, r, a, k):
            return I.call(I.getfunc(P + "natural"), [r] + a, {})
        ck.equiv("fit, %d points, default ends" % n, M + "fit_cubic_spline", P + "zeros", (x, y), {}, RF, sargs=(n,), skw={}, post=dflt, spost=lambda I, r, a, k: r,
                 dtype=False, n=6, inputs=INPUTS)
    for n in (2, 3, 4):
        sp = tuple(A(k, (n,)) for k in ("ma", "mb", "mc", "x", "y"))
        for order in (0, 1, 2):
            ck.equiv("evaluate, %d points, order %d" % (n, order), M + "evaluate_spline", P + "evaluate", (sp, A("p", ("np",)), order), {}, RE, dtype=False, n=20, inputs=INPUTS,
                     dimsets=[{"np": 1}, {"np": 3}])
    x, y = A("x", (4,)), A("y", (4,))
    for lt, rt in ((0, 2), (2, 0), (1, 3), (3, 1)):
        ck.equiv("fit rejects ends of type %d and %d" % (lt, rt), M + "fit_cubic_spline", "specs.common.any_error", (x, y, lt, rt), {}, RR, skw={})
    ck.equiv("evaluate rejects order 3", M + "evaluate_spline", "specs.common.any_error", (tuple(A(k, (4,)) for k in ("ma", "mb", "mc", "x", "y")), A("p", ("np",)), 3), {}, RR, skw={})
    return ck.finish("2 to 4 points, values, positions and end values symbolic", ["positions of the points increase"], 20)
