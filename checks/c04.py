"""C04: the phase-only solver's Hessian, gradient and update are those of the least-squares problem."""
import cmath
from sa.harness import A, S
from .c03 import h, INPUTS, DIMS, BASE, MODES, arrays

R = "value-graph equality with J^H J and J^H r of the phase derivatives of G_p M G_q^H, and the Gauss-Newton update phi + J^H r / (2 J^H J)"
RR = "an error is raised on exactly the documented condition"
F = "africanus.calibration.phase_only.phase_only."
P = "specs.calibration."


def near(tag, mod, ph):
    def f(V, *i):
        x, y = h(V, tag, *i) % 1001 / 1000., h(V, tag + "'", *i) % 1001 / 1000.
        return cmath.rect(1 + mod * (x - .5), ph * (y - .5))
    return f


# in the solver every antenna of every bin has data (the division by the Hessian is then defined), and steps are of the order of the tolerance
SOLVER = dict(INPUTS, ant1=lambda V, i: 0, ant2=lambda V, i: 1, flag=lambda V, *i: 0, tbc=lambda V, i: V.dim("row") - i if i + 1 == V.dim("time") else 1,
              tbi=lambda V, i: i, jones=near("g", 0, 1.), vis=near("v", .2, .6), model=near("m", .2, .6),
              weight=lambda V, *i: .5 + h(V, "w", *i) % 7, maxiter=lambda V: 1 + V.seed % 3,
              tol=lambda V: [1e-4, .01, .05, .1, .2][h(V, "tol") % 5])


PARALLEL = True


def run(ck):
    ck.rules = [R, RR]
    n = 12 if ck.tier == "quick" else 60
    kw = dict(inputs=INPUTS, dimsets=DIMS, n=n, raises=True, dtype=False)
    for mode in ("scalar", "one correlation", "two correlations"):
        a = arrays(*MODES[mode])
        res = A("residual", a["vis"][2], "c")
        ck.equiv("Hessian, " + mode, F + "compute_jhj", P + "jhj", BASE + (a["jones"], a["model"], a["flag"]), None, R, **kw)
        ck.equiv("gradient, " + mode, F + "compute_jhr", P + "jhr", BASE + (a["jones"], res, a["model"], a["flag"]), None, R, **kw)
        ck.equiv("both, " + mode, F + "compute_jhj_and_jhr", P + "jhj_and_jhr", BASE + (a["jones"], res, a["model"], a["flag"]), None, R, **kw)
        w = A("weight", a["vis"][2])
        for it in (1, S("maxiter", "i")) if mode == "one correlation" or ck.tier != "quick" else (1,):
            ck.equiv("at most %s iterations, %s" % (it if it == 1 else "maxiter", mode), F + "gauss_newton", P + "gauss_newton",
                     BASE + (a["jones"], a["vis"], a["flag"], a["model"], w), {"tol": S("tol"), "maxiter": it}, R,
                     **dict(kw, inputs=SOLVER, dimsets=[dict(row=r, time=t, ant=2, chan=1, dir=1, corr=k) for r, t, k in
                                                        ((2, 1, 1), (2, 2, 1), (3, 1, 2))]))
    for mode in ("diagonal gains", "full gains"):
        a = arrays(*MODES[mode])
        res, w = A("residual", a["vis"][2], "c"), A("weight", a["vis"][2])
        ck.equiv("both, " + mode, F + "compute_jhj_and_jhr", P + "not_implemented", BASE + (a["jones"], res, a["model"], a["flag"]), None, RR)
        ck.equiv("solver, " + mode, F + "gauss_newton", P + "not_implemented", BASE + (a["jones"], a["vis"], a["flag"], a["model"], w), None, RR)
    return ck.finish("scalar, one- and two-correlation gains, any number of rows, bins, antennas, channels and directions; the solver for one "
                     "iteration, and for symbolic tolerance and iteration limit as a recurrence over the gains", ["time bins are contiguous and in row order"], 6)
