"""C24: cell size estimates."""
from sa.harness import A, S, D

R1 = "value-graph equality with the documented formula, error conditions included"
R2 = "error on every path"
F = "africanus.gridding.util.estimate_cell_size"
P = "specs.cells."


def run(ck):
    ck.rules = [R1, R2]
    us = {"array": A("u", ("row",)), "scalar": S("u"), "grid": A("u", ("a", "b"))}
    vs = {"array": A("v", ("row",)), "scalar": S("v"), "grid": A("v", ("a", "b"))}
    ws = {"array": A("wavelength", ("chan",)), "scalar": S("wavelength")}
    f, ny, nx = S("factor"), S("ny", "i"), S("nx", "i")
    opts = {"": {}, " factor": dict(factor=f), " ny": dict(ny=ny), " nx": dict(nx=nx),
            " factor ny nx": dict(factor=f, ny=ny, nx=nx)}
    for un, u in us.items():
        for vn, v in vs.items():
            for wn, w in ws.items():
                if (un == "grid") != (vn == "grid"):
                    continue
                for on, kw in opts.items():
                    ck.equiv("%s/%s/%s%s" % (un, vn, wn, on), F, P + "cell_size", (u, v, w), kw, R1, raises=True, dtype=False, n=24)
    ck.equiv("positional options", F, P + "cell_size", (us["array"], vs["array"], ws["array"], f, ny, nx), None, R1, raises=True, dtype=False, n=24)
    edge = {"u": lambda V: 2.0, "v": lambda V: 4.0, "wavelength": lambda V: 1.0, "factor": lambda V: 0.5}
    for a, b in ((0, 0), (1, 0), (0, 1), (1, 1)):
        ck.equiv("grid exactly as large as needed (ny+%d, nx+%d)" % (a, b), F, P + "cell_size", (S("u"), S("v"), S("wavelength"), f, 1 + a, 1 + b), None, R1,
                 raises=True, dtype=False, n=2, inputs=edge)
    for n, a in (("u", (None, S("v"), S("w"))), ("v", (S("u"), None, S("w"))), ("wavelength", (S("u"), S("v"), None))):
        ck.equiv("rejects missing " + n, F, P + "type_error", a, None, R2)
    return ck.finish("coordinates of any length and either rank or one float, wavelengths array or float, every option combination", [], 10)
