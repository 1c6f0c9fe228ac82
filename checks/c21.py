"""C21: Kronecker algebra and covariance functions."""
from sa.harness import A, S

R1 = "value-graph equality with the elementwise definition of the Kronecker product"
R2 = "no matrix extent is stored in an integer type too narrow to hold it"
R3 = "value-graph equality with the documented covariance"
K = "africanus.linalg.kronecker_tools."
G = "africanus.gps."


def run(ck):
    ck.rules = [R1, R2, R3]
    top = 3
    for d in range(1, top + 1):
        sq = ("$oarr", [A("K%d" % i, ("g%d" % i, "g%d" % i)) for i in range(d)])
        rc = ("$oarr", [A("K%d" % i, ("m%d" % i, "g%d" % i)) for i in range(d)])
        n = "*".join("g%d" % i for i in range(d))
        dims = [{**{"g%d" % i: 2 + (i + s) % 3 for i in range(d)}, **{"m%d" % i: 1 + (2 * i + s) % 3 for i in range(d)}, "c": 2} for s in range(3)]
        from sa.terms import mul
        from sa.harness import D
        N = D("g0")
        for i in range(1, d):
            N = mul(N, D("g%d" % i))
        b, B = A("b", (N,)), A("B", (N, "c"))
        ck.equiv("kron_N %d" % d, K + "kron_N", "specs.kron.rows", (rc,), None, R1)
        ck.equiv("kron_matvec %d factors" % d, K + "kron_matvec", "specs.kron.matvec%d" % d, (sq, b), None, R1, dimsets=dims, dtype=False)
        ck.equiv("kron_matmat %d factors" % d, K + "kron_matmat", "specs.kron.matmat%d" % d, (sq, B), None, R1, dimsets=dims, dtype=False)
        ck.equiv("kron_tensorvec %d factors" % d, K + "kron_tensorvec", "specs.kron.matvec%d" % d, (rc, b), None, R1, dimsets=dims, dtype=False)
        ck.equiv("kron_tensormat %d factors" % d, K + "kron_tensormat", "specs.kron.matmat%d" % d, (rc, B), None, R1, dimsets=dims, dtype=False)
        ck.equiv("kron_cholesky %d factors" % d, K + "kron_cholesky", "specs.kron.cholesky", (sq,), None, R1, dimsets=dims, dtype=False)
        for fn, arg in (("kron_N", (rc,)), ("kron_matvec", (sq, b)), ("kron_matmat", (sq, B)), ("kron_tensorvec", (rc, b)), ("kron_tensormat", (rc, B))):
            o = ck.run(K + fn, arg)
            ck.ob("%s extents, %d factors" % (fn, d), "violated" if o.I.narrow else "proved" if o.kind == "value" else "unknown",
                  "matrix extent stored as %s at %s" % o.I.narrow[0] if o.I.narrow else "", K + fn, R2)
    x, xp = A("x", ("N", "D")), A("xp", ("M", "D"))
    ck.equiv("abs_diff", G + "utils.abs_diff", "specs.kron.abs_diff", (x, xp), None, R3, dtype=False)
    ck.equiv("abs_diff vectors", G + "utils.abs_diff", "specs.kron.abs_diff1", (A("x", ("N",)), A("xp", ("M",))), None, R3, dtype=False)
    ck.equiv("exponential_squared", G + "kernels.exponential_squared", "specs.kron.expsq", (x, xp, S("sigma"), S("l")), None, R3, dtype=False)
    ck.equiv("exponential_squared vectors", G + "kernels.exponential_squared", "specs.kron.expsq1", (A("x", ("N",)), A("xp", ("M",)), S("sigma"), S("l")), None, R3, dtype=False)
    ck.equiv("exponential_squared rejects multidimensional spectra", G + "kernels.exponential_squared", "specs.kron.not_implemented",
             (A("x", ("N", 2)), A("x", ("N", 2)), S("sigma"), S("l")), dict(pspec=True), R3)
    grid = {"x": lambda V, i, j: (i * (1 + V.leaf("i", "step")) + (V.leaf("i", "off", i) == 2 if V.leaf("b", "irr") else 0)) * 0.5}
    u = A("x", ("N", 1))
    ck.equiv("power spectrum on one grid", G + "kernels.exponential_squared", "specs.kron.pspec", (u, u, S("sigma"), S("l")), dict(pspec=True), R3,
             sargs=(u, u, S("sigma"), S("l")), skw={}, dtype=False, dimsets=[{"N": 2}, {"N": 3}, {"N": 4}], inputs=grid, n=24, raises=True)
    other = dict(grid, xp=lambda V, i, j: grid["x"](V, i, j) + (V.leaf("i", "xp", i) == 1))
    ck.equiv("power spectrum on two grids", G + "kernels.exponential_squared", "specs.kron.pspec", (u, A("xp", ("N", 1)), S("sigma"), S("l")), dict(pspec=True),
             R3, sargs=(u, A("xp", ("N", 1)), S("sigma"), S("l")), skw={}, dtype=False, dimsets=[{"N": 2}, {"N": 3}, {"N": 4}], inputs=other, n=24, raises=True)
    return ck.finish("factor matrices of any size, one to three factors; coordinates of any number and dimension", ["cholesky is an uninterpreted function of its matrix"], 20)
