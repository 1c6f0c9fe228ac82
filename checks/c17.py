"""C17: chunk aggregation partitions its input; correlation shapes."""
from sa.harness import S

RULE = "guarded-sequence equality with greedy aggregation under the documented bound"
M = "africanus.util.shapes."


def fit(names, mx):
    """sizes 0..max of the dimension"""
    def mk(nm):
        if not nm.endswith("0"):    # later chunks may exceed the maximum by themselves
            return lambda V: V.leaf("i", "sz", nm) * 2 + V.leaf("i", "sz2", nm) * 3 + V.leaf("i", "sz3", nm) * 2
        return lambda V: V.leaf("i", "sz", nm) * 2 + V.leaf("i", "sz2", nm)      # 0..6
    d = {n: mk(n) for n in names}
    d[mx] = lambda V: 6 + V.leaf("i", "mx", mx) * 2 + V.leaf("i", "mx2", mx)     # 6..12: no single chunk exceeds it
    return d


def run(ck):
    ck.rules = [RULE]
    top = 4 if ck.tier == "quick" else 5
    for n in range(1, top + 1):
        a = ["a%d" % i for i in range(n)]
        b = ["b%d" % i for i in range(n)]
        inp = fit(a, "m")
        inp.update(fit(b, "n"))
        A, B = tuple(S(x, "i") for x in a), tuple(S(x, "i") for x in b)
        m, k = S("m", "i"), S("n", "i")
        ck.equiv("aggregate_chunks 1 dimension, %d chunks" % n, M + "aggregate_chunks", "specs.shapes.aggregate1", (A, m), None, RULE,
                 inputs=inp, n=60)
        ck.equiv("aggregate_chunks 1 dimension as sequence, %d chunks" % n, M + "aggregate_chunks", "specs.shapes.aggregate1", ((A,), (m,)), None, RULE,
                 sargs=(A, m), inputs=inp, n=60)
        if n <= 3 or ck.tier != "quick":
            ck.equiv("aggregate_chunks 2 dimensions, %d chunks" % n, M + "aggregate_chunks", "specs.shapes.aggregate2", ((A, B), (m, k)), None, RULE,
                     inputs=inp, n=60)
    s = lambda *x: tuple(S(y, "i") for y in x)
    ck.equiv("aggregate_chunks rejects unequal dimensions", M + "aggregate_chunks", "specs.shapes.value_error",
             ((s("a", "b"), s("c", "d")), (S("m", "i"),)), None, RULE)
    ck.equiv("aggregate_chunks rejects unequal chunk counts", M + "aggregate_chunks", "specs.shapes.value_error",
             ((s("a", "b"), s("c")), s("m", "n")), None, RULE)
    for nc in (1, 2, 3, 4, 5):
        for kind in ("flat", "matrix", "square"):
            ck.equiv("corr_shape(%d, %s)" % (nc, kind), M + "corr_shape", "specs.shapes.corr_shape", (nc, kind), None, RULE)
    ck.equiv("corr_shape(n, flat)", M + "corr_shape", "specs.shapes.corr_shape", (S("nc", "i"), "flat"), None, RULE)
    return ck.finish("chunk sizes and maxima symbolic; chunk counts 1..%d in one and two dimensions; every correlation count and layout" % top,
                     ["the first input chunk does not by itself exceed the requested maximum"], 20)
