"""C05: rows and channels are mapped to time and channel bins as documented."""
from sa.harness import A, S
from sa.rint import _hash

R = "value-graph equality with the documented binning (greedy bins per baseline, (time, baseline) order), loops as recurrences over whole arrays"
RR = "an error is raised on exactly the documented condition"
M = "africanus.averaging.time_and_channel_mapping."
U = "africanus.averaging.support."
P = "specs.averaging."


def h(V, tag, *ix):
    return _hash(V.seed, tag, ix)[0]


PARALLEL = True


def run(ck):
    ck.rules = [R, RR]
    tm, iv = A("time", ("row",), "float64"), A("interval", ("row",))
    a1, a2 = A("ant1", ("row",), "int32"), A("ant2", ("row",), "int32")
    fr = A("flag_row", ("row",), "i")
    # alternately: one baseline and distinct, evenly spaced times; two baselines seen at every time; anything, with repeats
    def tm_(V, i):
        if V.seed % 3 == 0:
            return 1. + (i * 5 + V.seed) % 7
        if V.seed % 3 == 1:
            return 1. + (i // 2 * 3 + V.seed) % 5
        return [1., 2., 3., 4., 5.][h(V, "t", i) % 5]

    inp = {"time": tm_, "interval": lambda V, i: 1. if V.seed % 3 == 0 else [0.5, 1., 1.5][h(V, "i", i) % 3],
           "ant1": lambda V, i: 0 if V.seed % 3 == 0 or V.seed % 2 else h(V, "a", i) % 2,
           "ant2": lambda V, i: 1 if V.seed % 3 == 0 else i % 2 if V.seed % 3 == 1 else h(V, "b", i) % 2,
           "tb": lambda V: [1., 2., 3., 3.2, 9.][h(V, "tb") % 5],
           "flag_row": lambda V, i: h(V, "f", i) % 2 * (1 + h(V, "g", i) % 2)}
    dims = [{"row": k} for k in (1, 3, 4, 5, 6)]
    n = 24 if ck.tier == "quick" else 80
    for t, kw in (("rows", {}), ("rows, with flag_row", {"flag_row": fr})):
        ck.equiv(t, M + "row_mapper", P + "row_mapper", (tm, iv, a1, a2), dict(kw, time_bin_secs=S("tb")), R, inputs=inp,
                 dimsets=dims, n=n, raises=True, dtype=False)
    ck.equiv("rows, default bin", M + "row_mapper", P + "row_mapper", (tm, iv, a1, a2), {}, R, inputs=inp,
             dimsets=dims, n=n, raises=True, dtype=False)
    dims = [{"row": k} for k in (0, 1, 2, 4, 5)]
    ck.equiv("unique times", U + "unique_time", P + "unique", (tm,), None, R, inputs=inp, dimsets=dims, n=n, dtype=False, raises=True)
    ck.equiv("unique baselines", U + "unique_baselines", P + "unique_baselines", (a1, a2), None, R, inputs=inp, dimsets=dims, n=n,
             dtype=False, raises=True)
    ck.equiv("channels", M + "channel_mapper", P + "channel_mapper", (S("nchan", "i"), S("size", "i")), None, R,
             inputs={"nchan": lambda V: V.seed % 9, "size": lambda V: 1 + h(V, "s") % 5}, n=2 * n, dtype=False)
    ck.equiv("channels, default size", M + "channel_mapper", P + "channel_mapper", (S("nchan", "i"),), None, R, sargs=(S("nchan", "i"), 1),
             inputs={"nchan": lambda V: V.seed % 9}, n=n, dtype=False)
    bad = A("ant1", ("row",), "int64")
    ck.equiv("baselines of other than int32", U + "unique_baselines", P + "value_error", (bad, bad), None, RR)
    ck.equiv("times of other than float", U + "unique_time", P + "value_error", (bad,), None, RR)
    return ck.finish("row mapping for rows of any number of times and baselines, with and without flags, bin lengths symbolic; channel "
                     "mapping for any number of channels and bin size", ["arrays hold exact numbers"], 6)
