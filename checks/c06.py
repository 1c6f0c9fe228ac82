"""C06: averaged rows, channels and visibilities are the documented (weighted) sums and means."""
import itertools
from sa.harness import A, S, Lazy, D
from sa.rint import _hash
from sa.values import NT

R = "value-graph equality with the documented sums, means and weighted means over the samples mapped to each bin"
RM = "value-graph equality with the documented flag merging; error on exactly the documented condition"
RC = "composition: every output is the documented average over the documented mapping"
G = "africanus.averaging.time_and_channel_avg."
M = "africanus.averaging.time_and_channel_mapping."
P = "specs.averaging."


def h(V, tag, *ix):
    return _hash(V.seed, tag, ix)[0]


def n_out(V):
    return V.dim("out")


def rmap(V, i):
    return i if i < V.dim("out") else h(V, "m", i) % V.dim("out")


def cmap(V, i):
    return i if i < V.dim("ochan") else h(V, "c", i) % V.dim("ochan")


def rflag(V, i):
    return h(V, "f", i) % 2 * (1 + h(V, "g", i) % 2)


def oflag(V, o):
    return int(all(rflag(V, i) for i in range(V.dim("row")) if rmap(V, i) == o))


INP = {"map": rmap, "cmap": cmap, "flag_row": rflag, "out_flag": oflag,
       "flag": lambda V, r, f, c: 1 if V.seed % 2 and h(V, "F", r, f, c) % 3 else h(V, "F", r, f, c) % 2,
       "weight": lambda V, *ix: 0.5 + h(V, "w", *ix) % 5, "weight_spectrum": lambda V, *ix: 0.5 + h(V, "W", *ix) % 5,
       "sigma": lambda V, *ix: 0.5 + h(V, "s", *ix) % 5, "sigma_spectrum": lambda V, *ix: 0.5 + h(V, "S", *ix) % 5}
DIMS = [{"row": 3, "out": 2, "chan": 3, "ochan": 2, "corr": 1}, {"row": 4, "out": 2, "chan": 2, "ochan": 1, "corr": 2},
        {"row": 3, "out": 1, "chan": 2, "ochan": 2, "corr": 2}, {"row": 5, "out": 3, "chan": 4, "ochan": 2, "corr": 1}]


def meta(flags):
    def build(I):
        c = I.getfunc(M + "RowMapOutput")
        z = [I.input_array("map", (D("row"),), "i"), I.input_array("mtime", (D("out"),), "f"),
             I.input_array("minterval", (D("out"),), "f"), I.input_array("out_flag", (D("out"),), "i") if flags else None]
        return NT(c, z)
    return Lazy(build)


PARALLEL = True


def run(ck):
    ck.rules = [R, RM, RC]
    n = 12 if ck.tier == "quick" else 40
    row, rc, ch = ("row",), ("row", "chan", "corr"), ("chan",)
    a1, a2 = A("ant1", row, "i"), A("ant2", row, "i")
    # samples of a bin are of one baseline
    inp = dict(INP, ant1=lambda V, i: 10 + rmap(V, i), ant2=lambda V, i: 20 + rmap(V, i))
    cols = {"time_centroid": A("time_centroid", row), "exposure": A("exposure", row), "uvw": A("uvw", ("row", 3)),
            "weight": A("weight", ("row", "corr")), "sigma": A("sigma", ("row", "corr"))}
    sets = [(), tuple(cols), ("sigma",), ("weight",), ("weight", "sigma"), ("time_centroid",), ("exposure",), ("uvw",)]
    for fl in (False, True):
        for s in sets:
            kw = {k: cols[k] for k in s}
            if fl:
                kw["flag_row"] = A("flag_row", row, "i")
            ck.equiv("row average of %s%s" % ("+".join(s) or "antennas", " with flags" if fl else ""), G + "row_average", P + "row_average",
                     (meta(fl), a1, a2), kw, R, inputs=inp, dimsets=DIMS, n=n)
    cm = (A("cmap", ch, "i"), D("ochan"))
    cc = {k: A(k, ch) for k in ("chan_freq", "chan_width", "effective_bw", "resolution")}
    for k in range(5):
        for s in itertools.combinations(cc, k) if k in (0, 1, 4) or ck.tier != "quick" else ():
            ck.equiv("channel average of " + ("+".join(s) or "nothing"), G + "chan_average", P + "chan_average", (cm,),
                     {x: cc[x] for x in s}, R, inputs=INP, dimsets=DIMS, n=n)
    vc = {"vis": A("vis", rc, "c"), "flag": A("flag", rc, "i"), "weight_spectrum": A("weight_spectrum", rc),
          "sigma_spectrum": A("sigma_spectrum", rc), "weight": A("weight", ("row", "corr"))}
    sets = [("vis",), ("vis", "flag"), ("vis", "weight"), ("vis", "weight_spectrum"), ("flag",), ("sigma_spectrum",),
            ("sigma_spectrum", "weight"), ("sigma_spectrum", "weight_spectrum"), ("weight_spectrum",), tuple(vc),
            ("vis", "flag", "weight"), ("sigma_spectrum", "flag"), ("weight_spectrum", "flag")]
    for fl in (False, True):
        for s in sets:
            kw = {k: vc[k] for k in s}
            if fl:
                kw["flag_row"] = A("flag_row", row, "i")
            ck.equiv("row and channel average of %s%s" % ("+".join(s), " with flags" if fl else ""), G + "row_chan_average",
                     P + "row_chan_average", (meta(fl), cm), kw, R, inputs=INP, dimsets=DIMS, n=n)
    fr, fg = A("flag_row", row, "i"), A("flag", rc, "i")
    fi = {"flag_row": lambda V, i: h(V, "f", i) % 2, "flag": lambda V, r, f, c: h(V, "f", r) % 2 if V.seed % 2 else h(V, "F", r, f, c) % 2}
    for t, args, sp in (("both", (fr, fg), "merge_both"), ("flag", (None, fg), "merge_flag"), ("flag_row", (fr, None), "merge_row"),
                        ("neither", (None, None), "merge_none")):
        ck.equiv("merged flags from " + t, G + "merge_flags", P + sp, args, None, RM, inputs=fi, dimsets=DIMS, n=2 * n, raises=True)
    # the whole of it
    tm, iv = A("time", row, "float64"), A("interval", row)
    b1, b2 = A("ant1", row, "int32"), A("ant2", row, "int32")
    inp = dict(INP, **{"time": lambda V, i: 1. + (i // 2 * 3 + V.seed) % 5, "interval": lambda V, i: 1., "ant1": lambda V, i: 0,
                       "ant2": lambda V, i: i % 2, "tb": lambda V: [1., 2., 3.][h(V, "tb") % 3], "cb": lambda V: 1 + h(V, "cb") % 3})
    fr = {"flag_row": A("flag_row", row, "i")}
    rs, xs = {k: vc[k] for k in ("vis", "weight")}, {k: vc[k] for k in ("weight_spectrum", "sigma_spectrum")}
    jobs = [("row columns", dict(cols, **fr), {}), ("channel columns", dict(cc), {}), ("vis, weight", dict(rs, **fr), {}),
            ("spectra", xs, {}), ("nothing else", {}, {})]
    ds = [{"row": 4, "chan": 3, "corr": 1}, {"row": 5, "chan": 2, "corr": 2}]
    if ck.tier != "quick":
        jobs.append(("vis, spectra", dict(xs, vis=vc["vis"], **fr), {}))
        jobs.append(("flag", {"flag": vc["flag"]}, {}))
        jobs.append(("vis, flag", {"flag": vc["flag"], "vis": vc["vis"]}, dict(n=3)))
    for t, kw, o in jobs:
        ck.equiv("time_and_channel of " + t, G + "time_and_channel", P + "time_and_channel", (tm, iv, b1, b2),
                 dict(kw, time_bin_secs=S("tb"), chan_bin_size=S("cb", "i")), RC, inputs=inp, dimsets=ds, raises=True, **dict(dict(n=3), **o))
    ck.equiv("time_and_channel, default bins", G + "time_and_channel", P + "time_and_channel", (tm, iv, b1, b2), dict(rs), RC,
             inputs=inp, dimsets=ds, raises=True, n=4)
    return ck.finish("every combination of flagging with the columns listed; rows, channels, correlations and bins of any number",
                     ["arrays hold exact numbers", "weights do not sum to zero in any bin", "every bin has a sample"], 20)
