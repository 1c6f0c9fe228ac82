"""C13: the wide-field gridder operators map each channel band to its own image and only that."""
from sa.harness import A, DA, S, D, whole
from sa.values import DType

RULE = "value-graph equality of the operator with the band-wise Fourier sum of its documentation (external ms2dirty/dirty2ms by contract)"
W = "africanus.gridding.wgridder."
DS = [dict(band_a=1, band_b=1, chan_a=2, chan_b=3, band=2, chan=3), dict(band_a=2, band_b=1, chan_a=3, chan_b=2, band=1, chan=2),
      dict(band_a=1, band_b=2, chan_a=1, chan_b=3, band=2, chan=2)]


def bins(V, which, i):
    out, st = [], 0
    for n, tot in ((V.dim("band_a"), V.dim("chan_a")), (V.dim("band_b"), V.dim("chan_b"))):
        for k in range(n):
            c = 1 if k < n - 1 else tot - (n - 1)
            out.append((st, c))
            st += c
    return out[i][which] if 0 <= i < len(out) else 0


def arrays(mk, r, c, b, cd):
    return dict(uvw=mk("uvw", (r, 3)), freq=mk("freq", (c,)), img=mk("image", (b, "nx", "ny")), vis=mk("vis", (r, c), cd),
                bi=mk("fbi", (b,), "i"), bc=mk("fbc", (b,), "i"), w=mk("weights", (r, c)), fl=mk("flag", (r, c), "i"))


def calls(a, cell):
    g = (a["uvw"], a["freq"])
    return (("model", "im2vis", g + (a["img"], a["bi"], a["bc"], cell), {}),
            ("dirty", "vis2im", g + (a["vis"], a["bi"], a["bc"], D("nx"), D("ny"), cell), dict(double_accum=S("da", "b"))),
            ("residual", "im2residim", g + (a["img"], a["vis"], a["bi"], a["bc"], cell), dict(double_accum=S("da", "b"))),
            ("hessian", "hessian", g + (a["img"], a["bi"], a["bc"], cell), dict(double_accum=S("da", "b"))))


def options(a, tier):
    full = dict(weights=a["w"], flag=a["fl"], celly=S("celly"), epsilon=S("eps"), nthreads=S("nthreads", "i"), do_wstacking=S("ws", "b"))
    yield "none", {}
    yield "all", full
    for k in ("weights", "flag", "celly"):
        yield k, {k: full[k]}
    if tier == "thorough":
        for k in ("epsilon", "nthreads", "do_wstacking"):
            yield k, {k: full[k]}
        yield "weights+flag", {k: full[k] for k in ("weights", "flag")}


PARALLEL = True


def run(ck):
    ck.rules = [RULE]
    cell = S("cell")
    for cd in (("complex128",) if ck.tier == "quick" else ("complex128", "complex64")):
        a = arrays(A, "row", "chan", "band", DType([cd]))
        for oname, kw in options(a, ck.tier):
            for name, mod, args, dkw in calls(a, cell):
                k = dict(kw, **dkw) if oname == "all" else kw
                ck.equiv("%s[%s,%s]" % (name, oname, cd), W + "%s.%s" % (mod, name), "specs.wgrid." + name, args, k, RULE)
    for tag, r, c, b in (("one chunk", "row", "chan", "band"), ("2x2 chunks", ["row_a", "row_b"], ["chan_a", "chan_b"], ["band_a", "band_b"])):
        a = arrays(DA, r, c, b, DType(["complex128"]))
        inp = {"fbi": lambda V, i: bins(V, 0, i), "fbc": lambda V, i: bins(V, 1, i)} if tag != "one chunk" else None
        for oname, kw in options(a, ck.tier):
            if tag != "one chunk" and oname not in ("none", "all") and ck.tier == "quick":
                continue
            for name, mod, args, dkw in calls(a, cell):
                k = dict(kw, **dkw) if oname == "all" else kw
                ck.equiv("dask %s[%s,%s]" % (name, oname, tag), W + "dask." + name, "specs.wgrid." + name, args, k, RULE,
                         sargs=[whole(x) for x in args], skw={n: whole(v) for n, v in k.items()}, inputs=inp, dimsets=DS, n=9)
    return ck.finish("the four operators, numpy and dask, summarised for every number of rows, channels, bands and pixels (numpy and one "
                     "chunk: closed form; several chunks: chunk boundaries symbolic, agreement of the closed forms by random interpretation)",
                     ["ducc0 computes the discrete Fourier sum of its documentation, to its requested accuracy",
                      "the frequency bins are contiguous and follow the channel chunks, as documented"], 20)
