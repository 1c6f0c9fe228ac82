"""C08: a dask array announces the shape, chunks and data type that computing it produces."""
from sa.daskmodel import DArr
from sa.values import Arr, View, NT
from sa.terms import Poly, add, neg, ZERO
from .c07 import table, CHUNKS, abstract, heavy

RS = "the declared chunk sizes of the result are the sizes of the arrays its tasks return"
RD = "the declared data type of the result is the type of the arrays its tasks return"
WIDE = {"f": "float64", "c": "complex128", "i": "int64", "b": "bool"}
NARROW = {"f": "float32", "c": "complex64", "i": "int32", "b": "bool"}


def retype(x, kinds, wide):
    if isinstance(x, tuple) and len(x) == 4 and x[0] == "$da":
        k = {"float64": "f"}.get(x[3], x[3])
        if k == "?":
            return x
        return x[:3] + ((WIDE if x[1] in wide or "*" in wide else NARROW)[k],)
    return x


def names(args, kw):
    for x in list(args) + list(kw.values()):
        if isinstance(x, tuple) and len(x) == 4 and x[0] == "$da" and x[3] in ("f", "c", "float64"):
            yield x[1]


def arrays(v):
    if isinstance(v, DArr):
        return [v]
    if isinstance(v, NT):
        v = v.vals
    if isinstance(v, (tuple, list)):
        return [y for x in v for y in arrays(x)]
    return []


PARALLEL = True


def run(ck):
    ck.rules = [RS, RD]
    for cname in ("one chunk", "chunks of all"):
        for name, f, g, args, kw in table(*CHUNKS[cname], ck.tier):
            if heavy(name, cname, ck.tier) or "streams" in kw and cname != "one chunk":
                continue
            ws = [("all single", ()), ("all double", ("*",))]
            if cname == "one chunk":
                ws += [("%s double" % n, (n,)) for n in names(args, kw)]
            for wname, wide in ws:
                a = tuple(retype(x, None, wide) for x in args)
                k = {n: retype(x, None, wide) for n, x in kw.items()}
                ck.timed("%s, %s, %s" % (name, cname, wname), lambda nm: one(ck, nm, f, a, k))
    return ck.finish("the blocks of every array returned by the dask functions, for single and double precision inputs and mixtures of them", [], 100)


def one(ck, nm, f, a, k):
    o = ck.run(f, a, k, abstract)
    where = ck.locate(o, f)
    if o.kind != "value":
        ck.ob(nm, "unknown", o.why, where, RS)
        return
    ds = arrays(o.value)
    if not ds:
        ck.ob(nm, "unknown", "no dask array is returned", where, RS)
    for i, d in enumerate(ds):
        t = nm if len(ds) == 1 else "%s [%d]" % (nm, i)
        bad, unk = None, None
        if not d.blocks:
            ck.ob(t, "unknown", "blocks not known", where, RS)
            continue
        for key, b in d.blocks.items():
            if not isinstance(b, (Arr, View)):
                unk = "block %s is %s" % (key, type(b).__name__)
                continue
            want = [d.chunks[j][q] for j, q in enumerate(key)]
            if len(want) != len(b.shape):
                bad = bad or (RS, "block %s has %d axes, declared %d" % (key, len(b.shape), len(want)))
            else:
                for j, (x, y) in enumerate(zip(want, b.shape)):
                    if x != y and add(x, neg(y)) != ZERO:
                        bad = bad or (RS, "block %s, axis %d: declared %s, computed %s" % (key, j, x, y))
            if d.dtype is None or d.dtype.concrete() is None or b.dtype is None or b.dtype.concrete() is None:
                unk = "data type of block %s: declared %r, computed %r" % (key, d.dtype, b.dtype)
            elif d.dtype != b.dtype:
                bad = bad or (RD, "block %s: declared %r, computed %r" % (key, d.dtype, b.dtype))
        if bad:
            ck.ob(t, "violated", bad[1], where, bad[0])
        else:
            ck.ob(t, "unknown" if unk else "proved", unk or "", where, RD)
