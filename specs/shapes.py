"""Chunk aggregation and correlation shapes, from the documentation."""


def aggregate1(chunks, max_chunk):
    """merge consecutive chunks greedily while the merged chunk stays within the maximum"""
    out = []
    cur = chunks[0]
    for c in chunks[1:]:
        if cur + c > max_chunk:
            out.append(cur)
            cur = c
        else:
            cur = cur + c
    out.append(cur)
    return tuple(out)


def aggregate2(chunks, max_chunks):
    """several dimensions: merge while every dimension stays within its maximum"""
    a, b = chunks
    m, n = max_chunks
    oa, ob = [], []
    ca, cb = a[0], b[0]
    for i in range(1, len(a)):
        if ca + a[i] > m or cb + b[i] > n:
            oa.append(ca)
            ob.append(cb)
            ca, cb = a[i], b[i]
        else:
            ca, cb = ca + a[i], cb + b[i]
    oa.append(ca)
    ob.append(cb)
    return tuple(oa), tuple(ob)


def total(chunks):
    t = 0
    for c in chunks:
        t += c
    return t


def value_error(*args, **kw):
    raise ValueError("documented")


def corr_shape(ncorr, kind):
    if kind == "flat":
        return (ncorr,)
    if kind == "matrix":
        if ncorr == 1:
            return (1,)
        if ncorr == 2:
            return (2,)
        if ncorr == 4:
            return (2, 2)
    raise ValueError("documented")
