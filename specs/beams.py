"""FITS beam axes and filenames, from the documentation."""
import numpy as np


def grid(header, n, sign=1.0):
    """value at each pixel of FITS axis n (one based); degrees become radians"""
    size = header["NAXIS%d" % n]
    crpix = header["CRPIX%d" % n]
    crval = header.get("CRVAL%d" % n, 0)
    cdelt = header.get("CDELT%d" % n, 1)
    if header.get("CUNIT%d" % n, "").strip().upper() == "DEG":
        crval = crval * np.pi / 180
        cdelt = cdelt * np.pi / 180
    out = np.zeros(size)
    for i in range(size):
        out[i] = sign * (crval + (i + 1 - crpix) * cdelt)
    return out


def freq_grid(header, n):
    size = header["NAXIS%d" % n]
    for j in range(1, size + 1):
        if header.get("GFREQ%d" % j) is None:
            return grid(header, n)
    out = np.zeros(size)
    for j in range(size):
        out[j] = header["GFREQ%d" % (j + 1)]
    return out


def beam_grids(header, la, ma, fa, ls=1.0, ms=1.0):
    return (la, grid(header, la, ls)), (ma, grid(header, ma, ms)), (fa, freq_grid(header, fa))


def value_error(*a, **k):
    raise ValueError("documented")


def type_error(*a, **k):
    raise TypeError("documented")


def same(x):
    return x
