"""Direction cosines, from the documentation (n itself is returned, not n - 1)."""
import numpy as np
from africanus.coordinates.coordinates import radec_to_lmn as to_lmn, radec_to_lm as to_lm, lmn_to_radec as from_lmn, lm_to_radec as from_lm


def lm_of(ra, dec, ra0, dec0):
    l = np.cos(dec) * np.sin(ra - ra0)
    m = np.sin(dec) * np.cos(dec0) - np.cos(dec) * np.sin(dec0) * np.cos(ra - ra0)
    return l, m


def radec_to_lmn(radec, pc):
    out = np.empty((radec.shape[0], 3), radec.dtype)
    for s in range(radec.shape[0]):
        l, m = lm_of(radec[s, 0], radec[s, 1], pc[0], pc[1])
        out[s, 0] = l
        out[s, 1] = m
        out[s, 2] = np.sqrt(1 - l * l - m * m)
    return out


def radec_to_lm(radec, pc):
    out = np.empty((radec.shape[0], 2), radec.dtype)
    for s in range(radec.shape[0]):
        l, m = lm_of(radec[s, 0], radec[s, 1], pc[0], pc[1])
        out[s, 0] = l
        out[s, 1] = m
    return out


def lmn_to_radec(lmn, pc):
    out = np.empty((lmn.shape[0], 2), lmn.dtype)
    c = np.cos(pc[1])
    s0 = np.sin(pc[1])
    for s in range(lmn.shape[0]):
        l = lmn[s, 0]
        m = lmn[s, 1]
        n = lmn[s, 2]
        out[s, 0] = pc[0] + np.arctan2(l, n * c - m * s0)
        out[s, 1] = np.arcsin(m * c + n * s0)
    return out


def lm_to_radec(lm, pc):
    lmn = np.empty((lm.shape[0], 3), lm.dtype)
    for s in range(lm.shape[0]):
        lmn[s, 0] = lm[s, 0]
        lmn[s, 1] = lm[s, 1]
        lmn[s, 2] = np.sqrt(1 - lm[s, 0] ** 2 - lm[s, 1] ** 2)
    return lmn_to_radec(lmn, pc)


def origin(a):
    return np.zeros(2, a.dtype)


def radec_to_lmn0(radec):
    return radec_to_lmn(radec, origin(radec))


def radec_to_lm0(radec):
    return radec_to_lm(radec, origin(radec))


def lmn_to_radec0(lmn):
    return lmn_to_radec(lmn, origin(lmn))


def lm_to_radec0(lm):
    return lm_to_radec(lm, origin(lm))


def there_and_back(radec, pc):
    return from_lmn(to_lmn(radec, pc), pc), from_lm(to_lm(radec, pc), pc)


def unchanged(radec, pc):
    return radec, radec


def consistent(radec, pc):
    """the first two components of lmn are lm"""
    return to_lmn(radec, pc)[:, :2]


def value_error(*a, **k):
    raise ValueError("shape")
