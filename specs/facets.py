"""Facet gridding (polyhedron gridder), from the documentation and the interferometry textbook it cites."""
import numpy as np
from specs.facettables import STOKES, CORRS


def _lmn(ra0, dec0, ra, dec):
    l = np.cos(dec) * np.sin(ra - ra0)
    m = np.sin(dec) * np.cos(dec0) - np.cos(dec) * np.sin(dec0) * np.cos(ra - ra0)
    return l, m


def phase(vis, uvw, lam, ra0, dec0, ra, dec, sign):
    """visibilities moved to the facet centre"""
    l, m = _lmn(ra0, dec0, ra, dec)
    n = np.sqrt(1.0 - l * l - m * m) - 1.0
    path = uvw[0] * l + uvw[1] * m + uvw[2] * n
    out = np.zeros(vis.shape, np.complex128)
    for c in range(vis.shape[0]):
        x = sign * 2.0 * np.pi * path / lam[c]
        for k in range(vis.shape[1]):
            out[c, k] = vis[c, k] * (np.cos(x) + 1j * np.sin(x))
    return out


def phase_plus(vis, uvw, lam, ra0, dec0, ra, dec):
    return phase(vis, uvw, lam, ra0, dec0, ra, dec, 1.0)


def phase_minus(vis, uvw, lam, ra0, dec0, ra, dec):
    return phase(vis, uvw, lam, ra0, dec0, ra, dec, -1.0)


def _T(ra, dec):
    """equatorial to (u, v, w) of a phase centre, left handed"""
    return [[np.cos(ra), -np.sin(ra), 0.0],
            [-np.sin(dec) * np.sin(ra), -np.sin(dec) * np.cos(ra), np.cos(dec)],
            [np.cos(dec) * np.sin(ra), np.cos(dec) * np.cos(ra), np.sin(dec)]]


def rotate(uvw, ra0, dec0, ra, dec):
    """T(new) T(old)^T uvw"""
    old = _T(ra0, dec0)
    new = _T(ra, dec)
    xyz = [old[0][k] * uvw[0] + old[1][k] * uvw[1] + old[2][k] * uvw[2] for k in range(3)]
    out = np.zeros(3, np.float64)
    for k in range(3):
        out[k] = new[k][0] * xyz[0] + new[k][1] * xyz[1] + new[k][2] * xyz[2]
    return out


def planar(uvw, ra0, dec0, ra, dec):
    """facet parallel to the original plane: n linearised about the facet centre"""
    l, m = _lmn(ra0, dec0, ra, dec)
    n = np.sin(dec) * np.sin(dec0) + np.cos(dec) * np.cos(dec0) * np.cos(ra - ra0)
    out = np.zeros(3, np.float64)
    out[0] = uvw[0] - uvw[2] * l / n
    out[1] = uvw[1] - uvw[2] * m / n
    out[2] = uvw[2]
    return out


def unchanged(uvw, *rest):
    out = np.zeros(3, np.float64)
    for k in range(3):
        out[k] = uvw[k]
    return out


def _transform(uvw, how, ra0, dec0, ra, dec):
    if how == "rotate":
        return rotate(uvw, ra0, dec0, ra, dec)
    if how == "wlinapprox":
        return planar(uvw, ra0, dec0, ra, dec)
    return unchanged(uvw)


def _tap(kernel, W, OS, packed, t, frac):
    i = (t + 1) * OS + frac
    if packed:
        return kernel[(i % OS) * (W + 2) + i // OS]
    return kernel[i]


def grid(uvw, vis, lam, chanmap, npix, cell, image, centre, kernel, W, OS, btp, ptp, stokes, conv, normalize):
    """every sample, moved to the facet and converted to the Stokes parameter, spread over the taps around its position"""
    p, q, fp, fq = STOKES[stokes]
    fov = npix * cell / 3600.0 * np.pi / 180.0
    nband = np.max(chanmap) + 1
    out = np.zeros((nband, npix, npix), np.complex128)
    weight = np.zeros(nband, np.float64)
    half = W // 2
    for r in range(vis.shape[0]):
        moved = vis[r]
        if ptp == "phase_rotate":
            moved = phase(vis[r], uvw[r], lam, centre[0], centre[1], image[0], image[1], 1.0)
        at = _transform(uvw[r], btp, centre[0], centre[1], image[0], image[1])
        for c in range(vis.shape[1]):
            b = chanmap[c]
            s = fp * moved[c, p] + fq * moved[c, q]
            u = at[0] * fov / lam[c] + npix // 2
            v = at[1] * fov / lam[c] + npix // 2
            iu = int(np.round(u))
            iv = int(np.round(v))
            if conv == "conv_nn_scatter":
                out[b, iv, iu] += s
                weight[b] += 1.0
            else:
                fu = int((iu - u) * OS)
                fv = int((iv - v) * OS)
                packed = conv == "conv_1d_axisymmetric_packed_scatter"
                for ty in range(W):
                    for tx in range(W):
                        k = _tap(kernel, W, OS, packed, ty, fv) * _tap(kernel, W, OS, packed, tx, fu)
                        y = iv + ty - half
                        x = iu + tx - half
                        if 0 <= y < npix and 0 <= x < npix:
                            out[b, y, x] += k * s
                        weight[b] += k
    if normalize:
        for b in range(nband):
            for y in range(npix):
                for x in range(npix):
                    out[b, y, x] = out[b, y, x] / (weight[b] + 1e-8)
    return out


def degrid(uvw, gridstack, lam, chanmap, cell, image, centre, kernel, W, OS, ptp, corrs, conv):
    """the weighted mean of the grid over the taps around each position, as correlations"""
    ncorr, p, fp, q, fq = CORRS[corrs]
    npix = gridstack.shape[1]
    fov = npix * cell / 3600.0 * np.pi / 180.0
    nrow = uvw.shape[0]
    nchan = lam.shape[0]
    half = W // 2
    packed = conv == "conv_1d_axisymmetric_packed_gather"
    val = np.zeros((nrow, nchan, ncorr), np.complex128)
    wt = np.zeros((nrow, nchan), np.float64)
    for r in range(nrow):
        for c in range(nchan):
            u = uvw[r, 0] * fov / lam[c] + npix // 2
            v = uvw[r, 1] * fov / lam[c] + npix // 2
            iu = int(np.round(u))
            iv = int(np.round(v))
            fu = int((iu - u) * OS)
            fv = int((iv - v) * OS)
            for ty in range(W):
                for tx in range(W):
                    k = _tap(kernel, W, OS, packed, ty, fv) * _tap(kernel, W, OS, packed, tx, fu)
                    y = iv + ty - half
                    x = iu + tx - half
                    if 0 <= y < npix and 0 <= x < npix:
                        val[r, c, p] += fp * k * gridstack[chanmap[c], y, x]
                        val[r, c, q] += fq * k * gridstack[chanmap[c], y, x]
                        wt[r, c] += k
    for r in range(nrow):
        for c in range(nchan):
            for k in range(ncorr):
                val[r, c, k] = val[r, c, k] / (wt[r, c] + 1e-8)
    if ptp != "phase_rotate":
        return val
    out = np.zeros((nrow, nchan, ncorr), np.complex128)
    for r in range(nrow):
        one = phase(val[r], uvw[r], lam, centre[0], centre[1], image[0], image[1], -1.0)
        for c in range(nchan):
            for k in range(ncorr):
                out[r, c, k] = one[c, k]
    return out


def uspace(W, oversample):
    """positions of the samples of a kernel of W taps padded by one on either side, in taps from its centre"""
    return np.arange(oversample * (W + 2)) / oversample - (W + 2) // 2


def sinc(W, oversample=5, a=1.0):
    k = np.sinc(uspace(W, oversample) * a)
    return k / np.sum(k)


def hanning(W, a, oversample=5):
    u = uspace(W, oversample)
    k = np.sinc(u) * (a + (1 - a) * np.cos(2 * np.pi * u / (W + 3)))
    return k / np.sum(k)


def pack(K, W, oversample=5):
    i = np.arange(oversample * (W + 2))
    return K[i // (W + 2) + (i % (W + 2)) * oversample]


def unpack(K, W, oversample=5):
    i = np.arange(oversample * (W + 2))
    return K[(i % oversample) * (W + 2) + i // oversample]


def detaper2(npix, K, W, oversample=5):
    """modulus of the kernel's Fourier transform at each pixel"""
    u = uspace(W, oversample)
    out = np.zeros((npix, npix), np.complex128)
    for m in range(npix):
        for l in range(npix):
            for y in range(K.shape[0]):
                for x in range(K.shape[1]):
                    out[m, l] += K[y, x] * np.exp(-2j * np.pi * ((l - npix // 2) * u[x] + (m - npix // 2) * u[y]) / npix)
    return np.abs(out)


def detaper1(npix, K, W, oversample=5):
    u = uspace(W, oversample)
    f = np.zeros(npix, np.complex128)
    for l in range(npix):
        for x in range(K.shape[0]):
            f[l] += K[x] * np.exp(-2j * np.pi * (l - npix // 2) * u[x] / npix)
    out = np.zeros((npix, npix), np.float64)
    for m in range(npix):
        for l in range(npix):
            out[m, l] = np.abs(f[m] * f[l])
    return out


def dask_degrid(uvw, gridstack, lam, chanmap, cell, images, centre, kernel, W, OS, ptp, corrs, conv):
    """every facet contributes"""
    ncorr, p, fp, q, fq = CORRS[corrs]
    out = np.zeros((uvw.shape[0], lam.shape[0], ncorr), np.complex128)
    for f in range(2):
        out += degrid(uvw, gridstack[f], lam, chanmap, cell, images[f], centre, kernel, W, OS, ptp, corrs, conv)
    return out


def nothing(n):
    """cells around the grid"""
    return (0,) * n
