"""Hogbom CLEAN, from its documentation."""
import numpy as np
import scipy.signal
from africanus.deconv.hogbom.clean import fit_2d_gaussian


def peak(r):
    nx, ny = r.shape
    top = r.max()
    p = -1
    q = -1
    for x in range(nx):
        for y in range(ny):
            if r[x, y] == top:
                p = x
                q = y
    return p, q


def trough(r):
    nx, ny = r.shape
    top = r.min()
    p = -1
    q = -1
    for x in range(nx):
        for y in range(ny):
            if r[x, y] == top:
                p = x
                q = y
    return p, q


def find_peak(r):
    p, q = peak(r)
    a, b = trough(r)
    return p, q, a, b, r.max()


def step(clean, resid, gamma, psf):
    """move a fraction of the brightest pixel into the model and remove its response"""
    n = resid.shape[0]
    p, q = peak(resid)
    flux = gamma * resid.max()
    c2 = clean.copy()
    c2[p, q] = c2[p, q] + flux
    r2 = np.zeros_like(resid)
    for x in range(n):
        for y in range(n):
            r2[x, y] = resid[x, y] - flux * psf[n - 1 + x - p, n - 1 + y - q]
    return c2, r2


def clean0(dirty, psf, gamma, frac):
    return np.zeros_like(dirty), dirty.copy()


def clean1(dirty, psf, gamma, frac):
    c, r = clean0(dirty, psf, gamma, frac)
    level = frac * np.abs(dirty.max())
    if np.abs(r.max()) > level:
        c, r = step(c, r, gamma, psf)
    return c, r


def clean2(dirty, psf, gamma, frac):
    c, r = clean0(dirty, psf, gamma, frac)
    level = frac * np.abs(dirty.max())
    if np.abs(r.max()) > level:
        c, r = step(c, r, gamma, psf)
        if np.abs(r.max()) > level:
            c, r = step(c, r, gamma, psf)
    return c, r


def value_error(*a, **k):
    raise ValueError("documented")


def restore(clean, psf, residuals):
    beam = fit_2d_gaussian(psf)
    model = scipy.signal.fftconvolve(clean, beam, mode="same")
    return model + residuals, model


def twod_gaussian(coords, amplitude, xo, yo, sx, sy, theta, offset):
    """elliptical Gaussian rotated by theta"""
    x, y = coords
    n, m = x.shape
    out = np.zeros(n * m)
    c = np.cos(theta)
    s = np.sin(theta)
    for i in range(n):
        for j in range(m):
            dx = x[i, j] - xo
            dy = y[i, j] - yo
            u = c * dx - s * dy
            v = s * dx + c * dy
            out[i * m + j] = offset + amplitude * np.exp(-(u * u / (2 * sx * sx) + v * v / (2 * sy * sy)))
    return out


def clean3(dirty, psf, gamma, frac):
    c, r = clean0(dirty, psf, gamma, frac)
    level = frac * np.abs(dirty.max())
    if np.abs(r.max()) > level:
        c, r = step(c, r, gamma, psf)
        if np.abs(r.max()) > level:
            c, r = step(c, r, gamma, psf)
            if np.abs(r.max()) > level:
                c, r = step(c, r, gamma, psf)
    return c, r


def clean1_default(dirty, psf):
    return clean1(dirty, psf, 0.1, 0.2)


def clean2_default(dirty, psf):
    return clean2(dirty, psf, 0.1, 0.2)

