import numpy as np


def _extent(x):
    if isinstance(x, np.ndarray):
        a = np.abs(x)
        return a.max(), a.min()
    return abs(x), abs(x)


def cell(u, v, wavelength, factor):
    lam = wavelength.min() if isinstance(wavelength, np.ndarray) else wavelength
    umax, umin = _extent(u)
    vmax, vmin = _extent(v)
    to_arcsec = 180.0 / np.pi * 3600.0
    return (np.array([lam / (2.0 * factor * umax) * to_arcsec, lam / (2.0 * factor * vmax) * to_arcsec]),
            lam / (2.0 * factor * umax), lam / (2.0 * factor * vmax), lam / umin, lam / vmin)


def cell_size(u, v, wavelength, factor=3.0, ny=None, nx=None):
    out, du, dv, su, sv = cell(u, v, wavelength, factor)
    if ny is not None and du * ny < su:
        raise ValueError("grid too small")
    if nx is not None and dv * nx < sv:
        raise ValueError("grid too small")
    return out


def type_error(*args, **kw):
    raise TypeError("unsupported")
