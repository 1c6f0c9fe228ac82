"""Reference formulas, from the documentation: K = exp(-2 pi i (u l + v m + w (n-1)) nu / c).
Never executed: analysed by the same engine as the library."""
import numpy as np


def direction(l, m):
    return np.sqrt(1.0 - l * l - m * m) - 1.0


def angle(lm, s, uvw, r, frequency, f, sign, dtype):
    """phase in radians; sign -1 for the fourier convention"""
    l = lm[s, 0]
    m = lm[s, 1]
    path = uvw[r, 0] * l + uvw[r, 1] * m + uvw[r, 2] * direction(l, m)
    return sign * 2 * np.pi * path * frequency[f] / 2.99792458e8


def sign_of(convention):
    if convention == 'fourier':
        return -1.0
    elif convention == 'casa':
        return 1.0
    raise ValueError("convention")


def phase_delay(lm, uvw, frequency, convention='fourier'):
    sign = sign_of(convention)
    out = np.zeros((lm.shape[0], uvw.shape[0], frequency.shape[0]), dtype=np.complex128)
    for s in range(lm.shape[0]):
        for r in range(uvw.shape[0]):
            for f in range(frequency.shape[0]):
                a = angle(lm, s, uvw, r, frequency, f, sign, None)
                out[s, r, f] = np.cos(a) + 1j * np.sin(a)
    return out


def im_to_vis(image, uvw, lm, frequency, convention='fourier', dtype=None):
    sign = sign_of(convention)
    out = np.zeros((uvw.shape[0], frequency.shape[0], image.shape[2]), dtype=np.complex128)
    for r in range(uvw.shape[0]):
        for f in range(frequency.shape[0]):
            for c in range(image.shape[2]):
                for s in range(lm.shape[0]):
                    a = angle(lm, s, uvw, r, frequency, f, sign, None)
                    out[r, f, c] += (np.cos(a) + 1j * np.sin(a)) * image[s, f, c]
    return out


def vis_to_im(vis, uvw, lm, frequency, flags, convention='fourier', dtype=None):
    """real part of the conjugate transform, dropping a sample if any correlation is flagged"""
    sign = -sign_of(convention)
    out = np.zeros((lm.shape[0], frequency.shape[0], vis.shape[2]), dtype=np.float64)
    for s in range(lm.shape[0]):
        for f in range(frequency.shape[0]):
            for c in range(vis.shape[2]):
                for r in range(uvw.shape[0]):
                    if not np.any(flags[r, f]):
                        a = angle(lm, s, uvw, r, frequency, f, sign, None)
                        out[s, f, c] += ((np.cos(a) + 1j * np.sin(a)) * vis[r, f, c]).real
    return out
