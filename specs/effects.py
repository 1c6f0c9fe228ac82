"""Direction dependent effects and antenna geometry, from the documentation. Never executed."""
import numpy as np
from africanus.rime.zernike import zernike


def rotate(l, m, pa):
    return l * np.cos(pa) - m * np.sin(pa), l * np.sin(pa) + m * np.cos(pa)


def linear1(pa):
    out = np.zeros((pa.shape[0], 2, 2), dtype=np.complex128)
    for i in range(pa.shape[0]):
        out[i, 0, 0] = np.cos(pa[i])
        out[i, 0, 1] = np.sin(pa[i])
        out[i, 1, 0] = -np.sin(pa[i])
        out[i, 1, 1] = np.cos(pa[i])
    return out


def circular1(pa):
    out = np.zeros((pa.shape[0], 2, 2), dtype=np.complex128)
    for i in range(pa.shape[0]):
        out[i, 0, 0] = np.cos(pa[i]) - 1j * np.sin(pa[i])
        out[i, 1, 1] = np.cos(pa[i]) + 1j * np.sin(pa[i])
    return out


def linear2(pa):
    out = np.zeros((pa.shape[0], pa.shape[1], 2, 2), dtype=np.complex128)
    for i in range(pa.shape[0]):
        for j in range(pa.shape[1]):
            out[i, j, 0, 0] = np.cos(pa[i, j])
            out[i, j, 0, 1] = np.sin(pa[i, j])
            out[i, j, 1, 0] = -np.sin(pa[i, j])
            out[i, j, 1, 1] = np.cos(pa[i, j])
    return out


def circular2(pa):
    out = np.zeros((pa.shape[0], pa.shape[1], 2, 2), dtype=np.complex128)
    for i in range(pa.shape[0]):
        for j in range(pa.shape[1]):
            out[i, j, 0, 0] = np.cos(pa[i, j]) - 1j * np.sin(pa[i, j])
            out[i, j, 1, 1] = np.cos(pa[i, j]) + 1j * np.sin(pa[i, j])
    return out


def transform_sources(lm, pa, pe, scale, frequency):
    out = np.zeros((3, lm.shape[0], pa.shape[0], pa.shape[1], frequency.shape[0]))
    for s in range(lm.shape[0]):
        for t in range(pa.shape[0]):
            for a in range(pa.shape[1]):
                for c in range(frequency.shape[0]):
                    l, m = rotate(lm[s, 0], lm[s, 1], pa[t, a])
                    out[0, s, t, a, c] = (l + pe[t, a, 0]) * scale[a, c]
                    out[1, s, t, a, c] = (m + pe[t, a, 1]) * scale[a, c]
                    out[2, s, t, a, c] = frequency[c]
    return out


def test_angles(times, positions):
    out = np.zeros((times.shape[0], positions.shape[0]))
    for t in range(times.shape[0]):
        for a in range(positions.shape[0]):
            out[t, a] = times[t] * (positions[a, 0] + positions[a, 1] + positions[a, 2])
    return out


def zernike_dde(coords, coeffs, noll):
    """the weighted sum of Zernike polynomials at each coordinate, correlations flattened"""
    out = np.zeros((coords.shape[1], coords.shape[2], coords.shape[3], coords.shape[4], coeffs.shape[2]), dtype=coeffs.dtype)
    for s in range(coords.shape[1]):
        for t in range(coords.shape[2]):
            for a in range(coords.shape[3]):
                for c in range(coords.shape[4]):
                    l = coords[0, s, t, a, c]
                    m = coords[1, s, t, a, c]
                    for co in range(coeffs.shape[2]):
                        v = 0
                        for p in range(coeffs.shape[3]):
                            v += coeffs[a, c, co, p] * zernike(noll[a, c, co, p], (l ** 2 + m ** 2) ** 0.5, np.arctan2(l, m))
                        out[s, t, a, c, co] = v
    return out


def zernike_dde2(coords, coeffs, noll):
    """two correlation axes"""
    out = np.zeros((coords.shape[1], coords.shape[2], coords.shape[3], coords.shape[4], 2, 2), dtype=coeffs.dtype)
    for i in range(2):
        for j in range(2):
            x = zernike_dde(coords, coeffs[:, :, i, j:j + 1], noll[:, :, i, j:j + 1])
            for s in range(coords.shape[1]):
                for t in range(coords.shape[2]):
                    for a in range(coords.shape[3]):
                        for c in range(coords.shape[4]):
                            out[s, t, a, c, i, j] = x[s, t, a, c, 0]
    return out


def noll(j, r, phi):
    """the Zernike polynomials in Noll's order, without normalisation, zero outside the unit disk"""
    if r > 1:
        return 0
    return inside(j, r, phi)


def inside(j, r, phi):
    if j == 0:
        return 1
    if j == 1:
        return r * np.cos(phi)
    if j == 2:
        return r * np.sin(phi)
    if j == 3:
        return 2 * r ** 2 - 1
    if j == 4:
        return r ** 2 * np.sin(2 * phi)
    if j == 5:
        return r ** 2 * np.cos(2 * phi)
    if j == 6:
        return (3 * r ** 3 - 2 * r) * np.sin(phi)
    if j == 7:
        return (3 * r ** 3 - 2 * r) * np.cos(phi)
    if j == 8:
        return r ** 3 * np.sin(3 * phi)
    if j == 9:
        return r ** 3 * np.cos(3 * phi)
    if j == 10:
        return 6 * r ** 4 - 6 * r ** 2 + 1
    if j == 11:
        return (4 * r ** 4 - 3 * r ** 2) * np.cos(2 * phi)
    if j == 12:
        return (4 * r ** 4 - 3 * r ** 2) * np.sin(2 * phi)
    if j == 13:
        return r ** 4 * np.cos(4 * phi)
    if j == 14:
        return r ** 4 * np.sin(4 * phi)
    if j == 15:
        return (10 * r ** 5 - 12 * r ** 3 + 3 * r) * np.cos(phi)
    if j == 16:
        return (10 * r ** 5 - 12 * r ** 3 + 3 * r) * np.sin(phi)
    if j == 21:
        return 20 * r ** 6 - 30 * r ** 4 + 12 * r ** 2 - 1
    raise ValueError("index")


def clamp(x, top):
    if x < 0:
        return 0
    if x > top:
        return top
    return x


def plane(nu, freqs):
    """scale of the coordinates, lower plane and its weight; the planes are at increasing frequencies"""
    n = freqs.shape[0]
    if nu < freqs[0]:
        return nu / freqs[0], 0, 1.0
    if nu >= freqs[n - 1]:
        return nu / freqs[n - 1], n - 2, 0.0
    k = -1
    for i in range(n):
        if freqs[i] <= nu:
            k += 1
    return 1.0, k, (freqs[k + 1] - nu) / (freqs[k + 1] - freqs[k])


def bilinear(x, y, v00, v10, v01, v11):
    return (1 - x) * (1 - y) * v00 + x * (1 - y) * v10 + (1 - x) * y * v01 + x * y * v11


def blend(b, x, y, i, j, i1, j1, k, c, w):
    return w * bilinear(x - i, y - j, b[i, j, k, c], b[i1, j, k, c], b[i, j1, k, c], b[i1, j1, k, c]) + \
        (1 - w) * bilinear(x - i, y - j, b[i, j, k + 1, c], b[i1, j, k + 1, c], b[i, j1, k + 1, c], b[i1, j1, k + 1, c])


def blend_abs(b, x, y, i, j, i1, j1, k, c, w):
    return w * bilinear(x - i, y - j, np.abs(b[i, j, k, c]), np.abs(b[i1, j, k, c]), np.abs(b[i, j1, k, c]), np.abs(b[i1, j1, k, c])) + \
        (1 - w) * bilinear(x - i, y - j, np.abs(b[i, j, k + 1, c]), np.abs(b[i1, j, k + 1, c]), np.abs(b[i, j1, k + 1, c]),
                           np.abs(b[i1, j1, k + 1, c]))


def beam_cube(beam, extents, freqs, lm, pa, pe, scale, frequency):
    """correlations flattened: the interpolated magnitude with the phase of the interpolated value"""
    nl, nm, nn = beam.shape[0], beam.shape[1], beam.shape[2]
    out = np.zeros((lm.shape[0], pa.shape[0], pa.shape[1], frequency.shape[0], beam.shape[3]), dtype=beam.dtype)
    for f in range(frequency.shape[0]):
        z, k, w0 = plane(frequency[f], freqs)
        for s in range(lm.shape[0]):
            for t in range(pa.shape[0]):
                for a in range(pa.shape[1]):
                    l, m = rotate(lm[s, 0] * z + pe[t, a, f, 0], lm[s, 1] * z + pe[t, a, f, 1], pa[t, a])
                    x = clamp((l * scale[a, f, 0] - extents[0, 0]) * (nl - 1) / (extents[0, 1] - extents[0, 0]), nl - 1)
                    y = clamp((m * scale[a, f, 1] - extents[1, 0]) * (nm - 1) / (extents[1, 1] - extents[1, 0]), nm - 1)
                    i = int(np.floor(x))
                    j = int(np.floor(y))
                    i1 = i + 1 if i + 1 < nl else nl - 1
                    j1 = j + 1 if j + 1 < nm else nm - 1
                    for c in range(beam.shape[3]):
                        tot = blend(beam, x, y, i, j, i1, j1, k, c, w0)
                        mag = blend_abs(beam, x, y, i, j, i1, j1, k, c, w0)
                        if np.abs(tot) == 0:
                            out[s, t, a, f, c] = 0
                        else:
                            out[s, t, a, f, c] = tot * mag / np.abs(tot)
    return out
