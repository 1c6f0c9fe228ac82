"""Calibration, from the documentation: V_pq = sum over directions of G_p M_pq G_q^H."""
import numpy as np
from africanus.constants import c as lightspeed


def at(x, t, ant, nu, s, i, j):
    """element (i, j) of a gain given as a diagonal or a full matrix"""
    if len(x.shape) == 5:
        return x[t, ant, nu, s, i] if i == j else 0
    return x[t, ant, nu, s, i, j]


def bins(tbi, tbc, n_row):
    """the time bin each row is in, counting rows from the first bin"""
    out = np.zeros(n_row, np.int64)
    first = tbi.min()
    for t in range(tbi.shape[0]):
        for r in range(tbi[t] - first, tbi[t] - first + tbc[t]):
            out[r] = t
    return out


def corrupted(tbi, tbc, ant1, ant2, jones, model, out, good):
    """add the corrupted model to the rows of out that belong to a time bin"""
    first = tbi.min()
    scalar = len(model.shape) == 4
    for t in range(tbi.shape[0]):
        for r in range(tbi[t] - first, tbi[t] - first + tbc[t]):
            for nu in range(model.shape[1]):
                for s in range(model.shape[2]):
                    p = ant1[r]
                    q = ant2[r]
                    if scalar:
                        for c in range(model.shape[3]):
                            out[r, nu, c] += good[r, nu] * jones[t, p, nu, s, c] * model[r, nu, s, c] * np.conj(jones[t, q, nu, s, c])
                    else:
                        for i in range(2):
                            for j in range(2):
                                for a in range(2):
                                    for b in range(2):
                                        out[r, nu, i, j] += (good[r, nu] * at(jones, t, p, nu, s, i, a) * model[r, nu, s, a, b] *
                                                             np.conj(at(jones, t, q, nu, s, j, b)))
    return out


def corrupt_vis(tbi, tbc, ant1, ant2, jones, model):
    out = np.zeros(model.shape[:2] + model.shape[3:], model.dtype)
    return corrupted(tbi, tbc, ant1, ant2, jones, model, out, np.ones(model.shape[:2], np.int64))


def compute_and_corrupt_vis(tbi, tbc, ant1, ant2, jones, model, uvw, freq, lm):
    """point sources that vary per time bin, rotated to each row and channel, then corrupted"""
    n_row = ant1.shape[0]
    n_chan = freq.shape[0]
    out = np.zeros((n_row, n_chan) + model.shape[3:], jones.dtype)
    rotated = np.zeros((n_row, n_chan) + model.shape[2:], np.complex128)
    first = tbi.min()
    for t in range(tbi.shape[0]):
        for r in range(tbi[t] - first, tbi[t] - first + tbc[t]):
            for nu in range(n_chan):
                for s in range(model.shape[2]):
                    l = lm[t, s, 0]
                    m = lm[t, s, 1]
                    n = np.sqrt(1 - l ** 2 - m ** 2)
                    ph = -2 * np.pi * freq[nu] / lightspeed * (uvw[r, 0] * l + uvw[r, 1] * m + uvw[r, 2] * (n - 1))
                    rotated[r, nu, s] = model[t, nu, s] * np.exp(1j * ph) / n
    return corrupted(tbi, tbc, ant1, ant2, jones, rotated, out, np.ones((n_row, n_chan), np.int64))


def unflagged(flag):
    good = np.zeros(flag.shape[:2], np.int64)
    for r in range(flag.shape[0]):
        for nu in range(flag.shape[1]):
            good[r, nu] = 0 if np.any(flag[r, nu]) else 1
    return good


def residual_vis(tbi, tbc, ant1, ant2, jones, vis, flag, model):
    """observed minus corrupted model, zero where any correlation is flagged"""
    good = unflagged(flag)
    first = tbi.min()
    zero = np.zeros(vis.shape, vis.dtype)
    m = corrupted(tbi, tbc, ant1, ant2, jones, model, zero, good)
    out = np.zeros(vis.shape, vis.dtype)
    for t in range(tbi.shape[0]):
        for r in range(tbi[t] - first, tbi[t] - first + tbc[t]):
            for nu in range(vis.shape[1]):
                out[r, nu] = good[r, nu] * (vis[r, nu] - m[r, nu])
    return out


def inv2(g):
    d = g[0][0] * g[1][1] - g[0][1] * g[1][0]
    return ((g[1][1] / d, -g[0][1] / d), (-g[1][0] / d, g[0][0] / d))


def correct_vis(tbi, tbc, ant1, ant2, jones, vis, flag):
    """G_p^-1 V_pq G_q^-H, zero where any correlation is flagged"""
    if jones.shape[3] > 1:
        raise ValueError("direction dependent")
    good = unflagged(flag)
    out = np.zeros(vis.shape, vis.dtype)
    first = tbi.min()
    for t in range(jones.shape[0]):
        for r in range(tbi[t] - first, tbi[t] - first + tbc[t]):
            for nu in range(jones.shape[2]):
                p = ant1[r]
                q = ant2[r]
                if good[r, nu] != 0:
                    if len(vis.shape) == 3:
                        for c in range(vis.shape[2]):
                            out[r, nu, c] = vis[r, nu, c] / jones[t, p, nu, 0, c] / np.conj(jones[t, q, nu, 0, c])
                    elif len(jones.shape) == 5:
                        for i in range(2):
                            for j in range(2):
                                out[r, nu, i, j] = vis[r, nu, i, j] / jones[t, p, nu, 0, i] / np.conj(jones[t, q, nu, 0, j])
                    else:
                        a = inv2(jones[t, p, nu, 0])
                        b = inv2(jones[t, q, nu, 0])
                        for i in range(2):
                            for j in range(2):
                                tot = 0
                                for x in range(2):
                                    for y in range(2):
                                        tot = tot + a[i][x] * vis[r, nu, x, y] * np.conj(b[j][y])
                                out[r, nu, i, j] = tot
    return out


def jhj(tbi, tbc, ant1, ant2, jones, model, flag):
    """diagonal of J^H J of the residual with respect to the antenna phases"""
    good = unflagged(flag)
    out = np.zeros(jones.shape, np.float64)
    first = tbi.min()
    for t in range(jones.shape[0]):
        for r in range(tbi[t] - first, tbi[t] - first + tbc[t]):
            for nu in range(jones.shape[2]):
                for s in range(jones.shape[3]):
                    for c in range(jones.shape[4]):
                        d = jones[t, ant1[r], nu, s, c] * model[r, nu, s, c] * np.conj(jones[t, ant2[r], nu, s, c])
                        out[t, ant1[r], nu, s, c] += good[r, nu] * (d * np.conj(d)).real
                        out[t, ant2[r], nu, s, c] += good[r, nu] * (d * np.conj(d)).real
    return out


def jhr(tbi, tbc, ant1, ant2, jones, residual, model, flag):
    """J^H r: the derivative of the corrupted model is i times itself for the first antenna, -i times for the second"""
    good = unflagged(flag)
    out = np.zeros(jones.shape, np.complex128)
    first = tbi.min()
    for t in range(jones.shape[0]):
        for r in range(tbi[t] - first, tbi[t] - first + tbc[t]):
            for nu in range(jones.shape[2]):
                for s in range(jones.shape[3]):
                    for c in range(jones.shape[4]):
                        d = jones[t, ant1[r], nu, s, c] * model[r, nu, s, c] * np.conj(jones[t, ant2[r], nu, s, c])
                        out[t, ant1[r], nu, s, c] += good[r, nu] * np.conj(1j * d) * residual[r, nu, c]
                        out[t, ant2[r], nu, s, c] += good[r, nu] * np.conj(-1j * d) * residual[r, nu, c]
    return out


def jhj_and_jhr(tbi, tbc, ant1, ant2, jones, residual, model, flag):
    return (jhj(tbi, tbc, ant1, ant2, jones, model, flag), jhr(tbi, tbc, ant1, ant2, jones, residual, model, flag))


def gauss_newton(tbi, tbc, ant1, ant2, jones, vis, flag, model, weight, tol=1e-4, maxiter=100):
    """phases move by half the projected residual over the Hessian until they move no more than tol"""
    w = np.sqrt(weight)
    v = vis * w
    m = model * w[:, :, None]
    h = jhj(tbi, tbc, ant1, ant2, jones, m, flag)
    k = 0
    moved = 1.0
    while moved > tol and k < maxiter:
        res = residual_vis(tbi, tbc, ant1, ant2, jones, v, flag, m)
        g = jhr(tbi, tbc, ant1, ant2, jones, res, m, flag)
        old = np.angle(jones)
        new = old + 0.5 * (g / h).real
        jones = np.exp(1j * new)
        k += 1
        moved = np.abs(new - old).max()
    return jones, h, g, k


def check_diag_diag(jones, vis, vis_type="vis"):
    return 0


def check_diag(jones, vis, vis_type="vis"):
    return 1


def check_full(jones, vis, vis_type="vis"):
    return 2


def runtime_error(*a, **k):
    raise RuntimeError("shape")


def value_error(*a, **k):
    raise ValueError("invalid")


def not_implemented(*a, **k):
    raise NotImplementedError("mode")


def chunkify_rows(time, per):
    """rows per chunk of `per` unique times, first row of each unique time, rows of each unique time"""
    u, cnt = np.unique(time, return_counts=True)
    n = u.shape[0]
    start = np.zeros(n, np.int32)
    for i in range(n):
        start[i] = np.sum(cnt[:i])
    chunks = [np.sum(cnt[i:i + per]) for i in range(0, n, per)]
    return tuple(chunks), start, cnt
