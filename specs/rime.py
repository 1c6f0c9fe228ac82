"""V_pq = G_p (B_pq + sum_s E_ps X_pqs E_qs^H) G_q^H, from the documentation."""
import numpy as np


def sandwich(a, x, b):
    """a x b^H for full matrices given as 4-tuples (xx, xy, yx, yy)"""
    t0 = a[0] * x[0] + a[1] * x[2]
    t1 = a[0] * x[1] + a[1] * x[3]
    t2 = a[2] * x[0] + a[3] * x[2]
    t3 = a[2] * x[1] + a[3] * x[3]
    return (t0 * np.conj(b[0]) + t1 * np.conj(b[1]),
            t0 * np.conj(b[2]) + t1 * np.conj(b[3]),
            t2 * np.conj(b[0]) + t3 * np.conj(b[1]),
            t2 * np.conj(b[2]) + t3 * np.conj(b[3]))


def sum_full(row, f, p, q, t, dde1, coh, dde2, nsrc):
    o0 = 0
    o1 = 0
    o2 = 0
    o3 = 0
    for s in range(nsrc):
        if dde1 is not None:
            a = (dde1[s, t, p, f, 0, 0], dde1[s, t, p, f, 0, 1], dde1[s, t, p, f, 1, 0], dde1[s, t, p, f, 1, 1])
            b = (dde2[s, t, q, f, 0, 0], dde2[s, t, q, f, 0, 1], dde2[s, t, q, f, 1, 0], dde2[s, t, q, f, 1, 1])
        else:
            a = (1, 0, 0, 1)
            b = (1, 0, 0, 1)
        if coh is not None:
            x = (coh[s, row, f, 0, 0], coh[s, row, f, 0, 1], coh[s, row, f, 1, 0], coh[s, row, f, 1, 1])
        else:
            x = (1, 0, 0, 1)
        r = sandwich(a, x, b)
        o0 += r[0]
        o1 += r[1]
        o2 += r[2]
        o3 += r[3]
    return o0, o1, o2, o3


def predict_full(time_index, antenna1, antenna2, dde1, coh, dde2, die1, base, die2, nsrc, nchan):
    out = np.zeros((time_index.shape[0], nchan, 2, 2), dtype=np.complex128)
    t0 = time_index.min()
    for row in range(time_index.shape[0]):
        p = antenna1[row]
        q = antenna2[row]
        t = time_index[row] - t0
        for f in range(nchan):
            x = sum_full(row, f, p, q, t, dde1, coh, dde2, nsrc)
            if base is not None:
                x = (x[0] + base[row, f, 0, 0], x[1] + base[row, f, 0, 1],
                     x[2] + base[row, f, 1, 0], x[3] + base[row, f, 1, 1])
            if die1 is not None:
                x = sandwich((die1[t, p, f, 0, 0], die1[t, p, f, 0, 1], die1[t, p, f, 1, 0], die1[t, p, f, 1, 1]), x,
                             (die2[t, q, f, 0, 0], die2[t, q, f, 0, 1], die2[t, q, f, 1, 0], die2[t, q, f, 1, 1]))
            out[row, f, 0, 0] = x[0]
            out[row, f, 0, 1] = x[1]
            out[row, f, 1, 0] = x[2]
            out[row, f, 1, 1] = x[3]
    return out


def predict_diag(time_index, antenna1, antenna2, dde1, coh, dde2, die1, base, die2, nsrc, nchan, ncorr):
    out = np.zeros((time_index.shape[0], nchan, ncorr), dtype=np.complex128)
    t0 = time_index.min()
    for row in range(time_index.shape[0]):
        p = antenna1[row]
        q = antenna2[row]
        t = time_index[row] - t0
        for f in range(nchan):
            for c in range(ncorr):
                x = 0
                for s in range(nsrc):
                    y = 1
                    if coh is not None:
                        y = coh[s, row, f, c]
                    if dde1 is not None:
                        y = dde1[s, t, p, f, c] * y * np.conj(dde2[s, t, q, f, c])
                    x += y
                if base is not None:
                    x += base[row, f, c]
                if die1 is not None:
                    x = die1[t, p, f, c] * x * np.conj(die2[t, q, f, c])
                out[row, f, c] = x
    return out


def predict_vis(time_index, antenna1, antenna2, dde1_jones=None, source_coh=None, dde2_jones=None,
                die1_jones=None, base_vis=None, die2_jones=None):
    nsrc = 0
    nd = 0
    nchan = 0
    ncorr = 0
    if dde1_jones is not None:
        nsrc = dde1_jones.shape[0]
        nchan = dde1_jones.shape[3]
        ncorr = dde1_jones.shape[-1]
        nd = dde1_jones.ndim - 4
    if source_coh is not None:
        nsrc = source_coh.shape[0]
        nchan = source_coh.shape[2]
        ncorr = source_coh.shape[-1]
        nd = source_coh.ndim - 3
    if base_vis is not None:
        nchan = base_vis.shape[1]
        ncorr = base_vis.shape[-1]
        nd = base_vis.ndim - 2
    if die1_jones is not None:
        nchan = die1_jones.shape[2]
        ncorr = die1_jones.shape[-1]
        nd = die1_jones.ndim - 3
    if nd == 0:
        raise ValueError("nothing to predict")
    if nd == 2:
        return predict_full(time_index, antenna1, antenna2, dde1_jones, source_coh, dde2_jones,
                            die1_jones, base_vis, die2_jones, nsrc, nchan)
    return predict_diag(time_index, antenna1, antenna2, dde1_jones, source_coh, dde2_jones,
                        die1_jones, base_vis, die2_jones, nsrc, nchan, ncorr)


def apply_gains(time_index, antenna1, antenna2, die1_jones, corrupted_vis, die2_jones):
    return predict_vis(time_index, antenna1, antenna2, die1_jones=die1_jones, base_vis=corrupted_vis,
                       die2_jones=die2_jones)


def always_value_error(*args, **kwargs):
    raise ValueError("inconsistent arguments")
