"""Per-band gridding and degridding, from the documentation: band b images channels
freq_bin_idx[b] .. freq_bin_idx[b] + freq_bin_counts[b]; unset cells in y default to x."""
import numpy as np
from ducc_contract import K


def threads(nthreads):
    if not nthreads:
        import multiprocessing
        return multiprocessing.cpu_count()
    return nthreads


def use(weights, flag, r, f):
    g = 1
    if weights is not None:
        g = g * weights[r, f]
    if flag is not None:
        g = g * (flag[r, f] != 0)
    return g


def predicted(image, b, uvw, r, freq, f, cell, celly, epsilon, do_wstacking, nth):
    nx = image.shape[1]
    ny = image.shape[2]
    acc = 0
    for i in range(nx):
        for j in range(ny):
            acc += np.conj(K(uvw[r, 0], uvw[r, 1], uvw[r, 2], freq[f], i, j, nx, ny, cell, celly, epsilon,
                             bool(do_wstacking), nth, False)) * image[b, i, j]
    return acc


def model(uvw, freq, image, freq_bin_idx, freq_bin_counts, cell, weights=None, flag=None, celly=None,
          epsilon=1e-5, nthreads=1, do_wstacking=True):
    if celly is None:
        celly = cell
    nth = threads(nthreads)
    out = np.zeros((uvw.shape[0], freq.shape[0]), dtype=np.result_type(image, np.complex64))
    first = freq_bin_idx.min()
    for b in range(image.shape[0]):
        for r in range(uvw.shape[0]):
            for k in range(freq_bin_counts[b]):
                f = freq_bin_idx[b] - first + k
                out[r, f] = use(weights, flag, r, f) * predicted(image, b, uvw, r, freq, f, cell, celly, epsilon,
                                                                 do_wstacking, nth)
    return out


def dirty(uvw, freq, vis, freq_bin_idx, freq_bin_counts, nx, ny, cell, weights=None, flag=None, celly=None,
          epsilon=1e-5, nthreads=1, do_wstacking=True, double_accum=False):
    if celly is None:
        celly = cell
    nth = threads(nthreads)
    out = np.zeros((freq_bin_idx.shape[0], nx, ny), dtype=np.float64)
    first = freq_bin_idx.min()
    for b in range(freq_bin_idx.shape[0]):
        for i in range(nx):
            for j in range(ny):
                for r in range(uvw.shape[0]):
                    for k in range(freq_bin_counts[b]):
                        f = freq_bin_idx[b] - first + k
                        x = K(uvw[r, 0], uvw[r, 1], uvw[r, 2], freq[f], i, j, nx, ny, cell, celly, epsilon,
                              bool(do_wstacking), nth, bool(double_accum)) * vis[r, f]
                        out[b, i, j] += use(weights, flag, r, f) * x.real
    return out


def residual(uvw, freq, image, vis, freq_bin_idx, freq_bin_counts, cell, weights=None, flag=None, celly=None,
             epsilon=1e-5, nthreads=1, do_wstacking=True, double_accum=False):
    if celly is None:
        celly = cell
    nth = threads(nthreads)
    nx = image.shape[1]
    ny = image.shape[2]
    out = np.zeros((freq_bin_idx.shape[0], nx, ny), dtype=image.dtype)
    first = freq_bin_idx.min()
    for b in range(freq_bin_idx.shape[0]):
        for i in range(nx):
            for j in range(ny):
                for r in range(uvw.shape[0]):
                    for k in range(freq_bin_counts[b]):
                        f = freq_bin_idx[b] - first + k
                        res = vis[r, f] - predicted(image, b, uvw, r, freq, f, cell, celly, epsilon, do_wstacking, nth)
                        x = K(uvw[r, 0], uvw[r, 1], uvw[r, 2], freq[f], i, j, nx, ny, cell, celly, epsilon,
                              bool(do_wstacking), nth, bool(double_accum)) * res
                        out[b, i, j] += use(weights, flag, r, f) * x.real
    return out


def hessian(uvw, freq, image, freq_bin_idx, freq_bin_counts, cell, weights=None, flag=None, celly=None,
            epsilon=1e-5, nthreads=1, do_wstacking=True, double_accum=False):
    if celly is None:
        celly = cell
    nth = threads(nthreads)
    nx = image.shape[1]
    ny = image.shape[2]
    out = np.zeros((freq_bin_idx.shape[0], nx, ny), dtype=image.dtype)
    first = freq_bin_idx.min()
    for b in range(freq_bin_idx.shape[0]):
        for i in range(nx):
            for j in range(ny):
                for r in range(uvw.shape[0]):
                    for k in range(freq_bin_counts[b]):
                        f = freq_bin_idx[b] - first + k
                        mod = predicted(image, b, uvw, r, freq, f, cell, celly, epsilon, do_wstacking, nth)
                        x = K(uvw[r, 0], uvw[r, 1], uvw[r, 2], freq[f], i, j, nx, ny, cell, celly, epsilon,
                              bool(do_wstacking), nth, bool(double_accum)) * mod
                        out[b, i, j] += use(weights, flag, r, f) * x.real
    return out
