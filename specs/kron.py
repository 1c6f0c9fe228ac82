"""Kronecker products and covariance functions, from the documentation."""
import numpy as np


def matvec1(A, b):
    m, n = A[0].shape
    out = np.zeros(m)
    for i in range(m):
        for j in range(n):
            out[i] += A[0][i, j] * b[j]
    return out


def matvec2(A, b):
    m0, n0 = A[0].shape
    m1, n1 = A[1].shape
    out = np.zeros(m0 * m1)
    for i0 in range(m0):
        for i1 in range(m1):
            for j0 in range(n0):
                for j1 in range(n1):
                    out[i0 * m1 + i1] += A[0][i0, j0] * A[1][i1, j1] * b[j0 * n1 + j1]
    return out


def matvec3(A, b):
    m0, n0 = A[0].shape
    m1, n1 = A[1].shape
    m2, n2 = A[2].shape
    out = np.zeros(m0 * m1 * m2)
    for i0 in range(m0):
        for i1 in range(m1):
            for i2 in range(m2):
                for j0 in range(n0):
                    for j1 in range(n1):
                        for j2 in range(n2):
                            out[(i0 * m1 + i1) * m2 + i2] += (A[0][i0, j0] * A[1][i1, j1] * A[2][i2, j2]
                                                              * b[(j0 * n1 + j1) * n2 + j2])
    return out


def matmat(matvec, A, B):
    """one column of the right hand side at a time"""
    rows = 1
    for K in A:
        rows = rows * K.shape[0]
    cols = B.shape[1]
    out = np.zeros((rows, cols))
    for c in range(cols):
        out[:, c] = matvec(A, B[:, c])
    return out


def matmat1(A, B):
    return matmat(matvec1, A, B)


def matmat2(A, B):
    return matmat(matvec2, A, B)


def matmat3(A, B):
    return matmat(matvec3, A, B)


def rows(A):
    n = 1
    for K in A:
        n = n * K.shape[0]
    return n


def cholesky(A):
    return [np.linalg.cholesky(K) for K in A]


def abs_diff(x, xp):
    n, d = x.shape
    m = xp.shape[0]
    out = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            s = 0.0
            for k in range(d):
                s += (x[i, k] - xp[j, k])**2
            out[i, j] = np.sqrt(s)
    return out


def abs_diff1(x, xp):
    n = x.shape[0]
    m = xp.shape[0]
    out = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            out[i, j] = np.sqrt((x[i] - xp[j])**2)
    return out


def expsq(x, xp, sigmaf, l):
    n, d = x.shape
    m = xp.shape[0]
    out = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            s = 0.0
            for k in range(d):
                s += (x[i, k] - xp[j, k])**2
            out[i, j] = sigmaf * sigmaf * np.exp(-s / (2 * l * l))
    return out


def expsq1(x, xp, sigmaf, l):
    n = x.shape[0]
    m = xp.shape[0]
    out = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            out[i, j] = sigmaf * sigmaf * np.exp(-(x[i] - xp[j])**2 / (2 * l * l))
    return out


def not_implemented(*a, **k):
    raise NotImplementedError("documented")


def pspec(x, xp, sigma, l):
    """power spectrum of the covariance on one regular grid"""
    n = x.shape[0]
    if np.any(x != xp):
        raise ValueError("different grids")
    step = x[1, 0] - x[0, 0]
    if np.any(x[1:, 0] - x[:n - 1, 0] != step):
        raise ValueError("irregular grid")
    s = np.fft.fftshift(np.fft.fftfreq(n, d=step))
    return sigma * sigma * np.sqrt(2 * np.pi * l) * np.exp(-0.5 * l * l * s * s)
