"""cubic splines: what a fit must satisfy, and its derivatives"""
import numpy as np


def residual(spline, x, y, left_type, right_type, left_value, right_value):
    """misfit at every point, jumps of slope and curvature at every point, end conditions"""
    a, b, c, mx, my = spline
    out = []
    n = x.shape[0]
    for j in range(n):
        out.append(mx[j] - x[j])
        out.append(my[j] - y[j])
    for j in range(n - 1):
        h = x[j + 1] - x[j]
        out.append(((a[j] * h + b[j]) * h + c[j]) * h + y[j] - y[j + 1])
        out.append((3 * a[j] * h + 2 * b[j]) * h + c[j] - c[j + 1])
        out.append(3 * a[j] * h + b[j] - b[j + 1])
    out.append((2 * b[0] if left_type == 2 else c[0]) - left_value)
    out.append((2 * b[n - 1] if right_type == 2 else c[n - 1]) - right_value)
    return tuple(out)


def natural(spline, x, y):
    return residual(spline, x, y, 2, 2, 0.0, 0.0)


def zeros(n):
    return (0,) * (2 * n + 3 * (n - 1) + 2)


def evaluate(spline, x, order):
    """derivative of the piece around each position; quadratic pieces continue the ends"""
    a, b, c, mx, my = spline
    m = mx.shape[0]
    out = np.empty_like(x)
    for i in range(x.shape[0]):
        p = x[i]
        j = 0
        for k in range(1, m):
            if p >= mx[k]:
                j = k
        h = p - mx[j]
        t = a[j]
        if p < mx[0]:
            t = 0.0
        if p > mx[m - 1]:
            t = 0.0
        if order == 0:
            out[i] = t * h * h * h + b[j] * h * h + c[j] * h + my[j]
        elif order == 1:
            out[i] = 3 * t * h * h + 2 * b[j] * h + c[j]
        else:
            out[i] = 6 * t * h + 2 * b[j]
    return out
