"""Stokes <-> correlation conversions, from the documentation (CASA conventions).

linear:   XX = I+Q, XY = U+iV, YX = U-iV, YY = I-Q
circular: RR = I+V, RL = Q+iU, LR = Q-iU, LL = I-V
Stokes values are the real quantities inverting the above."""
import numpy as np


def value(n, v):
    if n == "RR":
        return v["I"] + v["V"]
    if n == "RL":
        return v["Q"] + 1j * v["U"]
    if n == "LR":
        return v["Q"] - 1j * v["U"]
    if n == "LL":
        return v["I"] - v["V"]
    if n == "XX":
        return v["I"] + v["Q"]
    if n == "XY":
        return v["U"] + 1j * v["V"]
    if n == "YX":
        return v["U"] - 1j * v["V"]
    if n == "YY":
        return v["I"] - v["Q"]
    if "XX" in v or "XY" in v:
        if n == "I":
            return (v["XX"] + v["YY"]).real / 2
        if n == "Q":
            return (v["XX"] - v["YY"]).real / 2
        if n == "U":
            return (v["XY"] + v["YX"]).real / 2
        return (v["XY"] - v["YX"]).imag / 2
    if n == "I":
        return (v["RR"] + v["LL"]).real / 2
    if n == "Q":
        return (v["RL"] + v["LR"]).real / 2
    if n == "U":
        return (v["RL"] - v["LR"]).imag / 2
    return (v["RR"] - v["LL"]).real / 2


def flat(input, names, onames):
    """names, onames: flat tuples of names"""
    cplx = False
    for n in onames:
        if n not in ("I", "Q", "U", "V"):
            cplx = True
    out = np.zeros((input.shape[0], input.shape[1], len(onames)), dtype=np.complex128 if cplx else np.float64)
    for a in range(input.shape[0]):
        for b in range(input.shape[1]):
            v = {}
            for i, n in enumerate(names):
                v[n] = input[a, b, i]
            for k, n in enumerate(onames):
                out[a, b, k] = value(n, v)
    return out


def mat_in(input, names, onames):
    cplx = False
    for n in onames:
        if n not in ("I", "Q", "U", "V"):
            cplx = True
    out = np.zeros((input.shape[0], input.shape[1], len(onames)), dtype=np.complex128 if cplx else np.float64)
    for a in range(input.shape[0]):
        for b in range(input.shape[1]):
            v = {}
            for i, n in enumerate(names):
                v[n] = input[a, b, i // 2, i % 2]
            for k, n in enumerate(onames):
                out[a, b, k] = value(n, v)
    return out


def mat_out(input, names, onames):
    out = np.zeros((input.shape[0], input.shape[1], 2, 2), dtype=np.complex128)
    for a in range(input.shape[0]):
        for b in range(input.shape[1]):
            v = {}
            for i, n in enumerate(names):
                v[n] = input[a, b, i]
            for k, n in enumerate(onames):
                out[a, b, k // 2, k % 2] = value(n, v)
    return out


def value_error(*args):
    raise ValueError("documented")


def missing(*args):
    raise MissingConversionInputs("documented")


def type_error(*args):
    raise TypeError("documented")


class MissingConversionInputs(Exception):
    pass


class DimensionMismatch(Exception):
    pass


def mismatch(*args):
    raise DimensionMismatch("documented")


def roundtrip(x):
    return x


def roundtrip_matrix(x):
    return x
