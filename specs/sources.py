"""Source models from their documentation. Never executed."""
import numpy as np
from specs.dft import direction


def ratio(nu, ref):
    return nu / ref


def spectral_model(stokes, spi, ref_freq, frequency, base=0):
    """base: one of 0, 1, 2, std, log, log10 for all polarisations"""
    pol = stokes.ndim == 2
    npol = stokes.shape[1] if pol else 1
    out = np.zeros((stokes.shape[0], frequency.shape[0], npol),
                   dtype=np.result_type(stokes.dtype, spi.dtype, ref_freq.dtype, frequency.dtype))
    for p in range(npol):
        for s in range(stokes.shape[0]):
            i0 = stokes[s, p] if pol else stokes[s]
            for f in range(frequency.shape[0]):
                out[s, f, p] = flux(i0, spi[s, :, p] if pol else spi[s], ratio(frequency[f], ref_freq[s]), base)
    if pol:
        return out
    return out[:, :, 0]


def flux(i0, alpha, x, base):
    if base == 0 or base == "std":
        v = i0
        for k in range(alpha.shape[0]):
            v = v * x ** alpha[k]
        return v
    if base == 1 or base == "log":
        e = np.log(i0)
        for k in range(alpha.shape[0]):
            e = e + alpha[k] * np.log(x) ** (k + 1)
        return np.exp(e)
    if base == 2 or base == "log10":
        e = np.log10(i0)
        for k in range(alpha.shape[0]):
            e = e + alpha[k] * np.log10(x) ** (k + 1)
        return 10 ** e
    raise ValueError("base")


def spectral_model_bases(stokes, spi, ref_freq, frequency, bases):
    """one base for each polarisation, the last one for those not listed"""
    npol = stokes.shape[1]
    out = np.zeros((stokes.shape[0], frequency.shape[0], npol), dtype=stokes.dtype)
    for p in range(npol):
        for s in range(stokes.shape[0]):
            for f in range(frequency.shape[0]):
                out[s, f, p] = flux(stokes[s, p], spi[s, :, p], ratio(frequency[f], ref_freq[s]), bases[p] if p < len(bases) else bases[-1])
    return out


def spectra(flux0, coeffs, log_poly, ref_freq, frequency):
    out = np.zeros((flux0.shape[0], frequency.shape[0]),
                   dtype=np.result_type(flux0.dtype, coeffs.dtype, ref_freq.dtype, frequency.dtype))
    for s in range(flux0.shape[0]):
        log = log_poly if isinstance(log_poly, bool) else log_poly[s]
        for f in range(frequency.shape[0]):
            x = frequency[f] / ref_freq[s]
            if log:
                if flux0[s] <= 0:
                    raise ValueError("flux")
                for k in range(coeffs.shape[1]):
                    if coeffs[s, k] <= 0:
                        raise ValueError("coefficient")
                e = np.log(flux0[s])
                for k in range(coeffs.shape[1]):
                    e = e + coeffs[s, k] * np.log(x) ** (k + 1)
                out[s, f] = np.exp(e)
            else:
                v = flux0[s]
                for k in range(coeffs.shape[1]):
                    v = v + coeffs[s, k] * (x - 1.0) ** (k + 1)
                out[s, f] = v
    return out


def gauss(u, v, nu, emaj, emin, angle):
    """transform of an elliptical Gaussian of these full widths at half maximum, the major axis at this position angle"""
    k = np.pi * nu / 2.99792458e8 / (2.0 * np.sqrt(np.log(2.0)))
    minor = (u * np.cos(angle) - v * np.sin(angle)) * (emin if emaj != 0 else 0)
    major = (u * np.sin(angle) + v * np.cos(angle)) * emaj
    return np.exp(-k * k * (minor * minor + major * major))


def gaussian(uvw, frequency, shape_params):
    out = np.zeros((shape_params.shape[0], uvw.shape[0], frequency.shape[0]),
                   dtype=np.result_type(uvw.dtype, frequency.dtype, shape_params.dtype))
    for s in range(shape_params.shape[0]):
        for r in range(uvw.shape[0]):
            for f in range(frequency.shape[0]):
                out[s, r, f] = gauss(uvw[r, 0], uvw[r, 1], frequency[f], shape_params[s, 0], shape_params[s, 1], shape_params[s, 2])
    return out


def wsclean_predict(uvw, lm, source_type, flux0, coeffs, log_poly, ref_freq, gauss_shape, frequency):
    spec = spectra(flux0, coeffs, log_poly, ref_freq, frequency)
    out = np.zeros((uvw.shape[0], frequency.shape[0], 1), dtype=np.complex128)
    for s in range(lm.shape[0]):
        kind = source_type[s]
        for r in range(uvw.shape[0]):
            u, v, w = uvw[r, 0], uvw[r, 1], uvw[r, 2]
            for f in range(frequency.shape[0]):
                a = 2 * np.pi * frequency[f] / 2.99792458e8 * (u * lm[s, 0] + v * lm[s, 1] + w * direction(lm[s, 0], lm[s, 1]))
                k = (np.cos(a) + 1j * np.sin(a)) * spec[s, f]
                if kind == "POINT":
                    out[r, f, 0] += k
                elif kind == "GAUSSIAN":
                    out[r, f, 0] += k * gauss(u, v, frequency[f], gauss_shape[s, 0], gauss_shape[s, 1], gauss_shape[s, 2])
                else:
                    raise ValueError("type")
    return out


def fit_step(data, weights, freqs, freq0, alpha0, i00, beam, mindet):
    """one Gauss-Newton step of the weighted fit of beam * i0 * (nu / nu0)^alpha, with the variances scaled by the reduced chi-squared"""
    ncomps, nfreq = data.shape
    out = np.zeros((4, ncomps), dtype=data.dtype)
    for c in range(ncomps):
        alpha = alpha0[c]
        i0 = i00[c]
        aa = 0.0
        ai = 0.0
        ii = 0.0
        ga = 0.0
        gi = 0.0
        chi = 0.0
        for f in range(nfreq):
            x = freqs[f] / freq0
            di = beam[c, f] * x ** alpha
            da = i0 * di * np.log(x)
            r = data[c, f] - i0 * di
            w = weights[f]
            chi += w * r * r
            ga += w * da * r
            gi += w * di * r
            aa += w * da * da
            ai += w * da * di
            ii += w * di * di
        det = aa * ii - ai * ai
        if det < mindet:
            det = mindet
        out[0, c] = alpha + (ii * ga - ai * gi) / det
        out[1, c] = ii / det * chi / (nfreq - 2)
        out[2, c] = i0 + (aa * gi - ai * ga) / det
        out[3, c] = aa / det * chi / (nfreq - 2)
    return out


def fit_defaults(data, weights, freqs, freq0, mindet):
    """spectral index -0.7, unit beam and the intensity measured nearest the reference frequency"""
    ncomps, nfreq = data.shape
    off = np.abs(freqs - freq0)
    best = np.argwhere(off == off.min()).squeeze()
    if np.size(best) > 1:
        best = best.min()
    return fit_step(data, weights, freqs, freq0, -0.7 * np.ones(ncomps), data[:, best], np.ones((ncomps, nfreq)), mindet)


def fit_two(data, weights, freqs, freq0, alpha0, i00, beam, mindet, tol):
    """a second step unless neither parameter moved by more than tol"""
    a = fit_step(data, weights, freqs, freq0, alpha0, i00, beam, mindet)
    b = fit_step(data, weights, freqs, freq0, a[0], a[2], beam, mindet)
    out = np.zeros((4, data.shape[0]), dtype=data.dtype)
    for k in range(4):
        for c in range(data.shape[0]):
            if np.maximum(np.abs(a[0, c] - alpha0[c]), np.abs(a[2, c] - i00[c])) > tol:
                out[k, c] = b[k, c]
            else:
                out[k, c] = a[k, c]
    return out
