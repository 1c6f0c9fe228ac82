"""C16: FITS beam axes, grids and file names."""
import itertools
from sa.harness import S

R1 = "value-graph equality of every grid with crval + (pixel - crpix) cdelt, for each axis order and unit"
R2 = "constant folding of the documented file name schemas"
M = "africanus.util.beams."
IDS = dict(I=1, Q=2, U=3, V=4, RR=5, RL=6, LR=7, LL=8, XX=9, XY=10, YX=11, YY=12)


def header(order, names, units, sizes, gfreq=0, drop=(), extra=None):
    """order: which of l,m,f,o sits on FITS axis 1.."""
    h = {"NAXIS": len(order)}
    for n, a in enumerate(order, 1):
        h["NAXIS%d" % n] = sizes[a]
        h["CTYPE%d" % n] = names[a]
        h["CRPIX%d" % n] = S("crpix" + a)
        h["CRVAL%d" % n] = S("crval" + a)
        h["CDELT%d" % n] = S("cdelt" + a)
        if units[a] is not None:
            h["CUNIT%d" % n] = units[a]
    for j in range(1, gfreq + 1):
        h["GFREQ%d" % j] = S("gfreq%d" % j)
    h.update(extra or {})
    for d in drop:
        del h[d]
    return ("$dict", h)


def run(ck):
    ck.rules = [R1, R2]
    sizes = dict(l=3, m=2, f=4, o=1)
    units = dict(l="DEG", m="DEG", f=None, o=None)
    base = dict(l="X", m="Y", f="FREQ", o="STOKES")
    P = lambda o: (o.index("l") + 1, o.index("m") + 1, o.index("f") + 1)

    def good(tag, o, h, kw=None, ls=1.0, ms=1.0):
        ck.equiv("beam_grids " + tag, M + "beam_grids", "specs.beams.beam_grids", (h,), kw, R1, sargs=(h,) + P(o) + (ls, ms), skw={})
    for o in itertools.permutations("lmf"):
        good("axes " + "".join(o), o, header(o, base, units, sizes))
    for o in (("o", "l", "m", "f"), ("l", "o", "f", "m"), ("f", "m", "l", "o")):
        good("axes " + "".join(o), o, header(o, base, units, sizes))
    o = ("l", "m", "f")
    for lt, mt in (("L", "M"), ("PX", "PY"), ("x", "y"), ("l ", " m"), ("px", "M")):
        good("ctypes %s %s" % (lt, mt), o, header(o, dict(base, l=lt, m=mt), units, sizes))
    for lu, mu, fu in ((None, None, None), ("RAD", "RAD", "HZ"), ("deg", "deg ", "Hz"), ("DEG", None, None), (None, "deg", None), ("RAD", "DEG", "HZ")):
        good("units %s %s %s" % (lu, mu, fu), o, header(o, base, dict(l=lu, m=mu, f=fu), sizes))
    for g in (1, 3, 4):
        good("%d irregular frequencies" % g, o, header(o, base, units, sizes, g))
        good("%d irregular frequencies, frequency first" % g, ("f", "l", "m"), header(("f", "l", "m"), base, units, sizes, g))
    for la, ma, ls, ms in ((None, None, 1., 1.), ("L", "M", 1., 1.), ("-L", "M", -1., 1.), ("X", "-Y", 1., -1.), ("-X", "-Y", -1., -1.), ("", "-M", 1., -1.)):
        good("signs %s %s" % (la, ma), o, header(o, base, units, sizes), dict(l_axis=la, m_axis=ma), ls, ms)
    for d in (("CRVAL1",), ("CDELT2",), ("CUNIT1",), ("CRVAL3", "CDELT3")):
        good("default %s" % "+".join(d), o, header(o, base, units, sizes, drop=d))
    o4 = ("l", "m", "f", "o")
    good("axis without CTYPE", o4, header(o4, base, units, sizes, drop=("CTYPE4",)))
    for bad in "lmf":
        ck.equiv("beam_grids rejects missing %s axis" % bad, M + "beam_grids", "specs.beams.value_error",
                 (header(o, dict(base, **{bad: "RA"}), units, sizes),), None, R1)
    ck.equiv("beam_grids rejects non-string axis", M + "beam_grids", "specs.beams.type_error",
             (header(o, base, units, sizes),), dict(l_axis=3), R1)
    # file names
    corrs = [("XX", "XY", "YX", "YY"), ("RR", "RL", "LR", "LL"), ("XX", "YY"), ("I",), ("YY", "XX", "I", "V")]
    for cs in corrs:
        for sch, f in (("beam_$(corr)_$(reim).fits", lambda c, r: "beam_%s_%s.fits" % (c.lower(), r.lower())),
                       ("beam_$(CORR)_$(REIM).fits", lambda c, r: "beam_%s_%s.fits" % (c.upper(), r.upper())),
                       ("$(reim)/b$(CORR).fits", lambda c, r: "%s/b%s.fits" % (r.lower(), c.upper())),
                       ("b$$_$(corr)$(corr)_$reim", lambda c, r: "b$_%s%s_%s" % (c.lower(), c.lower(), r.lower()))):
            want = ("$dict", {c.lower(): ("$list", [f(c, "re"), f(c, "im")]) for c in cs})
            ck.equiv("beam_filenames %s %s" % (sch, "".join(cs)), M + "beam_filenames", "specs.beams.same",
                     (sch, ("$list", [IDS[c] for c in cs])), None, R2, sargs=(want,))
    ck.equiv("beam_filenames rejects unknown id", M + "beam_filenames", "specs.beams.value_error", ("b_$(corr)_$(reim)", ("$list", [9, 77])), None, R2)
    ck.equiv("beam_filenames rejects unknown key", M + "beam_filenames", "specs.beams.value_error", ("b_$(stokes)", ("$list", [9])), None, R2)
    return ck.finish("all header values symbolic; axis orders, names, units, signs, irregular grids and schemas enumerated", ["axis sizes fixed (3, 2, 4)"], 40)
