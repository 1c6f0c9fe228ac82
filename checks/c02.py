"""C02: direct Fourier transforms and the phase delay share one sign convention."""
from sa.harness import A


RULE = "value-graph equality of the kernel summary with the documented formula"


def run(ck):
    ck.rules = [RULE]
    lm, uvw, fr = A("lm", ("source", 2)), A("uvw", ("row", 3)), A("frequency", ("chan",))
    for conv in ("fourier", "casa", "bogus"):
        ck.equiv("phase_delay[%s]" % conv, "africanus.rime.phase.phase_delay", "specs.dft.phase_delay",
                 (lm, uvw, fr), {"convention": conv}, RULE)
        for nc in (1, 2, 4, "corr"):
            ck.equiv("im_to_vis[%s,corr=%s]" % (conv, nc), "africanus.dft.kernels.im_to_vis", "specs.dft.im_to_vis",
                     (A("image", ("source", "chan", nc), "c"), uvw, lm, fr), {"convention": conv}, RULE)
            ck.equiv("vis_to_im[%s,corr=%s]" % (conv, nc), "africanus.dft.kernels.vis_to_im", "specs.dft.vis_to_im",
                     (A("vis", ("row", "chan", nc), "c"), uvw, lm, fr, A("flags", ("row", "chan", nc), "b")),
                     {"convention": conv}, RULE)
    ck.equiv("phase_delay[default]", "africanus.rime.phase.phase_delay", "specs.dft.phase_delay", (lm, uvw, fr), None, RULE)
    return ck.finish("every kernel path summarised as a closed form over all sources, rows, channels and correlations")
