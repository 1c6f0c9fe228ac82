"""C01: predicted visibilities are the documented RIME sum."""
from itertools import product
from sa.harness import A

RULE = "value-graph equality of the kernel summary with G_p(B_pq + sum_s E_ps X_pqs E_qs^H)G_q^H"


def arrays(cs):
    return {
        "time_index": A("time_index", ("row",), "i"), "antenna1": A("antenna1", ("row",), "i"),
        "antenna2": A("antenna2", ("row",), "i"),
        "dde1_jones": A("dde1_jones", ("source", "time", "ant", "chan") + cs, "c"),
        "dde2_jones": A("dde2_jones", ("source", "time", "ant", "chan") + cs, "c"),
        "source_coh": A("source_coh", ("source", "row", "chan") + cs, "c"),
        "die1_jones": A("die1_jones", ("time", "ant", "chan") + cs, "c"),
        "die2_jones": A("die2_jones", ("time", "ant", "chan") + cs, "c"),
        "base_vis": A("base_vis", ("row", "chan") + cs, "c"),
    }


PARALLEL = True


def run(ck):
    ck.rules = [RULE]
    for cs in ((1,), (2,), ("corr",), (2, 2)):
        a = arrays(cs)
        for dd, co, di, bv in product((0, 1), repeat=4):
            kw = {k: a[k] for k in ("time_index", "antenna1", "antenna2")}
            if dd:
                kw["dde1_jones"], kw["dde2_jones"] = a["dde1_jones"], a["dde2_jones"]
            if co:
                kw["source_coh"] = a["source_coh"]
            if di:
                kw["die1_jones"], kw["die2_jones"] = a["die1_jones"], a["die2_jones"]
            if bv:
                kw["base_vis"] = a["base_vis"]
            if not (dd or co or bv):
                continue            # nothing to predict from
            tag = "+".join(n for n, f in (("dde", dd), ("coh", co), ("die", di), ("base", bv)) if f)
            ck.equiv("predict_vis[%s,corr=%s]" % (tag, "x".join(map(str, cs))), "africanus.rime.predict.predict_vis",
                     "specs.rime.predict_vis", (), kw, RULE)
        kw = {k: a[k] for k in ("time_index", "antenna1", "antenna2")}
        for bad in ("dde1_jones", "dde2_jones", "die1_jones", "die2_jones"):
            ck.equiv("predict_vis[only %s,corr=%s]" % (bad, "x".join(map(str, cs))), "africanus.rime.predict.predict_vis",
                     "specs.rime.always_value_error", (), dict(kw, base_vis=a["base_vis"], **{bad: a[bad]}), RULE)
        ck.equiv("predict_vis[nothing,corr=%s]" % "x".join(map(str, cs)), "africanus.rime.predict.predict_vis",
                 "specs.rime.always_value_error", (), kw, RULE)
        kw.update(die1_jones=a["die1_jones"], corrupted_vis=a["base_vis"], die2_jones=a["die2_jones"])
        ck.equiv("apply_gains[corr=%s]" % "x".join(map(str, cs)), "africanus.rime.predict.apply_gains",
                 "specs.rime.apply_gains", (), kw, RULE)
    return ck.finish("every presence combination of the optional Jones terms, coherencies and base visibilities, "
                     "for scalar, diagonal and full correlations; all sizes")
