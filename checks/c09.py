"""C09: no computation writes to the arrays it is given."""
import importlib

R = "no store reaches an array that the caller passed in"
FROM = ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c10", "c11", "c13", "c14", "c16", "c17", "c18", "c20", "c21", "c22")
# lower-level kernels whose last arguments are the arrays they fill
FILLS = ()
PARALLEL = True


class Calls:
    """collects the calls other checks analyse"""
    def __init__(self, tier):
        self.tier, self.out, self.rules, self.samples, self.limit = tier, [], [], [], 0

    def equiv(self, name, impl, spec, args=(), kw=None, rule="", setup=None, **opt):
        self.out.append((name, impl, args, kw or {}, setup))

    def run(self, impl, args=(), kw=None, setup=None, post=None):
        raise Done()

    def timed(self, *a):
        pass

    def ob(self, *a, **k):
        pass

    def finish(self, *a, **k):
        return 0


class Done(Exception):
    pass


def calls(tier):
    per = {}
    for m in FROM:
        try:
            mod = importlib.import_module("checks." + m)
        except ImportError:
            continue
        c = Calls(tier)
        try:
            mod.run(c)
        except Done:
            pass
        for name, impl, args, kw, setup in c.out:
            if impl.startswith("africanus.") and impl not in FILLS and not name.startswith(("reject", "rejected")):
                per.setdefault(impl, []).append((name, args, kw, setup))
    cap = 12 if tier == "quick" else 60
    for impl, cs in sorted(per.items()):
        k = min(cap, len(cs))
        for i in range(k):
            yield (impl,) + cs[i * len(cs) // k]


def run(ck):
    ck.rules = [R]
    ck.limit = 40 if ck.tier == "quick" else 300
    for impl, name, args, kw, setup in calls(ck.tier):
        ck.timed("%s: %s" % (impl, name), lambda nm: one(ck, nm, impl, args, kw, setup))
    return ck.finish("the calls analysed by the other checks, for every store on every path of the functions they reach", [], 60)


def one(ck, nm, impl, args, kw, setup):
    o = ck.run(impl, args, kw, setup)
    where = ck.locate(o, impl)
    if o.kind == "opaque":
        ck.ob(nm, "unknown", o.why, where, R)
        return
    w = o.I.written_inputs
    if w:
        ck.ob(nm, "violated", "; ".join("%s is written at %s" % (k, ", ".join(sorted({str(s) for s in v})[:3])) for k, v in sorted(w.items())), where, R)
    else:
        ck.ob(nm, "proved" if o.kind == "value" or o.explicit else "unknown", "" if o.kind == "value" else str(o.why), where, R)
