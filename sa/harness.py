"""Obligations, value comparison, evidence and exit protocol shared by all checks."""
import json
import os
import pickle
import signal
import sys
import time
import traceback

from . import terms as T
from . import rint
from .terms import Poly, Atom, ZERO, ONE, of, atom, num, const_of
from .values import (Arr, View, NT, Gate, Func, Ext, Opaque, InterpRaise, LList, LDict, LSet,
                     Slice, DType, Inst, Cls, Module, Bound, Partial, Exc, UNDEF)
from .interp import Interp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Vanished(Exception):
    """a public anchor of a property no longer exists"""


def D(n):
    return of(atom("dim", (n,), "i"))


def A(name, shape, kind="f"):
    return ("$arr", name, tuple(shape), kind)


def DA(name, dims, kind="f"):
    """a dask array; a dimension given as a list of names has that many chunks"""
    return ("$da", name, tuple(dims), kind)


def dimpoly(s):
    if isinstance(s, (list, tuple)):
        r = ZERO
        for x in s:
            r = T.add(r, dimpoly(x))
        return r
    return D(s) if isinstance(s, str) else s if isinstance(s, Poly) else num(s)


def whole(x):
    """the in-memory array with the contents of a dask array description"""
    if isinstance(x, tuple) and len(x) == 4 and x[0] == "$da":
        return ("$arr", x[1], tuple(dimpoly(s) for s in x[2]), x[3])
    return x


def S(name, kind="f"):
    """a symbolic scalar argument"""
    return of(atom("el", (name,), kind))


class Outcome:
    """result of analysing one call: value | raise | opaque"""

    def __init__(self, kind, value=None, interp=None, why=None):
        self.kind, self.value, self.I, self.why = kind, value, interp, why


class TimeUp(BaseException):
    pass


def _timeup(*a):
    raise TimeUp()


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = []            # (name, status, detail)
        self.covered = set()
        self.stats = {}
        self.rules = []
        self.violations = []
        self.known = load_known(pid)
        self.samples = []
        self.mutated = {}
        self.fin = None
        self.shard, self.seq, self.order = None, -1, []
        self.limit, self.budget = (100, 760) if tier == "quick" else (600, 6000)

    def parallel(self, run, n=6):
        """run(self) with its obligations spread over n processes"""
        if os.environ.get("VERIF_SERIAL"):
            return run(self)

        def body(ck):
            ck.finish = lambda *a, **k: setattr(ck, "fin", (a, k))
            run(ck)
        self.shards(body, n)
        a, k = self.fin
        return self.finish(*a, **k)

    def shards(self, body, n=6):
        """run body(self) in n processes, each deciding every n-th obligation; collect their findings in order"""
        if os.environ.get("VERIF_SERIAL"):
            return body(self)
        kids = []
        sys.stdout.flush()
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                out = None
                try:
                    self.shard = (k, n)
                    self.known_out = []
                    body(self)
                    out = (self.obl, self.violations, self.covered, self.stats, self.samples, self.mutated, self.order, self.rules, self.fin)
                except BaseException:
                    out = traceback.format_exc()
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
                os._exit(0)
            os.close(w)
            kids.append((pid, r))
        err, res = None, []
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                try:
                    x = pickle.load(f)
                except EOFError:
                    x = "a worker process ended without an answer"
            os.waitpid(pid, 0)
            if isinstance(x, str):
                err = x
                continue
            obl, vio, cov, stats, samples, mutated, order, self.rules, self.fin = x
            res.extend(zip(order, obl))
            self.violations.extend(vio)
            self.covered |= cov
            for a, b in stats.items():
                self.stats[a] = self.stats.get(a, 0) + b
            self.mutated.update(mutated)
            for line in samples:
                if line not in self.samples:
                    self.samples.append(line)
                    print(line)
        if err:
            raise RuntimeError(err)
        self.obl.extend(o for _, o in sorted(res, key=lambda z: z[0]))
        self.seq = -1

    # ---- building inputs
    def build(self, I, x):
        if isinstance(x, tuple) and len(x) == 4 and x[0] == "$arr":
            _, n, shape, k = x
            if isinstance(k, str) and len(k) > 1:
                k = DType([k])
            return I.input_array(n, [D(s) if isinstance(s, str) else s if isinstance(s, Poly) else num(s)
                                     for s in shape], k)
        if isinstance(x, tuple) and len(x) == 4 and x[0] == "$da":
            _, n, dims, k = x
            if isinstance(k, str) and len(k) > 1:
                k = DType([k])
            return I.D.from_input(I, n, [tuple(dimpoly(y) for y in s) if isinstance(s, (list, tuple)) else (dimpoly(s),)
                                         for s in dims], k)
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "$list":
            return I.mklist([self.build(I, y) for y in x[1]])
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "$oarr":
            return I.mkobj([self.build(I, y) for y in x[1]])
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "$dict":
            return I.mkdict({I.hkey(self.build(I, k)): self.build(I, v) for k, v in x[1].items()})
        if isinstance(x, tuple):
            return tuple(self.build(I, y) for y in x)
        if isinstance(x, bool):
            return ONE if x else ZERO
        if isinstance(x, (int, float)):
            return num(x)
        if callable(x) and not isinstance(x, (Poly, Atom)) and getattr(x, "$build", None):
            return x(I)
        if isinstance(x, Lazy):
            return x.f(I)
        return x

    def run(self, dotted, args=(), kw=None, setup=None, post=None):
        """analyse a call of a function of /repo or /verif/specs"""
        I = Interp(REPO)
        if setup:
            setup(I)
        try:
            mod, _, name = dotted.rpartition(".")
            if I.mod_path(mod) is None:
                raise Vanished(dotted)
            try:
                f = I.getfunc(dotted)
            except KeyError:
                raise Vanished(dotted)
            if isinstance(f, Ext):
                raise Vanished(dotted)
            a = [self.build(I, x) for x in args]
            k = {n: self.build(I, v) for n, v in (kw or {}).items()}
            r = I.call(f, a, k)
            out = Outcome("value", r, I)
            if post:
                out.value = post(I, r, a, k)
        except InterpRaise as e:
            out = Outcome("raise", e.exc, I, e.msg)
            out.explicit = getattr(e, "explicit", False)
        except (Opaque, T.TooBig, RecursionError) as e:
            out = Outcome("opaque", None, I, "%s: %s" % (type(e).__name__, e))
        except Vanished:
            raise
        except Exception as e:      # defensive: an engine gap is never a verdict
            tb = traceback.extract_tb(e.__traceback__)[-1]
            out = Outcome("opaque", None, I, "engine %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        if not dotted.startswith("specs."):
            self.covered |= {c for c in I.covered if not c.startswith("/")}
            for kk, v in I.stats.items():
                self.stats[kk] = self.stats.get(kk, 0) + v
        out.args = dotted
        return out

    # ---- verdicts
    def ob(self, name, status, detail="", where="", rule=""):
        """status: proved | agree | unknown | violated"""
        self.obl.append((name, status, detail if isinstance(detail, str) else str(detail)))
        self.order.append(self.seq)
        if status == "violated":
            key = name
            for k in self.known:
                if k["key"] == key:
                    self.obl[-1] = (name, "known", detail)
                    line = "KNOWN-FINDING: property=%s %s" % (self.pid, k["what"])
                    if line not in self.samples:
                        self.samples.append(line)
                        if not self.shard:
                            print(line)
                    return
            self.violations.append({"obligation": name, "rule": rule, "where": where, "detail": str(detail)})

    def same(self, name, found, expected, I1, I2, where, rule, **opt):
        try:
            st, why = cmpval(found, expected, I1, I2, **opt)
        except InterpRaise as e:
            st, why = "unknown", "reading the result: %s %s" % (e.exc, e.msg)
        except (Opaque, T.TooBig, RecursionError) as e:
            st, why = "unknown", "%s: %s" % (type(e).__name__, e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            st, why = "unknown", "engine %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
        self.ob(name, {"proved": "proved", "agree": "agree", "differ": "violated", "unknown": "unknown"}[st],
                why, where, rule)
        return st

    def equiv(self, name, *a, **k):
        """obligation: equiv1"""
        return self.timed(name, lambda nm: self.equiv1(nm, *a, **k)) or (None, None)

    def timed(self, name, body):
        """obligations of body(name), with a time limit; an analysis cut short decides nothing"""
        self.seq += 1
        if self.shard and self.seq % self.shard[1] != self.shard[0]:
            return None
        left = min(self.limit, self.budget - (time.time() - self.t0))
        if left < 2:
            self.ob(name, "unknown", "time limit of the check")
            return None
        old = signal.signal(signal.SIGALRM, _timeup)
        try:
            signal.setitimer(signal.ITIMER_REAL, left)
            return body(name)
        except TimeUp:
            self.ob(name, "unknown", "time limit of the obligation")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def equiv1(self, name, impl, spec, args=(), kw=None, rule="", setup=None, post=None, spost=None,
              sargs=None, skw=None, ssetup=None, where=None, **opt):
        """obligation: impl(args) and spec(args) have the same outcome"""
        o1 = self.run(impl, args, kw, setup, post)
        o2 = self.run(spec, args if sargs is None else sargs, kw if skw is None else skw, ssetup, spost or post) \
            if isinstance(spec, str) else spec
        where = where or self.locate(o1, impl)
        if o2.kind == "opaque":
            self.ob(name, "unknown", "specification not summarised: %s" % o2.why, where, rule)
            return o1, o2
        if o2.kind == "raise" and not o2.explicit:
            self.ob(name, "unknown", "specification fails: %s" % (o2.why,), where, rule)
            return o1, o2
        if o1.kind == "opaque":
            self.ob(name, "unknown", o1.why, where, rule)
            return o1, o2
        if o1.kind != o2.kind:
            d = "found %s, expected %s" % (describe(o1), describe(o2))
            self.ob(name, "violated", d, where, rule)
            return o1, o2
        if o1.kind == "raise":
            ok = o1.value == o2.value or o2.value == "Exception"
            self.ob(name, "proved" if ok else "violated", "found raise %s, expected raise %s" % (o1.value, o2.value), where, rule)
            return o1, o2
        if opt.pop("raises", False):
            try:
                st = self.same_raises(name, o1.I, o2.I, where, rule, opt)
            except (Opaque, T.TooBig, RecursionError) as e:
                self.ob(name + " (errors)", "unknown", "%s: %s" % (type(e).__name__, e), where, rule)
        self.same(name, o1.value, o2.value, o1.I, o2.I, where, rule, **opt)
        return o1, o2

    def same_raises(self, name, I1, I2, where, rule, opt):
        """the conditions under which an exception is raised are the same; values are compared where none is"""
        def cond(I):
            out, before = {}, {}
            for g, exc, w in I.raises:
                # only where no other kind of exception came first
                for e2, b in before.items():
                    if e2 != exc:
                        g = T.mul(g, T.lnot(b))
                out[exc] = T.lor(out.get(exc, ZERO), g)
                before[exc] = T.lor(before.get(exc, ZERO), g)
            return {k: g for k, g in out.items() if g is not ZERO}
        r1, r2 = cond(I1), cond(I2)
        tot = ZERO
        for g in r2.values():
            tot = T.lor(tot, g)
        for exc in sorted(set(r1) | set(r2)):
            st, why = cmppoly(r1.get(exc, ZERO), r2.get(exc, ZERO), **opt)
            self.ob("%s raises %s" % (name, exc), {"differ": "violated"}.get(st, st), why, where, rule)
        if tot is not ZERO:
            opt["pre"] = T.lnot(tot)

    def locate(self, o, dotted):
        try:
            f = o.I.getfunc(dotted)
            if isinstance(f, Func):
                return "%s:%s %s" % (os.path.relpath(f.module.path, REPO), f.node.lineno, f.qual)
        except Exception:
            pass
        return dotted

    # ---- finish
    def finish(self, explanation, assumptions=None, minimum=1):
        counts = {}
        for _, s, _d in self.obl:
            counts[s] = counts.get(s, 0) + 1
        cov = {
            "explanation": explanation,
            "obligations": len(self.obl),
            "proved_by_normal_form": counts.get("proved", 0),
            "agreed_by_random_interpretation": counts.get("agree", 0),
            "inconclusive": counts.get("unknown", 0),
            "known_findings": counts.get("known", 0),
            "violated": counts.get("violated", 0),
            "functions_analysed": len(self.covered),
            "functions": sorted(self.covered)[:400],
            "rules": self.rules,
            "obligation_names": [n for n, _, _ in self.obl][:600],
            "inconclusive_reasons": ["%s: %s" % (n, str(d)[:300]) for n, s, d in self.obl if s == "unknown"][:60],
        }
        cov.update({"analysed_" + k: v for k, v in self.stats.items()})
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other", "coverage": cov, "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.violations),
            "assumptions": assumptions or [],
        }
        ed = os.path.join(HERE, "evidence")
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        dec = len(self.obl) - counts.get("unknown", 0)
        print("%s: %d obligations, %d proved, %d agreed, %d inconclusive, %d known, %d violated; %d functions; %.1fs" % (
            self.pid, len(self.obl), counts.get("proved", 0), counts.get("agree", 0), counts.get("unknown", 0),
            counts.get("known", 0), len(self.violations), len(self.covered), time.time() - self.t0))
        if self.violations:
            rp = os.path.join(ed, self.pid + ".replay.json")
            with open(rp, "w") as f:
                json.dump(self.violations, f, indent=1)
            for v in self.violations[:20]:
                print("  %s\n    at %s\n    rule: %s\n    %s" % (v["obligation"], v["where"], v["rule"], str(v["detail"])[:1200]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if len(self.obl) < minimum:
            print("ANALYSIS-BROKEN property=%s: %d obligations, expected at least %d" % (self.pid, len(self.obl), minimum))
            return 2
        return 0


class Lazy:
    def __init__(self, f):
        self.f = f


def describe(o):
    if o.kind == "raise":
        return "raise %s (%s)" % (o.value, str(o.why)[:200])
    return "a value"


def load_known(pid):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == pid:
                    out.append(k)
    return out


# ----------------------------------------------------------------- comparison
def worst(a, b):
    o = ["proved", "agree", "unknown", "differ"]
    return a if o.index(a[0]) >= o.index(b[0]) else b


def cmppoly(a, b, ufs=None, **opt):
    if a is b:
        return "proved", ""
    assume = opt.get("assume", ())
    try:
        if T.equal(a, b):
            return "proved", ""
        for at, v in assume:
            a, b = T.cofactor(a, at, v), T.cofactor(b, at, v)
        if assume and T.equal(a, b):
            return "proved", ""
    except (T.TooBig, RecursionError):
        pass
    novel = (rint.names(a) - rint.names(b)) - {"uninit"}
    novel = {n for n in novel if not any(n.endswith(x) for x in opt.get("allow", ()))}
    if novel:
        return "unknown", "uninterpreted symbols not in the specification: %s" % sorted(novel)[:6]
    st, w = rint.compare(a, b, inputs=opt.get("inputs"), dims=opt.get("dims"), dimsets=opt.get("dimsets"), n=opt.get("n", 24),
                         assume=assume, pre=opt.get("pre"))
    if st == "differ":
        return "differ", "found    %s\n      expected %s\n      witness %s" % (T.show(a)[:1500], T.show(b)[:1500], w)
    return st, str(w)


def segmented(x, I):
    if isinstance(x, Gate):
        return segmented(x.a, I) or segmented(x.b, I)
    if isinstance(x, LList):
        h = I.heap[x.id]
        return isinstance(h, tuple) and any(isinstance(y, tuple) and y and y[0] in ("cond", "forseg") or segmented(y, I) for y in h)
    if isinstance(x, tuple):
        return any(segmented(y, I) for y in x)
    if isinstance(x, Poly) and len(x.terms) == 1 and len(x.terms[0][0]) == 1:
        a = x.terms[0][0][0][0]
        return a.head == "call" and len(a.args) == 2 and a.args[0] in ("tuple", "list") and isinstance(a.args[1], tuple) and a.args[1][0] == "list"
    return False


def cmpseq(a, b, I1, I2, path, **opt):
    """sequences whose length depends on data: compare the expansions under each valuation"""
    ta, tb = I1.termify(a), I2.termify(b)
    if T._akey(ta) == T._akey(tb):
        return "proved", ""
    skip = {"call:tuple", "call:list"}
    novel = rint.names(ta) - rint.names(tb) - skip - {"uninit"}
    if novel:
        return "unknown", "uninterpreted symbols not in the specification: %s" % sorted(novel)[:6]
    st, w = rint.compare_struct(ta, tb, inputs=opt.get("inputs"), dims=opt.get("dims"), dimsets=opt.get("dimsets"), n=opt.get("n", 40), pre=opt.get("pre"))
    return st, "%s: %s" % (path, w)


def cmpval(a, b, I1, I2, path="", **opt):
    fixed = isinstance(a, (tuple, NT)) and isinstance(b, (tuple, NT))
    if not fixed and not isinstance(a, (Arr, View)) and not isinstance(b, (Arr, View)) and (segmented(a, I1) or segmented(b, I2)):
        return cmpseq(a, b, I1, I2, path, **opt)
    if isinstance(a, Gate) or isinstance(b, Gate):
        return cmpgate(a, b, I1, I2, path, **opt)
    if isinstance(a, NT):
        a = tuple(a.vals)
    if isinstance(b, NT):
        b = tuple(b.vals)
    if isinstance(a, LList):
        a = tuple(I1.heap[a.id]) if isinstance(I1.heap[a.id], (list, tuple)) else a
    if isinstance(b, LList):
        b = tuple(I2.heap[b.id]) if isinstance(I2.heap[b.id], (list, tuple)) else b
    if isinstance(a, LDict) and isinstance(b, LDict):
        d1, d2 = I1.heap[a.id], I2.heap[b.id]
        if isinstance(d1, dict) and isinstance(d2, dict):
            r = ("proved", "")
            if set(map(repr, d1)) != set(map(repr, d2)):
                return "differ", "%s: keys %s, expected %s" % (path, sorted(map(repr, d1)), sorted(map(repr, d2)))
            m2 = {repr(k): v for k, v in d2.items()}
            for k, v in d1.items():
                r = worst(r, cmpval(v, m2[repr(k)], I1, I2, "%s[%r]" % (path, k), **opt))
            return r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "differ", "%s: %d values, expected %d" % (path, len(a), len(b))
        r = ("proved", "")
        for i, (x, y) in enumerate(zip(a, b)):
            r = worst(r, cmpval(x, y, I1, I2, "%s[%d]" % (path, i), **opt))
        return r
    if isinstance(a, (Arr, View)) and isinstance(b, (Arr, View)):
        return cmparr(a, b, I1, I2, path, **opt)
    if isinstance(a, Poly) and isinstance(b, Poly):
        st, w = cmppoly(a, b, **opt)
        return st, ("%s: %s" % (path, w) if w else "")
    if isinstance(a, (Poly,)) and isinstance(b, (Arr, View)) or isinstance(b, Poly) and isinstance(a, (Arr, View)):
        p = a if isinstance(a, Poly) else b
        if p.heads & (rint.UNKNOWN | rint.UF):
            return "unknown", "%s: array against term" % path
        return "differ", "%s: found %s, expected %s" % (path, kindof(a), kindof(b))
    if a is None and b is None:
        return "proved", ""
    if isinstance(a, (str, bytes, bool, type(None))) or isinstance(b, (str, bytes, bool, type(None))):
        if type(a) is type(b):
            return ("proved", "") if a == b else ("differ", "%s: found %r, expected %r" % (path, a, b))
        x = a if not isinstance(a, (str, type(None))) else b
        if isinstance(x, Poly) and x.heads & (rint.UNKNOWN | rint.UF):
            return "unknown", "%s: %s against %s" % (path, kindof(a), kindof(b))
        return "differ", "%s: found %s, expected %s" % (path, show(a), show(b))
    if isinstance(a, (Func, Ext, Cls, Module)) and isinstance(b, (Func, Ext, Cls, Module)):
        n1, n2 = repr(a), repr(b)
        return ("proved", "") if n1 == n2 else ("unknown", "%s: %s against %s" % (path, n1, n2))
    try:
        t1, t2 = I1.termify(a), I2.termify(b)
        if t1 is t2 or T._akey(t1) == T._akey(t2):
            return "proved", ""
    except Exception:
        pass
    return "unknown", "%s: %s against %s" % (path, kindof(a), kindof(b))


def cmpgate(a, b, I1, I2, path, **opt):
    """compare under every valuation of the gating conditions (they must be the same terms)"""
    def gates(x, out):
        if isinstance(x, Gate):
            out.append(x.c)
            gates(x.a, out)
            gates(x.b, out)
    conds = []
    gates(a, conds)
    gates(b, conds)
    uniq = []
    for c in conds:
        for at in T.bool_atoms(c):
            if at not in uniq:
                uniq.append(at)
    if len(uniq) > 6:
        return "unknown", "%s: too many gates" % path

    def pick(x, env):
        while isinstance(x, Gate):
            c = x.c
            for at, v in env.items():
                c = T.cofactor(c, at, v)
            k = const_of(c)
            if k is None:
                return x
            x = x.a if k else x.b
        return x
    r = ("proved", "")
    n = len(uniq)
    for m in range(1 << n):
        env = {u: (m >> i) & 1 for i, u in enumerate(uniq)}
        x, y = pick(a, env), pick(b, env)
        if isinstance(x, Gate) or isinstance(y, Gate):
            return "unknown", "%s: unresolved gate" % path
        o2 = dict(opt)
        o2["assume"] = tuple(opt.get("assume", ())) + tuple(env.items())
        st = cmpval(x, y, I1, I2, path, **o2)
        if st[0] == "differ" and n > 1:
            # the combination may be infeasible
            ok = feasible(env)
            if ok is None:
                st = ("unknown", st[1])
            elif not ok:
                continue
        r = worst(r, st)
    return r


def feasible(env):
    g = ONE
    for at, v in env.items():
        p = of(at)
        g = T.mul(g, p if v else T.lnot(p))
    if g is ZERO:
        return False
    for seed in range(60):
        try:
            if rint.Valuation(seed).poly(g):
                return True
        except (rint.Undef, rint.Unknown):
            continue
    return None


def kindof(x):
    if isinstance(x, (Arr, View)):
        return "array of shape %s" % (tuple(map(str, x.shape)),)
    if isinstance(x, Poly):
        return "scalar " + T.show(x)[:200]
    return "%s %s" % (type(x).__name__, str(x)[:120])


show = kindof


def cmparr(a, b, I1, I2, path, dtype=False, **opt):
    if len(a.shape) != len(b.shape):
        if any(x.heads & (rint.UNKNOWN | rint.UF) for x in a.shape):
            return "unknown", "%s: shape not summarised: %s" % (path, kindof(a)[:200])
        return "differ", "%s: found %s, expected %s" % (path, kindof(a), kindof(b))
    r = ("proved", "")
    for i, (x, y) in enumerate(zip(a.shape, b.shape)):
        st = cmppoly(x, y, **opt)
        if st[0] == "differ":
            return "differ", "%s: dimension %d: %s" % (path, i, st[1])
        r = worst(r, (st[0], "%s shape: %s" % (path, st[1])))
    if dtype:
        st = cmpdtype(a.dtype, b.dtype)
        r = worst(r, (st[0], "%s dtype: %s" % (path, st[1])))
    if r[0] != "unknown" and any(x is ZERO for x in tuple(a.shape) + tuple(b.shape)):
        return r                    # no elements
    ca, cb = I1.comprehend(a), I2.comprehend(b)
    if len(ca) != len(cb):
        return worst(r, ("unknown", "%s: patterns" % path))
    mp = {}
    for (pa, va), (pb, vb) in zip(ca, cb):
        st, w = cmppoly(va, vb, **opt)
        if st != "proved":
            r = worst(r, (st, "%s[%s]: %s" % (path, ",".join(T.show(x) for x in pb), w)))
            if st == "differ":
                break
    return r


def cmpdtype(a, b):
    if a == b:
        return "proved", ""
    if not isinstance(a, DType) or not isinstance(b, DType):
        return "unknown", "%r / %r" % (a, b)
    if a.kind != "?" and b.kind != "?" and a.kind != b.kind:
        return "differ", "found dtype %r, expected %r" % (a, b)
    if a.concrete() and b.concrete() and a.concrete() != b.concrete():
        return "differ", "found dtype %r, expected %r" % (a, b)
    return "unknown", "%r / %r" % (a, b)
