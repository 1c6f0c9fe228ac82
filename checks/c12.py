"""C12: optional dependencies: every module imports without them, and whatever needs one says so when called."""
import ast
import builtins
import os
import sys
from sa.harness import Interp, InterpRaise, Opaque, REPO, Partial, Func, Cls, ONE
from sa.values import Exc, Ext, Bound
from sa import terms as T

CORE = {"numpy", "numba", "appdirs", "decorator", "africanus", "specs", "distutils", "pkg_resources", "setuptools"}
R1 = "module initialisation interpreted in an environment lacking the optional packages raises nothing"
R2 = "a public function whose call graph reads a name that the missing package leaves unbound is replaced by one raising MissingPackageException"
R3 = "path summary of the gating decorator for each kind of requirement"
REQ = "africanus.util.requirements.requires_optional"


def modules():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "africanus")):
        rel = os.path.relpath(d, REPO).split(os.sep)
        if {"tests", "test", "examples", "__pycache__"} & set(rel):
            continue
        for f in sorted(fs):
            if f.endswith(".py") and not f.startswith("test_") and f != "conftest.py":
                m = ".".join(rel + [f[:-3]])
                out.append(m[:-9] if m.endswith(".__init__") else m)
    return sorted(out)


def optional(mods):
    roots = set()
    I = Interp(REPO)
    for m in mods:
        with open(I.mod_path(m)) as f:
            t = ast.parse(f.read())
        for n in ast.walk(t):
            if isinstance(n, ast.Import):
                roots |= {a.name.split(".")[0] for a in n.names}
            if isinstance(n, ast.ImportFrom) and not n.level and n.module:
                roots.add(n.module.split(".")[0])
    return sorted(r for r in roots if r not in CORE and r not in sys.stdlib_module_names)


def strict(missing):
    I = Interp(REPO)
    I.missing = set(missing)
    I.funcmodels.pop(REQ, None)
    return I


def gated(v):
    return isinstance(v, Partial) and isinstance(v.fn, Func) and v.args and isinstance(v.args[0], (Func, Cls, Partial, Bound))


def free_names(node):
    """names a function reads from the enclosing module"""
    out = {}

    def visit(n, bound):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            a = n.args
            b = set(bound) | {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
            for x in (a.vararg, a.kwarg):
                if x:
                    b.add(x.arg)
            body = n.body if isinstance(n.body, list) else [n.body]
            for s in body:
                for y in ast.walk(s):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
                        b.add(y.id)
                    elif isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                        b.add(y.name)
                    elif isinstance(y, (ast.Import, ast.ImportFrom)):
                        b |= {(z.asname or z.name).split(".")[0] for z in y.names}
                    elif isinstance(y, ast.ExceptHandler) and y.name:
                        b.add(y.name)
                    elif isinstance(y, ast.Global):
                        pass
            for s in body:
                visit(s, b)
            return
        if isinstance(n, ast.Try) and any(h.type is None or "NameError" in ast.dump(h.type) for h in n.handlers):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in bound:
            out.setdefault(n.id, n.lineno)
        for c in ast.iter_child_nodes(n):
            visit(c, bound)
    visit(node, set())
    return out


def unbound(f, seen, trail=()):
    """(name, trail) of a module name that f's call graph reads and that is not bound"""
    if f in seen or not isinstance(f.node, ast.FunctionDef):
        return None
    seen.add(f)
    if f.env is not None and f.env.parent is not None:
        return None
    env = f.module.env
    fn = free_names(f.node)
    for n, line in fn.items():
        if n not in env and not hasattr(builtins, n) and n != f.node.name:
            return n, trail + ("%s:%d %s" % (os.path.relpath(f.module.path, REPO), line, f.qual),)
    for n, line in fn.items():
        v = env.get(n)
        if isinstance(v, Func):
            r = unbound(v, seen, trail + ("%s:%d %s" % (os.path.relpath(f.module.path, REPO), line, f.qual),))
            if r:
                return r
    return None


def documented():
    """(module, name) pairs of the API documentation"""
    out = set()
    dd = os.path.join(REPO, "docs")
    for f in sorted(os.listdir(dd)) if os.path.isdir(dd) else []:
        if f.endswith(".rst"):
            cur = None
            for line in open(os.path.join(dd, f)):
                w = line.strip()
                if w.startswith(".. currentmodule::"):
                    cur = w.split("::")[1].strip()
                elif w.startswith((".. autofunction::", ".. autoclass::")) and cur:
                    out.add((cur, w.split("::")[1].strip()))
    return out


def public(I, mods, docs):
    """function and class objects a user can reach by documentation or package export"""
    out = set()
    for m, n in docs:
        mod = I.modules.get(m)
        if mod is not None and n in mod.env:
            out.add(id(mod.env[n]))
    for m in mods:
        mod = I.modules.get(m)
        if mod is not None and mod.path.endswith("__init__.py"):
            out |= {id(v) for n, v in mod.env.items() if not n.startswith("_")}
    return out


def run(ck):
    docs = documented()
    ck.rules = [R1, R2, R3]
    mods = modules()
    opt = optional(mods)
    ck.covered |= set(mods)
    sets = [("nothing", [])] + [("any optional package", opt)] + [(p, [p]) for p in opt]
    baseline = None
    ngate = 0
    for tag, miss in sets:
        I = strict(miss)
        for m in mods:
            try:
                I.load(m)
            except (InterpRaise, Opaque):
                pass
        bad = dict(I.import_failures)
        direct = {m: v for m, v in bad.items() if "fails to import" not in v[2]}
        for m in mods:
            if m in direct:
                ln, exc, msg = direct[m]
                ck.ob("import %s without %s" % (m, tag), "violated", "%s: %s" % (exc, msg), "%s:%d" % (m.replace(".", "/") + ".py", ln), R1)
            else:
                ck.ob("import %s without %s" % (m, tag), "proved", "", "", R1)
        if not miss:
            continue
        pub = public(I, mods, docs)
        for m in mods:
            mod = I.modules.get(m)
            if mod is None:
                continue
            for n, v in sorted(mod.env.items()):
                if n.startswith("_") or id(v) not in pub and not gated(v):
                    continue
                if gated(v) and v.args[0].module is mod if gated(v) and isinstance(v.args[0], Func) else False:
                    ngate += 1
                    try:
                        I.call(v, [], {})
                        st, d = "violated", "returns instead of raising MissingPackageException"
                    except InterpRaise as e:
                        st = "proved" if e.exc in ("MissingPackageException",) else "violated"
                        d = "raises %s" % e.exc
                    except Opaque as e:
                        st, d = "unknown", str(e)
                    ck.ob("call %s.%s without %s" % (m, n, tag), st, d, "%s %s" % (m, n), R2)
                elif isinstance(v, Func) and v.module is mod:
                    r = unbound(v, set())
                    if r:
                        ck.ob("call %s.%s without %s" % (m, n, tag), "violated", "reads unbound %s: raises NameError, not MissingPackageException" % r[0],
                              " -> ".join(r[1]), R2)
                    else:
                        ck.ob("call %s.%s without %s" % (m, n, tag), "proved", "", "", R2)
                elif isinstance(v, Cls) and getattr(v, "module", mod) is mod:
                    for an, f in list(getattr(v, "dict", {}).items()):
                        if isinstance(f, Func) and f.module is mod:
                            r = unbound(f, set())
                            if r:
                                ck.ob("call %s.%s.%s without %s" % (m, n, an, tag), "violated",
                                      "reads unbound %s: raises NameError, not MissingPackageException" % r[0], " -> ".join(r[1]), R2)
    # the decorator itself
    def deco(tag, reqs, missing, want, pytest=False):
        I = strict(missing)
        try:
            req = I.getfunc(REQ)
            force = I.getfunc("africanus.util.testing.force_missing_pkg_exception")
            if pytest:
                I.call(I.getfunc("africanus.util.testing.mark_in_pytest"), [ONE], {})
            fn = I.getfunc("africanus.util.shapes.corr_shape")
            rq = [Exc("ImportError") if r is ImportError else force if r == "$force" else r for r in reqs]
            d = I.call(req, rq, {})
            w = I.call(d, [fn], {})
            if w is fn:
                got = "original"
            else:
                I.events.clear()
                r = I.call(w, [T.num(4), "flat"], {})
                sk = [e for e in I.events if e[0] == "extcall" and "skip" in str(e[1])]
                got = "skip" if sk else "returned"
        except InterpRaise as e:
            got = e.exc
        except Opaque as e:
            ck.ob("requires_optional " + tag, "unknown", str(e), REQ, R3)
            return
        ck.ob("requires_optional " + tag, "proved" if got == want else "violated", "outcome %s, expected %s" % (got, want), REQ, R3)

    MPE = "MissingPackageException"
    deco("all present", ["scipy", "dask.array"], [], "original")
    deco("None ignored", ["scipy", None], [], "original")
    deco("no requirement", [], [], "original")
    deco("missing", ["scipy"], ["scipy"], MPE)
    deco("missing with its error", ["scipy", ImportError], ["scipy"], MPE)
    deco("error before name", [ImportError, "scipy"], ["scipy"], MPE)
    deco("one of two missing (first)", ["scipy", "dask.array"], ["scipy"], MPE)
    deco("one of two missing (second)", ["dask.array", "scipy"], ["scipy"], MPE)
    deco("missing then error then present", ["scipy", ImportError, "dask"], ["scipy"], MPE)
    deco("present but importing failed", ["scipy", ImportError], [], "ImportError")
    deco("error alone", [ImportError], [], "ImportError")
    deco("bad requirement", [T.num(3)], [], "TypeError")
    deco("bad requirement after missing", ["scipy", T.num(3)], ["scipy"], "TypeError")
    deco("missing under pytest skips", ["scipy"], ["scipy"], "skip", True)
    deco("forced under pytest raises", ["scipy", "$force"], ["scipy"], MPE, True)
    deco("forced first under pytest raises", ["$force", "scipy", ImportError], ["scipy"], MPE, True)
    deco("present under pytest", ["scipy"], [], "original", True)
    return ck.finish("%d modules interpreted in %d environments (everything present, nothing optional present, each of %s missing alone); "
                     "%d gated calls" % (len(mods), len(sets), ", ".join(opt), ngate),
                     ["an absent package makes importing it raise ImportError"], 300)
