"""C15: state that outlives a call is guarded."""
import ast
import glob
import os

from sa import locks as L
from sa.harness import REPO, Vanished

R1 = "lockset: two accesses to one piece of lasting state by threads that can run at once, one of them a change, hold a common lock"
R2 = "a value made on demand is made inside the critical section that looked for it and recorded before that section ends"
R3 = "functions leave module globals, class attributes, function attributes, mutable defaults and captured variables as they were, or change them under a lock"
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = {"list", "dict", "set", "defaultdict", "deque", "OrderedDict", "zeros", "empty", "ones", "full", "array", "zeros_like", "empty_like", "ones_like", "arange", "Counter"}
# a discovery of the CUDA toolchain repeated by two threads gives both the same answer
IDEMPOTENT = {"africanus/util/nvcc.py"}
SHARED = {"africanus/util/code.py": ("memoize_on_key", "SingletonMixin"), "africanus/util/dask_util.py": ("EstimatingProgressBar",)}
CREATE = {"africanus/util/code.py": [("memoize_on_key", "__call__"), ("SingletonMixin", "instance")],
          "africanus/util/trove.py": ["trove_dir"], "africanus/util/cub.py": ["cub_dir"]}


def modules():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "africanus", "**", "*.py"), recursive=True)):
        rel = os.path.relpath(f, REPO)
        if any(p in ("tests", "test", "examples") for p in rel.split(os.sep)) or os.path.basename(f).startswith("test_"):
            continue
        with open(f) as h:
            out.append((rel, ast.parse(h.read())))
    return out


def escaping(outer, name):
    for x in ast.walk(outer):
        if isinstance(x, ast.Return) and x.value is not None and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.value)):
            if not any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == name for y in ast.walk(x.value)):
                return True
    return False


def referenced(tree):
    """names of functions and methods that other functions of the module use"""
    out = set()

    def walk(n, owners):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                walk(c, owners | {c.name})
                continue
            if owners:
                nm = c.id if isinstance(c, ast.Name) else c.attr if isinstance(c, ast.Attribute) else None
                if nm is not None and isinstance(c.ctx, ast.Load) and nm not in owners:
                    out.add(nm)
            walk(c, owners)
    walk(tree, frozenset())
    return out


def cells(outer, env):
    """variables of outer that a function outliving it can change"""
    up = dict(env)
    for x in ast.walk(outer):
        if isinstance(x, ast.Assign) and (isinstance(x.value, MUTABLE) or L.ctor(x.value) in MAKERS):
            for t in x.targets:
                if isinstance(t, ast.Name) and t.id in env["$locals"] and up.get(t.id) is None:
                    up[t.id] = L.Ref(("cell", outer.name, t.id))
        elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant):
            for t in x.targets:
                if isinstance(t, ast.Name) and up.get(t.id) is None and any(isinstance(y, ast.Nonlocal) and t.id in y.names for y in ast.walk(outer)):
                    up[t.id] = L.Ref(("cell", outer.name, t.id))
    return up


def enter_all(M, fn, args, thread, mode, depth=0, up=None):
    _, nested, _ = M.enter(fn, args, thread, up=up, mode=mode)
    seen = set()
    for s, env in nested:
        if s in seen or depth > 3:
            continue
        seen.add(s)
        owner = max((o for o in ast.walk(fn) if isinstance(o, ast.FunctionDef) and o is not s and any(y is s for y in ast.walk(o))),
                    key=lambda o: o.lineno, default=fn)
        if escaping(owner, s.name):
            enter_all(M, s, [], thread + "." + s.name, mode, depth + 1, up=cells(owner, env))


def show(root):
    return {"mod": "global %s", "obj": "attribute %s", "cell": "captured variable %s", "default": "default argument %s",
            "fnattr": "function attribute %s"}[root[0]] % ".".join(map(str, root[1:]))


def run(ck):
    ck.rules = [R1, R2, R3]
    seen = set()
    for rel, tree in modules():
        seen.add(rel)
        M = L.ModuleAnalysis(rel, tree, SHARED.get(rel, ()))
        bars = [c for c in M.classes.values() if c.name in SHARED.get(rel, ()) and rel.endswith("dask_util.py")]
        create = CREATE.get(rel, [])
        for want in SHARED.get(rel, ()):
            if want not in M.classes:
                raise Vanished(rel + ":" + want)
        for want in create:
            if (want if isinstance(want, str) else want[0]) not in (M.funcs if isinstance(want, str) else M.classes):
                raise Vanished(rel + ":" + str(want))
        anchors = {w if isinstance(w, str) else w[1] for w in create}
        used = referenced(tree)
        for n, fn in M.funcs.items():
            if n in used and n not in anchors:
                continue        # analysed where it is called
            enter_all(M, fn, [], n, ("creates",) if create else ())
        for c in M.classes.values():
            for fn in c.body:
                if not isinstance(fn, ast.FunctionDef) or fn.name in ("__init__", "__new__", "__setstate__", "__getstate__", "__reduce__"):
                    continue
                if c in bars or fn.name in used and fn.name not in anchors and not fn.name.startswith("__"):
                    continue
                clsm = any(getattr(d, "id", "") == "classmethod" for d in fn.decorator_list)
                a = [L.Obj(c, clsm or c.name in M.shared)]
                if (c.name, fn.name) == ("memoize_on_key", "__call__"):
                    a += [L.Creator()]
                enter_all(M, fn, a, c.name + "." + fn.name, ("creates",) if create else ())
        ck.covered.update(rel + ":" + n for n in M.calls)
        # every function runs in any number of threads
        bad = [] if rel in IDEMPOTENT else L.conflicts(M.accesses, lambda s, t: True)
        for root, w, r in bad:
            ck.ob("%s: %s" % (rel, show(root)), "violated", "changed in %s (line %d, locks %s) while %s (line %d, locks %s) %s it" % (
                w.fn, w.line, [l[0][-1] for l in w.locks], r.fn, r.line, [l[0][-1] for l in r.locks], "changes" if r.write else "reads"),
                "%s:%d %s" % (rel, w.line, w.fn), R3 if root[0] != "obj" else R1)
        roots = {a.root for a in M.accesses if a.write} - {b[0] for b in bad}
        for root in sorted(roots):
            ck.ob("%s: %s" % (rel, show(root)), "proved", "", rel, R1)
        if not roots and not bad:
            ck.ob("%s keeps no state between calls" % rel, "proved", "", rel, R3)
        for want in create:
            creation(ck, rel, M, want)
        for c in bars:
            bar(ck, rel, tree, c)
    ck.ob("modules analysed", "proved" if len(seen) > 50 else "violated", "%d modules" % len(seen), "africanus", R3)
    return ck.finish("every function of every module outside tests and examples, each run by any number of threads", [
        "discovery of the CUDA toolchain (africanus/util/nvcc.py) may be repeated: it gives the same answer"], 10)


def creation(ck, rel, M, want):
    label = want if isinstance(want, str) else ".".join(want)
    cs = [c for c in M.creates if c[4] == label or c[4].startswith(label + ".")]
    name = "%s: %s makes its value once" % (rel, label)
    if not cs:
        ck.ob(name, "unknown", "no creation found", rel, R2)
        return
    for held, seq, line, fname, thread, fn in cs:
        acc = [a for a in M.accesses if a.thread == thread]
        ok = early = False
        for l, reg in held:
            ins = [a for a in acc if (l, reg) in a.locks]
            for root in {a.root for a in ins}:
                rd = [a.seq for a in ins if a.root == root and not a.write]
                wr = [a.seq for a in ins if a.root == root and a.write]
                if rd and min(rd) < seq and wr:
                    if min(wr) > seq:
                        ok = True
                    else:
                        early = True
        why = "" if ok else "recorded before it is made" if early else "made outside a critical section that looked for it and records it" if held else "made without a lock"
        ck.ob("%s: %s() at %s" % (name, fname, fn), "proved" if ok else "violated", "%s:%d %s() in %s: %s" % (rel, line, fname, fn, why) if why else "", "%s:%d %s" % (rel, line, fn), R2)


def bar(ck, rel, tree, c):
    M = L.ModuleAnalysis(rel, tree, (c.name,))
    pre = set()
    for fn in c.body:
        if isinstance(fn, ast.FunctionDef) and fn.name != "__init__":
            n0 = len(M.accesses)
            M.start_seq = None
            M.enter(fn, [L.Obj(c, True)], "caller", mode=())
            if M.started_at is not None:
                pre |= {a for a in M.accesses[n0:] if a.seq < M.started_at}
    for t, args in list(M.threads):
        if isinstance(t, tuple) and t[0] == "method":
            M.enter(t[2], [t[1]] + list(args), "timer")
        elif isinstance(t, L.Fn):
            M.enter(t.node, list(args), "timer", up=t.env)
    if not M.threads:
        ck.ob("timer thread found", "unknown", "no thread is started", rel, R1)
    acc = [a for a in M.accesses if a not in pre]
    bad = L.conflicts(acc, lambda s, t: s != t)
    for root, w, r in bad:
        ck.ob("%s: %s of the bar" % (rel, show(root)), "violated", "changed in %s (line %d, locks %s) while %s (line %d, locks %s) %s it" % (
            w.fn, w.line, [l[0][-1] for l in w.locks], r.fn, r.line, [l[0][-1] for l in r.locks], "changes" if r.write else "reads"),
            "%s:%d %s" % (rel, w.line, w.fn), R1)
    for root in sorted({a.root for a in acc if a.thread == "timer"} - {b[0] for b in bad}):
        ck.ob("%s: %s of the bar" % (rel, show(root)), "proved", "", rel, R1)
