"""Lockset analysis over the syntax tree: which state outlives a call, which threads touch it, under which locks.

State is a module global, a class attribute, an attribute of an object that several threads share, or a variable of
an enclosing call captured by a function that outlives it.  Calls within the module are followed, so moving an access
into a helper changes nothing."""
import ast

LOCKS = {"Lock", "RLock", "SerializableLock", "Condition", "Semaphore", "BoundedSemaphore"}
SAFE = LOCKS | {"Event", "Queue", "SimpleQueue", "LifoQueue", "local", "Thread", "Timer", "Barrier", "getLogger"}
MUTATE = {"append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "add", "remove", "discard",
          "sort", "reverse", "fill", "resize", "put", "itemset", "partition", "setfield", "appendleft", "popleft",
          "__setitem__", "__delitem__", "move_to_end"}
ITER = {"items", "keys", "values", "copy", "__iter__"}
INPLACE = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis"}
WRAP = {"list", "tuple", "iter", "enumerate", "zip", "sorted", "reversed", "set", "dict", "map", "filter", "sum", "max", "min", "any", "all"}
EFFECTS = {"urlopen", "urlretrieve", "ZipFile", "extractall", "extract", "move", "unpack_archive", "rmtree"}


class Ref:
    """(part of) a piece of tracked state; depth 0 is the variable itself"""
    __slots__ = ("root", "depth")

    def __init__(self, root, depth=0):
        self.root, self.depth = root, depth


class Snap:
    """a fresh collection whose members are (parts of) tracked state"""
    __slots__ = ("elems",)

    def __init__(self, elems):
        self.elems = elems       # one value per position of its members, or one for all

    def member(self, i=None, n=None):
        if len(self.elems) > 1:
            return self.elems[i] if i is not None and n == len(self.elems) else next((x for x in self.elems if x is not None), None)
        return self.elems[0]


class Obj:
    def __init__(self, cls, shared):
        self.cls, self.shared = cls, shared


class Fn:
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod


class Creator:
    pass


class Access:
    __slots__ = ("root", "write", "how", "locks", "line", "thread", "seq", "fn")

    def __init__(self, root, write, how, locks, line, thread, seq, fn):
        self.root, self.write, self.how, self.locks, self.line, self.thread, self.seq, self.fn = root, write, how, locks, line, thread, seq, fn


def ctor(e):
    """name of the constructor called by e"""
    if isinstance(e, ast.Call):
        f = e.func
        return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
    return None


def local_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for v in (a.vararg, a.kwarg):
        if v:
            out.add(v.arg)
    if isinstance(fn, ast.Lambda):
        return out
    glob = set()
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            glob |= set(x.names)
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(al.asname or al.name).split(".")[0] for al in x.names}
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        stack.extend(ast.iter_child_nodes(x))
    return out - glob


class ModuleAnalysis:
    def __init__(self, name, tree, shared=()):
        self.modname, self.tree = name, tree
        self.shared = set(shared)
        self.globals = {}        # name -> constructors assigned at module level
        self.funcs, self.classes = {}, {}
        self.accesses, self.creates, self.threads = [], [], []
        self.seq = 0
        self.region = 0
        self.calls = set()
        self._tops(tree.body)
        self.attr_ctor = {}
        for c in self.classes.values():
            for x in ast.walk(c):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Attribute):
                            self.attr_ctor.setdefault(t.attr, set()).add(ctor(x.value))
                        elif isinstance(t, ast.Name) and x in c.body:
                            self.attr_ctor.setdefault(t.id, set()).add(ctor(x.value))
        for c in self.classes.values():
            if any(k in LOCKS or k in ("Thread", "Timer") for t in self._attrs(c) for k in self.attr_ctor.get(t, ())):
                self.shared.add(c.name)

    def _attrs(self, c):
        out = {t.attr for x in ast.walk(c) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Attribute)}
        return out | {t.id for x in c.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}

    def _tops(self, body):
        for s in body:
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            self.globals.setdefault(y.id, set()).add(ctor(s.value) if s.value is not None else None)
            elif isinstance(s, ast.ImportFrom) and (s.level or (s.module or "").startswith("africanus")):
                for al in s.names:
                    self.globals.setdefault(al.asname or al.name, set())
            elif isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            for b in ("body", "orelse", "finalbody"):
                if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    self._tops(getattr(s, b, None) or [])
            for h in getattr(s, "handlers", []):
                self._tops(h.body)
        for s in ast.walk(self.tree):
            if isinstance(s, ast.Global):
                for n in s.names:
                    self.globals.setdefault(n, set())

    # -- state
    def primitive(self, root):
        k = self.attr_ctor.get(root[-1], set()) if root[0] == "obj" else self.globals.get(root[-1], set()) if root[0] == "mod" else set()
        k = k - {None} if root[0] == "mod" else k
        return bool(k) and all(x in SAFE for x in k)

    def islock(self, root):
        k = self.attr_ctor.get(root[-1], set()) if root[0] == "obj" else self.globals.get(root[-1], set()) if root[0] == "mod" else set()
        return bool(k) and all(x in LOCKS for x in k)

    def access(self, root, write, how, node):
        if self.primitive(root) or self.quiet:
            return
        self.seq += 1
        self.accesses.append(Access(root, write, how, tuple(self.held), getattr(node, "lineno", 0), self.thread, self.seq, self.fnstack[-1]))

    # -- expressions
    def name(self, n, env):
        e = env
        while e is not None:
            if n in e["$locals"]:
                return e.get(n)
            e = e["$up"]
        if n in self.classes:
            return Obj(self.classes[n], True)
        if n in self.funcs:
            return Fn(self.funcs[n], None, self)
        if n in self.globals:
            return Ref(("mod", n))
        return None

    def is_global(self, n, env):
        e = env
        while e is not None:
            if n in e["$locals"]:
                return False
            e = e["$up"]
        return n in self.globals

    def ev(self, e, env):
        if e is None:
            return None
        if isinstance(e, ast.Name):
            v = self.name(e.id, env)
            if isinstance(v, Ref) and v.depth == 0 and v.root[0] == "mod" and isinstance(e.ctx, ast.Load):
                self.access(v.root, False, "bind", e)
            return v
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env)
            if isinstance(b, Obj):
                if e.attr == "__class__":
                    return b
                m = self.method(b.cls, e.attr)
                if m is not None and not any(getattr(d, "id", "") == "property" for d in m.decorator_list):
                    return ("method", b, m)
                if not b.shared and not any(isinstance(s, ast.Assign) and any(getattr(t, "id", None) == e.attr for t in s.targets) for s in b.cls.body):
                    return None
                r = ("obj", b.cls.name, e.attr)
                if isinstance(e.ctx, ast.Load):
                    self.access(r, False, "bind", e)
                return Ref(r)
            if isinstance(b, Ref):
                if self.primitive(b.root):
                    return None
                if isinstance(e.ctx, ast.Load) and b.depth >= 1:
                    self.access(b.root, False, "elem", e)
                return Ref(b.root, b.depth + 1)
            return None
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(b, Ref):
                if isinstance(e.ctx, ast.Load):
                    self.access(b.root, False, "item" if b.depth == 0 else "elem", e)
                return Ref(b.root, b.depth + 1)
            if isinstance(b, Snap):
                return self.member(b)
            return None
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Lambda):
            return Fn(e, env, self)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            loc = dict(env)
            loc["$locals"] = set()
            loc["$up"] = env
            for g in e.generators:
                it = self.ev(g.iter, loc)
                self.iterate(it, g.iter)
                loc["$locals"] |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                self.bind(g.target, self.member(it), loc)
                for c in g.ifs:
                    self.ev(c, loc)
            out = [self.ev(x, loc) for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt])]
            out = [x for x in out if isinstance(x, (Ref, Snap))]
            return Snap(out[:1]) if out else None
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.bind(e.target, v, env)
            return v
        if isinstance(e, (ast.IfExp, ast.BoolOp)):
            vs = [self.ev(x, env) for x in ([e.test, e.body, e.orelse] if isinstance(e, ast.IfExp) else e.values)]
            return next((v for v in vs[::-1] if v is not None), None)
        if isinstance(e, ast.Compare):
            l = self.ev(e.left, env)
            for op, c in zip(e.ops, e.comparators):
                v = self.ev(c, env)
                if isinstance(v, Ref) and isinstance(op, (ast.In, ast.NotIn)):
                    self.access(v.root, False, "item", e)
            return None
        if isinstance(e, (ast.Tuple, ast.List)):
            vs = [self.ev(x, env) for x in e.elts]
            return ("seq", vs)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
            elif isinstance(c, ast.keyword):
                self.ev(c.value, env)
        return None

    def member(self, v):
        if isinstance(v, Ref):
            return Ref(v.root, v.depth + 1)
        if isinstance(v, Snap):
            return v.elems[0] if len(v.elems) == 1 else ("seq", v.elems)
        return None

    def iterate(self, v, node):
        if isinstance(v, Ref):
            self.access(v.root, False, "iter", node)

    def method(self, cls, name, depth=0):
        for s in cls.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return s
        if depth < 4:
            for b in cls.bases:
                if isinstance(b, ast.Name) and b.id in self.classes:
                    m = self.method(self.classes[b.id], name, depth + 1)
                    if m is not None:
                        return m
        return None

    def call(self, e, env):
        f = e.func
        fname = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if fname in ("Thread", "Timer"):
            tgt = next((k.value for k in e.keywords if k.arg in ("target", "function")), None)
            if tgt is None and len(e.args) >= 2:
                tgt = e.args[1]
            ar = next((k.value for k in e.keywords if k.arg == "args"), None)
            t = self.ev(tgt, env) if tgt is not None else None
            av = self.ev(ar, env) if ar is not None else None
            args = av[1] if isinstance(av, tuple) and av and av[0] == "seq" else []
            if t is not None and not self.quiet:
                self.threads.append((t, args))
            return ("thread",)
        if isinstance(f, ast.Attribute) and f.attr == "start" and not e.args:
            b = self.ev(f.value, env)
            if self.started_at is None and not isinstance(b, Obj):
                self.seq += 1
                self.started_at = self.seq
            return None
        if isinstance(f, ast.Attribute) and f.attr in ("acquire", "release"):
            b = self.ev(f.value, env)
            if isinstance(b, Ref) and self.islock(b.root):
                if f.attr == "acquire":
                    self.region += 1
                    self.held.append((b.root, self.region))
                else:
                    for i in range(len(self.held) - 1, -1, -1):
                        if self.held[i][0] == b.root:
                            del self.held[i]
                            break
            return None
        base = None
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, env)
            if isinstance(base, Ref):
                args = [self.ev(a, env) for a in e.args] + [self.ev(k.value, env) for k in e.keywords]
                if not self.primitive(base.root):
                    if f.attr in MUTATE:
                        self.access(base.root, True, "mutate", e)
                    elif f.attr in ITER:
                        self.access(base.root, False, "iter", e)
                    else:
                        self.access(base.root, False, "item" if base.depth == 0 else "elem", e)
                return Ref(base.root, base.depth + (0 if f.attr in ITER else 1))
            fv = self.ev(f, env) if isinstance(base, Obj) else None
        else:
            fv = self.ev(f, env) if not (isinstance(f, ast.Name) and self.is_global(f.id, env) and False) else None
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if fname in INPLACE and args and isinstance(args[0], Ref):
            self.access(args[0].root, True, "mutate", e)
        if isinstance(kws.get("out"), Ref):
            self.access(kws["out"].root, True, "mutate", e)
        if fname == "setattr" and args and isinstance(args[0], (Obj, Ref)):
            r = args[0].root if isinstance(args[0], Ref) else ("obj", args[0].cls.name, e.args[1].value if isinstance(e.args[1], ast.Constant) else "?")
            self.access(r, True, "mutate", e)
        if fname in WRAP:
            for a in args:
                if isinstance(a, Fn):
                    self.invoke(a.node, [], {}, a.env)
                self.iterate(a, e)
            ms = [self.member(a) for a in args]
            if not any(m is not None for m in ms) or fname in ("sum", "any", "all"):
                return None
            if fname == "zip":
                return Snap(ms)
            if fname == "enumerate":
                return Snap([None, ms[0]])
            m = next(m for m in ms if m is not None)
            return m if fname in ("max", "min") else Snap([m])
        if isinstance(fv, Creator) or fname in EFFECTS or (isinstance(fv, Obj) and fv.shared and "creates" in self.mode and self.fnstack[-1] != "__init__" and fv.cls.name in self.shared):
            self.seq += 1
            if not self.quiet:
                self.creates.append((tuple(self.held), self.seq, e.lineno, fname, self.thread, self.fnstack[-1]))
            return None
        if isinstance(fv, Fn):
            return self.invoke(fv.node, args, kws, fv.env)
        if isinstance(fv, tuple) and fv and fv[0] == "method":
            _, o, m = fv
            static = any(getattr(d, "id", "") == "staticmethod" for d in m.decorator_list)
            return self.invoke(m, args if static else [o] + args, kws, None)
        for a in args:
            if isinstance(a, Fn):
                self.invoke(a.node, [], {}, a.env)
        return None

    def invoke(self, fn, args, kws, up):
        if len(self.fnstack) > 12 or fn in self.active:
            return None
        a = fn.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = {"$locals": local_names(fn), "$up": up}
        for p, v in zip(ps, args):
            env[p] = v
        for k, v in kws.items():
            if k in ps or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p not in env and isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or p not in env and ctor(d) in ("list", "dict", "set", "defaultdict", "zeros", "empty", "ones", "array", "deque"):
                env[p] = Ref(("default", getattr(fn, "name", "lambda"), p))
        self.active.append(fn)
        self.calls.add(getattr(fn, "name", "lambda"))
        self.fnstack.append(getattr(fn, "name", "lambda"))
        try:
            if isinstance(fn, ast.Lambda):
                return self.ev(fn.body, env)
            self.rets.append(None)
            self.block(fn.body, env)
            return self.rets.pop()
        finally:
            self.active.pop()
            self.fnstack.pop()

    # -- statements
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            if self.is_global(t.id, env):
                self.access(("mod", t.id), True, "bind", t)
                return
            e = env
            while e is not None:
                if t.id in e["$locals"]:
                    if e is not env and isinstance(e.get(t.id), Ref) and e[t.id].root[0] == "cell":
                        self.access(e[t.id].root, True, "bind", t)
                        return
                    e[t.id] = v
                    return
                e = e["$up"]
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if isinstance(v, tuple) and v and v[0] == "seq" and len(v[1]) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                x = x.value if isinstance(x, ast.Starred) else x
                self.bind(x, vs[i] if vs else Ref(v.root, v.depth + 1) if isinstance(v, Ref) else None, env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            if isinstance(b, Obj):
                if b.shared or any(isinstance(s, ast.Assign) and any(getattr(y, "id", None) == t.attr for y in s.targets) for s in b.cls.body) and self.is_cls(t.value, env):
                    self.access(("obj", b.cls.name, t.attr), True, "bind", t)
            elif isinstance(b, Ref) and not self.primitive(b.root):
                self.access(b.root, True, "mutate", t)
            elif isinstance(b, Fn) or isinstance(b, tuple) and b and b[0] == "method":
                self.access(("fnattr", getattr(t.value, "id", "?"), t.attr), True, "mutate", t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            if isinstance(b, Ref):
                self.access(b.root, True, "mutate", t)

    def is_cls(self, e, env):
        return isinstance(e, ast.Name) and (e.id in self.classes or e.id == "cls") or isinstance(e, ast.Attribute) and e.attr == "__class__" or ctor(e) == "type"

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            t = s.target
            ld = ast.copy_location(type(t)(**{**{f: getattr(t, f) for f in t._fields}, "ctx": ast.Load()}), t)
            v = self.ev(ld, env)
            if isinstance(t, ast.Name):
                if isinstance(v, Ref) and (v.root[0] in ("mod", "cell", "default") or v.depth >= 0) and not self.primitive(v.root):
                    if v.depth == 0:
                        self.access(v.root, True, "mutate", s)
            else:
                self.bind(t, None, env)
        elif isinstance(s, ast.With):
            n = len(self.held)
            for it in s.items:
                v = self.ev(it.context_expr, env)
                if isinstance(v, Ref) and v.depth == 0 and self.islock(v.root):
                    self.region += 1
                    self.held.append((v.root, self.region))
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, None, env)
            self.block(s.body, env)
            del self.held[n:]
        elif isinstance(s, ast.For):
            v = self.ev(s.iter, env)
            self.iterate(v, s.iter)
            self.bind(s.target, self.member(v), env)
            self.block(s.body, env)
            self.block(s.orelse, env)
        elif isinstance(s, (ast.If, ast.While)):
            self.ev(s.test, env)
            before = list(self.held)
            self.block(s.body, env)
            if s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                self.held[:] = before
            self.block(s.orelse, env)
        elif isinstance(s, ast.Try):
            self.block(s.body, env)
            for h in s.handlers:
                self.block(h.body, env)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = Fn(s, env, self)
            self.nested.append((s, env))
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, env)
            if v is not None and self.rets:
                self.rets[-1] = v
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.bind(t, None, env)
        elif isinstance(s, ast.Global) or isinstance(s, ast.Nonlocal):
            pass
        elif isinstance(s, ast.ClassDef):
            pass
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, env)

    # -- entries
    def enter(self, fn, args, thread, up=None, mode=()):
        self.thread, self.mode = thread, mode
        self.held, self.fnstack, self.active, self.rets, self.nested = [], ["<top>"], [], [], []
        self.started_at, self.quiet = None, False
        env_before = len(self.accesses)
        r = self.invoke(fn, args, {}, up)
        self.calls.add(getattr(fn, "name", "lambda"))
        return env_before, self.nested, r


def conflicts(accs, concurrent):
    """pairs of accesses to one piece of state that two threads can make at once"""
    by = {}
    for a in accs:
        by.setdefault(a.root, []).append(a)
    out = []
    for root, xs in by.items():
        if not any(a.write for a in xs):
            continue
        rebind_only = not any(a.how in ("mutate", "iter", "elem") for a in xs)
        for i, a in enumerate(xs):
            for b in xs[i:]:
                if not (a.write or b.write) or not concurrent(a.thread, b.thread):
                    continue
                if {l for l, _ in a.locks} & {l for l, _ in b.locks}:
                    continue
                w, r = (a, b) if a.write else (b, a)
                if w.locks and not r.write and not r.locks and r.how in ("bind", "item"):
                    continue       # one atomic look at state whose changes are all guarded
                out.append((root, w, r))
                break
            else:
                continue
            break
    return out
