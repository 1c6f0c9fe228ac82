"""Typestate analysis over every path of a small program: calls inlined, unknown conditions split, every external call may fail.

Values are Python constants or terms (Sym).  The world the program acts on is abstract: files have a version that every write
changes, queries are answered once per state of the world, temporary directories are tracked.  What happened on a path is its log."""
import ast
import os


TREES = {}


class Sym(tuple):
    """an abstract value: (head, arguments...)"""
    __slots__ = ()

    def __repr__(self):
        return "%s(%s)" % (self[0], ", ".join(map(str, self[1:])))


class Giveup(Exception):
    """a construct the analysis does not know"""


class Raised(Exception):
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Fn:
    def __init__(self, node, mod, env, name):
        self.node, self.mod, self.env, self.name = node, mod, env, name
        self.defaults = []


class Cls:
    def __init__(self, name, bases):
        self.name, self.bases = name, bases


class Obj:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


class Ext:
    def __init__(self, name):
        self.name = name


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Path:
    def __init__(self, root, choices, limit=4000):
        self.root, self.choices, self.pos, self.taken = root, choices, 0, []
        self.log, self.facts, self.epoch, self.versions = [], {}, 0, {}
        self.mods, self.faults, self.temps, self.steps, self.limit, self.nid = {}, True, {}, 0, limit, 0
        self.stack, self.mute, self.benign = [], False, False
        self.loading, self.held, self.other, self.inside, self.seen, self.same, self.parts = 0, [], None, False, set(), {}, {}

    # --- nondeterminism
    def choose(self, n, why=""):
        if self.mute:
            return 0
        if self.benign:
            return 1 if why == "lines" else 0
        k = self.choices[self.pos] if self.pos < len(self.choices) else 0
        self.pos += 1
        self.taken.append((k, n))
        return k

    def fail(self, what, node):
        """the external call may raise"""
        if self.faults and self.choose(2, what):
            self.event("fault", what, node)
            raise Raised("OSError")

    def acquire(self, lock):
        """a lock is taken: before that, another thread may have made the same call"""
        if self.other is not None and not self.inside and not self.held and not self.mute and self.choose(2, "other"):
            self.inside = True
            old = self.benign, self.faults, self.held
            self.benign, self.faults, self.held = True, False, []
            try:
                self.other(self)
            finally:
                self.benign, self.faults, self.held = old
        self.held = self.held + [lock]

    def release(self, lock):
        if self.held:
            self.held = self.held[:-1]

    def locked(self):
        """a lock that every call shares is held"""
        return any(not (isinstance(l, Obj) and l.kind == "lock") or l.shared for l in self.held)

    def event(self, *a):
        t = a[2] if a[0] == "move" else a[1]
        while isinstance(t, Sym) and t[0] in ("join", "str") and len(t) > 1:
            t = t[1]
        if not self.locked() and not self.loading and a[0] in ("move", "rmtree", "remove", "write") and t not in self.temps:
            self.log.append(("unlocked", a[0], getattr(a[-1], "lineno", 0)))
        self.log.append(a[:-1] + (getattr(a[-1], "lineno", 0),))

    def fresh(self, head, *a):
        self.nid += 1
        return Sym((head, self.nid) + a)

    def truth(self, v):
        if isinstance(v, Sym):
            neg = False
            while v[0] == "not":
                v, neg = v[1], not neg
            if v[0] in ("and", "or"):
                raise Giveup("compound condition")
            if v[0] in ("join", "str", "tmp", "response", "dirs", "chunk", "hexdigest", "digest"):
                r = True
            else:
                if v not in self.facts:
                    self.facts[v] = bool(1 - self.choose(2, v)) and not self.mute
                r = self.facts[v]
            return r != neg
        if isinstance(v, (Obj, Fn, Cls, Ext, Bound)):
            return True
        return bool(v)

    def changed(self):
        self.epoch += 1

    # --- modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.root, name.replace(".", "/") + ".py")
        if not os.path.exists(p):
            p = os.path.join(self.root, name.replace(".", "/"), "__init__.py")
        if not os.path.exists(p):
            return None
        env = {"__name__": name}
        self.mods[name] = env
        if p not in TREES:
            with open(p) as f:
                TREES[p] = ast.parse(f.read())
        tree = TREES[p]
        old, self.faults = self.faults, False
        self.loading += 1
        self.stack.append((env, env, set()))
        try:
            self.block(tree.body)
        finally:
            self.stack.pop()
            self.faults = old
            self.loading -= 1
        return env

    # --- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.limit:
            raise Giveup("too many steps")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Giveup("%s at line %d" % (type(s).__name__, s.lineno))
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Global(self, s):
        self.stack[-1][2].update(s.names)

    def s_Import(self, s):
        for a in s.names:
            self.bind(a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        for a in s.names:
            n = (s.module or "") + "." + a.name
            v = Ext(n)
            if s.level == 0 and (s.module or "").startswith("africanus.") and s.module != "africanus.util.appdirs":
                env = self.load(s.module)
                if env is not None and a.name in env:
                    v = env[a.name]
            elif s.module == "africanus.util.appdirs":
                v = Sym(("dirs", a.name))
            self.bind(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        f = Fn(s, self.stack[-1][1], self.stack[-1][0], s.name)
        f.defaults = [self.ev(d) for d in s.args.defaults]
        if any(not (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("wraps", "requires_optional")) for d in s.decorator_list):
            f = Ext("decorated." + s.name)
        self.bind(s.name, f)

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        self.bind(s.name, Cls(s.name, bases))

    def s_Return(self, s):
        raise Ret(self.ev(s.value) if s.value is not None else None)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if not isinstance(t, ast.Name):
            raise Giveup("augmented target")
        self.assign(t, self.binop(type(s.op).__name__, self.name(t.id), self.ev(s.value)))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.stack[-1][0].pop(t.id, None)

    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            raise Raised("AssertionError")

    def s_If(self, s):
        self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)

    def s_While(self, s):
        for _ in range(6):
            if not self.truth(self.ev(s.test)):
                self.block(s.orelse)
                return
            try:
                self.block(s.body)
            except Brk:
                return
            except Cnt:
                pass
        raise Giveup("loop bound")

    def s_For(self, s):
        for x in self.iterate(self.ev(s.iter), s):
            self.assign(s.target, x)
            try:
                self.block(s.body)
            except Brk:
                return
            except Cnt:
                pass
        self.block(s.orelse)

    def s_Break(self, s):
        raise Brk()

    def s_Continue(self, s):
        raise Cnt()

    def s_Raise(self, s):
        if s.exc is None:
            cur = self.stack[-1][0].get("$exc")
            raise cur if cur is not None else Raised("RuntimeError")
        v = self.ev(s.exc)
        if isinstance(v, Cls):
            v = Obj("exc", cls=v, args=())
        if isinstance(v, Obj) and v.kind == "exc":
            raise Raised(v.cls, v)
        if isinstance(v, Ext):
            raise Raised(v.name.split(".")[-1])
        raise Raised("Exception", v)

    def matches(self, r, t):
        """whether an exception is of the handler's type"""
        if isinstance(t, (tuple, list)):
            return any(self.matches(r, x) for x in t)
        n = t.name.split(".")[-1] if isinstance(t, (Ext, Cls)) else None
        if n in ("Exception", "BaseException"):
            return True
        if isinstance(r.kind, Cls):
            seen, todo = set(), [r.kind]
            while todo:
                c = todo.pop()
                if c is t:
                    return True
                todo += [b for b in getattr(c, "bases", []) if isinstance(b, (Cls, Ext))]
                if isinstance(c, Ext) and isinstance(t, Ext) and c.name.split(".")[-1] == n:
                    return True
            return False
        if isinstance(t, Cls):
            return False
        if r.kind == "OSError":
            # a failing external call: any type of error
            return bool(1 - self.choose(2, "handler"))
        return n == r.kind

    def s_Try(self, s):
        try:
            try:
                self.block(s.body)
            except Raised as r:
                for h in s.handlers:
                    if h.type is None or self.matches(r, self.ev(h.type)):
                        env = self.stack[-1][0]
                        old = env.get("$exc")
                        env["$exc"] = r
                        if h.name:
                            self.bind(h.name, r.val if r.val is not None else Sym(("exc", str(r.kind))))
                        try:
                            self.block(h.body)
                        finally:
                            env["$exc"] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse)
        finally:
            # a return or an exception of the finally block replaces the one under way
            self.block(s.finalbody)

    def s_With(self, s):
        self.with_items(s.items, s)

    def with_items(self, items, s):
        if not items:
            return self.block(s.body)
        it = items[0]
        v = self.ev(it.context_expr)
        x = v
        lock = isinstance(v, Obj) and v.kind == "lock" or isinstance(v, Sym) and v[0] == "call"
        if lock:
            self.acquire(v)
        if isinstance(v, Obj) and v.kind == "tempdir":
            x = v.path
        if it.optional_vars is not None:
            self.assign(it.optional_vars, x)
        supp = v.types if isinstance(v, Obj) and v.kind == "suppress" else None
        try:
            self.with_items(items[1:], s)
        except Raised as r:
            if supp is None or not self.matches(r, supp):
                raise
        finally:
            if lock:
                self.release(v)
            if isinstance(v, Obj) and v.kind == "tempdir":
                self.event("rmtree", v.path, s)
                self.temps[v.path] = False
                self.changed()

    # --- names
    def bind(self, n, v):
        env, glob, gl = self.stack[-1]
        (glob if n in gl else env)[n] = v

    def name(self, n):
        env, glob, gl = self.stack[-1]
        e = env if n not in gl else glob
        while e is not None:
            if n in e:
                return e[n]
            e = e.get("$up") if e is not glob else None
        if n in glob:
            return glob[n]
        if n in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n]
        if n in dir(__builtins__) if not isinstance(__builtins__, dict) else n in __builtins__:
            return Ext("builtins." + n)
        raise Raised("NameError")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (tuple, list)) and not isinstance(v, Sym):
                if len(v) != len(t.elts):
                    raise Raised("ValueError")
                for a, b in zip(t.elts, v):
                    self.assign(a, b)
            else:
                for i, a in enumerate(t.elts):
                    self.assign(a, Sym(("item", self.term(v), i)))
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value), self.ev(t.slice)
            if isinstance(o, dict):
                o[k] = v
            else:
                raise Giveup("store")
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            if isinstance(o, (Obj, Fn)):
                setattr(o, "a_" + t.attr, v)
            else:
                raise Giveup("attribute store")
        else:
            raise Giveup("target")

    def term(self, v):
        if isinstance(v, (tuple, list)) and not isinstance(v, Sym):
            return tuple(self.term(x) for x in v)
        if isinstance(v, (Obj, Fn, Cls, Ext, Bound)):
            return Sym(("obj", getattr(v, "name", None) or id(v)))
        return v

    # --- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Giveup("%s at line %d" % (type(e).__name__, e.lineno))
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.name(e.id)

    def e_Tuple(self, e):
        return tuple(self.ev(x) for x in e.elts)

    def e_List(self, e):
        return [self.ev(x) for x in e.elts]

    def e_Dict(self, e):
        return {self.ev(k): self.ev(v) for k, v in zip(e.keys, e.values)}

    def e_Lambda(self, e):
        return Fn(e, self.stack[-1][1], self.stack[-1][0], "<lambda>")

    def e_JoinedStr(self, e):
        return Sym(("str",) + tuple(self.term(self.ev(v.value)) if isinstance(v, ast.FormattedValue) else v.value for v in e.values))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_IfExp(self, e):
        return self.ev(e.body if self.truth(self.ev(e.test)) else e.orelse)

    def e_BoolOp(self, e):
        v = None
        for x in e.values:
            v = self.ev(x)
            if self.truth(v) == isinstance(e.op, ast.Or):
                return v if not isinstance(v, Sym) or not isinstance(v[0], str) or v[0] in ("join", "str") else isinstance(e.op, ast.Or)
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Sym):
            return Sym((type(e.op).__name__, v))
        return -v if isinstance(e.op, ast.USub) else v

    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        if op == "Div" and isinstance(a, Sym) and a[0] in ("join", "dirs", "tmp"):
            return self.join(a, b)
        if any(isinstance(x, (Sym, Obj)) or isinstance(x, tuple) and any(isinstance(y, (Sym, Obj)) for y in x) for x in (a, b)):
            return Sym(("str" if op in ("Add", "Mod") else op, self.term(a), self.term(b)))
        try:
            return {"Add": lambda: a + b, "Mult": lambda: a * b, "Mod": lambda: a % b, "Sub": lambda: a - b, "FloorDiv": lambda: a // b, "Div": lambda: a / b,
                    "LShift": lambda: a << b, "Pow": lambda: a ** b}[op]()
        except KeyError:
            raise Giveup("operator " + op)
        except TypeError:
            raise Raised("TypeError")

    def e_Compare(self, e):
        a = self.ev(e.left)
        r = True
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x)
            r = self.compare(type(op).__name__, a, b)
            if len(e.ops) > 1 and not self.truth(r):
                return False
            a = b
        return r

    def compare(self, op, a, b):
        if op in ("Is", "IsNot") or op in ("Eq", "NotEq") and (a is None or b is None or isinstance(a, bool) or isinstance(b, bool)):
            if isinstance(a, Sym) and isinstance(b, bool) or isinstance(b, Sym) and isinstance(a, bool):
                s, c = (a, b) if isinstance(a, Sym) else (b, a)
                r = self.truth(s) == c
            else:
                r = a is b or (type(a) is type(b) and isinstance(a, (bool, int, str)) and a == b)
            return r if op in ("Is", "Eq") else not r
        # position of a text in another
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
            if isinstance(x, Sym) and x[0] == "find" and isinstance(y, int):
                has = Sym(("contains", x[1], x[2]))
                if (o, y) in (("NotEq", -1), ("Gt", -1), ("GtE", 0)):
                    return has
                if (o, y) in (("Eq", -1), ("Lt", 0), ("LtE", -1)):
                    return Sym(("not", has))
        if op in ("In", "NotIn"):
            if isinstance(b, Sym):
                r = Sym(("contains", b, self.term(a)))
                return r if op == "In" else Sym(("not", r))
            if isinstance(a, Sym):
                r = Sym(("in", a, self.term(b)))
                return r if op == "In" else Sym(("not", r))
            return (a in b) == (op == "In")
        if isinstance(a, (Sym, Obj)) or isinstance(b, (Sym, Obj)):
            a, b = self.term(a), self.term(b)
            if op in ("Eq", "NotEq"):
                if a == b:
                    return op == "Eq"
                if any(isinstance(x, Sym) and x[0] == "len" and isinstance(x[1], Sym) and x[1][0] == "chunk" and y == 0 for x, y in ((a, b), (b, a))):
                    return op != "Eq"
                if isinstance(a, Sym) and isinstance(b, Sym) and a[0] == b[0] == "chunk" or "chunk" in (a[0] if isinstance(a, Sym) else 0, b[0] if isinstance(b, Sym) else 0):
                    return op != "Eq"
                r = Sym(("eq",) + tuple(sorted((a, b), key=repr)))
                return r if op == "Eq" else Sym(("not", r))
            for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
                if isinstance(x, Sym) and x[0] == "len" and isinstance(x[1], Sym) and x[1][0] == "chunk" and y in (0, 1) and (o, y) in (("Gt", 0), ("GtE", 1), ("LtE", 0), ("Lt", 1)):
                    return o in ("Gt", "GtE")
            return Sym((op, a, b))
        try:
            return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "Gt": lambda: a > b, "LtE": lambda: a <= b, "GtE": lambda: a >= b}[op]()
        except KeyError:
            raise Giveup(op)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        if isinstance(o, Ext):
            return Ext(o.name + "." + e.attr)
        if isinstance(o, (Obj, Fn)) and hasattr(o, "a_" + e.attr):
            return getattr(o, "a_" + e.attr)
        if isinstance(o, Obj) and o.kind == "tempdir" and e.attr == "name":
            return o.path
        return Bound(o, e.attr)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            return Sym(("slice", self.term(o)))
        k = self.ev(e.slice)
        if isinstance(o, Sym):
            return Sym(("item", o, self.term(k)))
        if isinstance(o, (tuple, list, dict, str)):
            try:
                return o[k]
            except (KeyError, IndexError):
                raise Raised("KeyError")
        raise Giveup("subscript")

    def comp(self, e):
        g = e.generators[0]
        if len(e.generators) > 1:
            raise Giveup("comprehension")
        for x in self.iterate(self.ev(g.iter), e):
            self.assign(g.target, x)
            if all(self.truth(self.ev(c)) for c in g.ifs):
                yield self.ev(e.elt)

    def e_GeneratorExp(self, e):
        return list(self.comp(e))

    e_ListComp = e_GeneratorExp

    def iterate(self, v, n):
        if isinstance(v, Obj) and v.kind == "file":
            k = self.choose(3, "lines")
            for i in range(k):
                yield Sym(("line", v.path, v.version, i, self.epoch))
            return
        if isinstance(v, Obj) and v.kind == "iter":
            while True:
                x = self.call(v.fn, [], {}, n)
                if self.truth(self.compare("Eq", x, v.end)):
                    return
                yield x
        if isinstance(v, (tuple, list, range, str)) and not isinstance(v, Sym):
            for x in v:
                yield x
            return
        if isinstance(v, dict):
            for x in list(v):
                yield x
            return
        raise Giveup("iteration")

    # --- calls
    def e_Call(self, e):
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.ev(a.value), a))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Giveup("**")
            kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, n):
        if isinstance(f, Fn):
            if len(self.stack) > 30:
                raise Giveup("recursion")
            a = f.node.args
            env = {"$up": f.env if f.env is not f.mod else None}
            names = [x.arg for x in a.args]
            d = dict(zip(names[len(names) - len(f.defaults):], f.defaults))
            if len(args) > len(names):
                raise Giveup("arguments")
            d.update(zip(names, args))
            d.update(kw)
            if set(d) != set(names):
                raise Raised("TypeError")
            env.update(d)
            self.seen.add((f.mod.get("__name__"), f.name))
            self.stack.append((env, f.mod, set()))
            try:
                if isinstance(f.node, ast.Lambda):
                    return self.ev(f.node.body)
                self.block(f.node.body)
                return None
            except Ret as r:
                return r.v
            finally:
                self.stack.pop()
        if isinstance(f, Cls):
            return Obj("exc", cls=f, args=tuple(args))
        if isinstance(f, Ext):
            return self.ext(f.name, args, kw, n)
        if isinstance(f, Bound):
            return self.method(f.obj, f.name, args, kw, n)
        raise Giveup("call of %r" % (f,))

    def join(self, *a):
        out = a[0]
        for x in a[1:]:
            out = Sym(("join", out, x)) if not (isinstance(x, Sym) and x[0] == "join" and x[1] == "") else x
        return out

    def version(self, p):
        return self.versions.get(p, 0)

    def touch(self, p):
        self.versions[p] = self.version(p) + 1
        self.changed()

    def ask(self, what, p):
        return Sym((what, self.term(p), self.epoch))

    def ext(self, name, args, kw, n):
        last = name.split(".")[-1]
        a0 = args[0] if args else None
        if name in ("os.path.join", "posixpath.join"):
            return self.join(*args)
        if name in ("os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.lexists"):
            return self.ask(last, a0)
        if name.startswith("os.path."):
            return Sym((last,) + tuple(self.term(x) for x in args))
        if name in ("pathlib.Path", "os.fspath", "builtins.str", "os.path.abspath") and len(args) == 1 and isinstance(a0, (Sym, str)):
            return a0
        if name.startswith("logging.") or name.startswith("warnings.") or name == "builtins.print":
            return Obj("log") if last == "getLogger" else None
        if last in ("Lock", "RLock", "SerializableLock"):
            return Obj("lock", shared=bool(self.loading))
        if name == "builtins.iter" and len(args) == 2:
            return Obj("iter", fn=args[0], end=args[1])
        if name == "functools.partial" and args and not kw:
            return Obj("partial", fn=args[0], args=args[1:])
        if name == "builtins.len" and isinstance(a0, (bytes, str, list, tuple, dict)) and not isinstance(a0, Sym):
            return len(a0)
        if name == "builtins.len" and isinstance(a0, Sym):
            return Sym(("len", a0))
        if name == "builtins.bool":
            return self.truth(a0)
        if name in ("builtins.any", "builtins.all") and isinstance(a0, (list, tuple)):
            r = [self.truth(x) for x in a0]
            return any(r) if last == "any" else all(r)
        if name == "builtins.range" and all(isinstance(x, int) for x in args):
            return range(*args)
        if name.startswith("hashlib."):
            algo = last if last != "new" else a0
            o = Obj("hash", algo=algo, parts=[])
            if last != "new" and args:
                o.parts.append(a0)
            return o
        if name in ("contextlib.suppress",):
            return Obj("suppress", types=tuple(args))
        if last in ("Exception", "ValueError", "RuntimeError", "OSError", "IOError", "TypeError", "KeyError", "ImportError"):
            return Obj("exc", cls=Ext(name), args=tuple(args))
        # the outside world: every call may fail
        if name == "tempfile.mkdtemp":
            self.fail(name, n)
            p = self.fresh("tmp")
            self.temps[p] = True
            self.event("mkdtemp", p, n)
            return p
        if name == "tempfile.TemporaryDirectory":
            self.fail(name, n)
            p = self.fresh("tmp")
            self.temps[p] = True
            self.event("mkdtemp", p, n)
            return Obj("tempdir", path=p)
        if name == "shutil.rmtree":
            quiet = kw.get("ignore_errors", args[1] if len(args) > 1 else False)
            self.event("rmtree", self.term(a0), n)
            if not self.truth(quiet):
                self.fail(name, n)
            if a0 in self.temps:
                self.temps[a0] = False
            self.changed()
            return None
        if name in ("os.remove", "os.unlink", "os.rmdir", "os.removedirs"):
            self.event("remove", self.term(a0), n)
            self.fail(name, n)
            self.changed()
            return None
        if name in ("os.makedirs", "os.mkdir"):
            self.event("mkdir", self.term(a0), n)
            self.fail(name, n)
            return None
        if name in ("shutil.move", "os.rename", "os.replace", "os.renames", "shutil.copytree"):
            self.event("move", self.term(a0), self.term(args[1]), n)
            self.fail(name, n)
            self.versions[args[1]] = self.versions.get(args[1], 0) + 1
            self.same[args[1], self.versions[args[1]]] = (a0, self.version(a0))
            if a0 in self.temps and last != "copytree":
                self.temps[a0] = False
            self.changed()
            return args[1]
        if name in ("shutil.copyfile", "shutil.copy", "shutil.copy2"):
            self.event("write", self.term(args[1]), n)
            self.touch(args[1])
            self.same[args[1], self.version(args[1])] = (a0, self.version(a0))
            self.fail(name, n)
            return None
        if name.endswith("urlretrieve"):
            self.event("fetch", self.term(a0), n)
            self.event("write", self.term(args[1]), n)
            self.touch(args[1])
            self.fail(name, n)
            return (args[1], Sym(("headers",)))
        if name.endswith("urlopen"):
            self.event("fetch", self.term(a0), n)
            self.fail(name, n)
            return Obj("response", left=2)
        if name == "shutil.copyfileobj":
            self.fail(name, n)
            if isinstance(args[1], Obj) and args[1].kind == "file":
                self.touch(args[1].path)
            return None
        if name in ("builtins.open", "io.open"):
            mode = kw.get("mode", args[1] if len(args) > 1 else "r")
            if not isinstance(mode, str):
                raise Giveup("open mode")
            self.fail(name, n)
            if any(c in mode for c in "wax+"):
                self.event("write", self.term(a0), n)
                self.touch(a0)
                if "w" in mode:
                    self.parts[a0, self.version(a0)] = ()
            return Obj("file", path=a0, version=self.version(a0), at=0, mode=mode, parts=[])
        if name in ("zipfile.ZipFile", "tarfile.open"):
            self.fail(name, n)
            return Obj("zip", path=a0, version=self.version(a0))
        if name == "shutil.unpack_archive":
            self.event("unpack", self.term(a0), self.version(a0), self.term(args[1] if len(args) > 1 else kw.get("extract_dir")), n)
            self.fail(name, n)
            self.changed()
            return None
        if name.startswith(("africanus.", "decorated.")):
            raise Giveup("unresolved %s" % name)
        if name.startswith("builtins."):
            raise Giveup(name)
        self.fail(name, n)
        return self.fresh("call", name)

    def size(self, p, version):
        """number of blocks read from a file"""
        k = Sym(("size", self.term(p), version))
        if k not in self.facts:
            self.facts[k] = 2 - self.choose(2, "size")
        return self.facts[k]

    def method(self, o, name, args, kw, n):
        if isinstance(o, str) and all(isinstance(x, (str, int)) for x in args) and not kw and name in (
                "format", "join", "lower", "upper", "strip", "rstrip", "lstrip", "replace", "startswith", "endswith", "find", "split"):
            return getattr(o, name)(*args)
        if isinstance(o, str) and name in ("format", "join"):
            return Sym(("str", o) + tuple(self.term(x) for x in args) + tuple(sorted((k, self.term(v)) for k, v in kw.items())))
        if isinstance(o, Sym):
            if name in ("find", "index", "count") and len(args) == 1:
                if name == "count":
                    return Sym(("contains", o, self.term(args[0])))
                return Sym(("find", o, self.term(args[0])))
            if name in ("lower", "strip", "rstrip", "casefold"):
                return o
            if name in ("exists", "is_file", "is_dir", "isfile"):
                return self.ask({"is_file": "isfile", "is_dir": "isdir"}.get(name, name), o)
            if name == "joinpath":
                return self.join(o, *args)
            if name == "open":
                return self.ext("builtins.open", [o] + args, kw, n)
            if name in ("mkdir",):
                return self.ext("os.makedirs", [o], {}, n)
            if name in ("unlink", "rmdir"):
                return self.ext("os.remove", [o], {}, n)
            if name in ("read_bytes", "read_text"):
                self.fail(name, n)
                return Sym(("content", o, self.version(o)) if name == "read_bytes" else ("text", o, self.version(o), self.epoch))
            if name in ("splitlines", "split"):
                return [Sym(("line", o, 0, i)) for i in range(self.choose(3, "lines"))]
            if name == "startswith":
                return Sym(("startswith", o) + tuple(self.term(x) for x in args))
            return Sym(("m:" + name, o) + tuple(self.term(x) for x in args))
        if isinstance(o, Obj):
            if o.kind == "log":
                return None
            if o.kind == "lock":
                if name in ("acquire", "__enter__"):
                    self.acquire(o)
                    return True
                if name in ("release", "__exit__"):
                    self.release(o)
                    return None
                if name == "locked":
                    return bool(self.held)
                raise Giveup("lock." + name)
            if o.kind == "hash":
                if name == "update":
                    o.parts.append(self.term(args[0]))
                    return None
                if name in ("hexdigest", "digest"):
                    return Sym((name, o.algo) + tuple(o.parts))
            if o.kind == "response":
                if name == "read":
                    self.fail("read", n)
                    if not args:
                        return Sym(("data",))
                    o.left -= 1
                    return Sym(("chunk", "net", o.left)) if o.left >= 0 and self.choose(2) == 0 else b""
                return None
            if o.kind == "file":
                if name in ("read", "readlines", "readline"):
                    self.fail("read", n)
                    if name == "readlines":
                        return [Sym(("line", o.path, o.version, i, self.epoch)) for i in range(self.choose(3, "lines"))]
                    if not args or args[0] in (-1, None):
                        return Sym(("content", o.path, o.version) if "b" in o.mode else ("text", o.path, o.version, self.epoch))
                    if o.at >= self.size(o.path, o.version):
                        return b"" if "b" in o.mode else ""
                    o.at += 1
                    return Sym(("chunk", o.path, o.version, o.at - 1))
                if name in ("write", "writelines"):
                    self.fail("write", n)
                    self.touch(o.path)
                    o.parts = o.parts + [self.term(args[0])]
                    if "w" in o.mode and name == "write":
                        self.parts[o.path, self.version(o.path)] = tuple(o.parts)
                    return None
                if name in ("close", "flush", "seek", "fileno"):
                    if name == "seek":
                        o.at = 0
                    return None
            if o.kind == "zip":
                if name in ("extractall", "extract"):
                    to = self.term(args[-1] if args else kw.get("path", "."))
                    self.event("unpack", self.term(o.path), o.version, to, n)
                    self.fail(name, n)
                    self.changed()
                    return None
                if name in ("close",):
                    return None
                self.fail(name, n)
                return self.fresh("call", "zip." + name)
            if o.kind == "tempdir" and name == "cleanup":
                self.event("rmtree", o.path, n)
                self.temps[o.path] = False
                return None
            if o.kind == "partial" and name == "__call__":
                return self.call(o.fn, list(o.args) + args, kw, n)
            if o.kind == "exc":
                return Sym(("str", "exception"))
        if isinstance(o, list) and name == "append":
            o.append(args[0])
            return None
        if isinstance(o, dict) and name in ("get", "items", "keys", "values", "update", "pop", "setdefault"):
            return getattr(o, name)(*args)
        raise Giveup("method %s" % name)


def explore(root, program, cap=20000):
    """program(path) on every path; yields (path, result or exception)"""
    todo, count = [[]], 0
    while todo:
        pre = todo.pop()
        p = Path(root, pre)
        try:
            out = ("done", program(p))
        except Giveup as g:
            out = ("giveup", str(g))
        count += 1
        for i in range(len(pre), len(p.taken)):
            k, n = p.taken[i]
            for alt in range(1, n):
                todo.append([t[0] for t in p.taken[:i]] + [alt])
        yield p, out
        if count > cap:
            yield p, ("giveup", "more than %d paths" % cap)
            return
