"""Abstract interpreter: AST -> value graph.

Every statement is abstracted once (branches are joined by gating, loops are
summarised as quantified effects / sums / recurrences); program inputs stay
symbolic and paths are never enumerated.
"""
import ast
import builtins
import os
from . import terms as T
from .terms import (Poly, Atom, ZERO, ONE, of, atom, num, add, mul, neg, sel,
                    lnot, cmp, subst, const_of, fresh, TooBig)
from .values import *  # noqa

MAXUNROLL = 64


def xvar(d, dim, head="xvar"):
    v = atom(head, (d, dim), "i")
    T.set_range(v, ZERO, dim)
    return of(v)


def ylevel(x):
    """one more than the nesting level of array index variables in a term"""
    lv, stack, seen = 0, [x], set()
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, (Poly, Atom)) and y not in seen and "yvar" in y.heads:
            seen.add(y)
            if isinstance(y, Poly):
                for m, _ in y.terms:
                    stack.extend(a for a, _e in m)
            else:
                if y.head == "yvar":
                    lv = max(lv, y.args[0] // 10 + 1)
                stack.extend(y.args)
    return lv


class UnrollLimit(Exception):
    pass


class Unroll(ast.stmt):
    """the rest of a while loop from its k-th test on"""
    _fields = ()

    def __init__(self, loop, k):
        ast.stmt.__init__(self)
        self.loop, self.k = loop, k
        self.lineno, self.col_offset = loop.lineno, loop.col_offset


class CellWrite(ast.stmt):
    """end of an iteration: the array bound to a name becomes the contents of the cell that carries it"""
    _fields = ()

    def __init__(self, name, cell, at):
        ast.stmt.__init__(self)
        self.name, self.cell = name, cell
        self.lineno, self.col_offset = at.lineno, at.col_offset


class Frame:
    def __init__(self, fn, env, module):
        self.fn = fn
        self.env = env
        self.module = module
        self.pc = ONE
        self.outer = ONE
        self.rets = []
        self.loops = []
        self.raises = []
        self.symloops = 0


class LoopCtx:
    def __init__(self):
        self.brk = ZERO
        self.rets = []
        self.id = newid()
        self.sym = True


class Env:
    """lexical scope: own dict + parent"""
    __slots__ = ("d", "parent")

    def __init__(self, parent=None, d=None):
        self.d = d if d is not None else {}
        self.parent = parent

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return e.d[n]
            e = e.parent
        raise KeyError(n)


CARRIED = {"prev", "prevel", "opq", "val", "col", "colr"}


class Interp:
    def __init__(self, root, models=None, src_overlay=None):
        self.root = root
        self.modules = {}
        self.heap = {}
        self.frames = []
        self.overloads = {}
        self.models = {}
        self.boxsize = 0         # products of larger polynomials are not expanded (0: always)
        self.funcmodels = {}     # "module.func" -> callable(interp, args, kw, node)
        self.raises = []         # (guard, exc, function, lineno)
        self.events = []         # generic event log for clients
        self.narrow = []         # extents stored in narrow integer types
        self.missing = None
        self.import_failures = {}
        self.notes = []          # reasons for opacity
        self.dry = 0
        self.depth = 0
        self.covered = set()     # functions analysed
        self.sites = set()
        self.stats = {"stmts": 0, "loops": 0, "calls": 0, "branches": 0, "stores": 0}
        self.modified = set()
        self.written_inputs = {}
        self.indtypes = {}
        self.maxdepth = 60
        from . import models as M
        self.M = M
        M.install(self)
        from . import daskmodel as DM
        self.D = DM
        DM.install(self)
        from . import extlib
        extlib.install(self)

    # ------------------------------------------------------------------ modules
    def mod_path(self, name):
        root = self.root
        if name.split(".")[0] == "specs":
            root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = os.path.join(root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.mod_path(name)
        if path is None:
            raise Opaque("no module %s" % name)
        parent = name.rpartition(".")[0]
        if parent and parent not in self.modules and self.mod_path(parent) is not None:
            self.load(parent)           # as Python does: packages first
            if name in self.modules:
                return self.modules[name]
        m = Module(name)
        m.path = path
        self.modules[name] = m
        with open(path) as f:
            src = f.read()
        m.tree = ast.parse(src, path)
        env = Env(None, m.env)
        m.env["__name__"] = name
        fr = Frame(None, env, m)
        self.frames.append(fr)
        saved = self.dry
        self.dry = 0
        try:
            for s in m.tree.body:
                try:
                    self.stmt(s)
                except (Opaque, InterpRaise, RecursionError, TooBig) as e:
                    self.notes.append("module %s line %s: %s" % (name, s.lineno, e))
                    if self.missing is not None and isinstance(e, InterpRaise):
                        self.import_failures.setdefault(name, (s.lineno, e.exc, str(e.msg)[:200]))
                        raise InterpRaise("ImportError", "%s fails to import: %s" % (name, e.exc))
        except InterpRaise:
            self.modules.pop(name, None)
            raise
        finally:
            self.dry = saved
            self.frames.pop()
        return m

    def need(self, pkg):
        """in an environment without some packages: does importing pkg fail?"""
        if self.missing is not None and pkg.split(".")[0] in self.missing:
            raise InterpRaise("ImportError", pkg)

    def getfunc(self, dotted):
        mod, _, name = dotted.rpartition(".")
        m = self.load(mod)
        if name not in m.env:
            raise KeyError(dotted)
        return m.env[name]

    @property
    def fr(self):
        return self.frames[-1]

    def where(self, node=None):
        f = self.fr
        path = f.module.path if f.module is not None and hasattr(f.module, "path") else "?"
        if path and path.startswith(self.root):
            path = os.path.relpath(path, self.root)
        return "%s:%s in %s" % (path, getattr(node, "lineno", "?"),
                                f.fn.qual if f.fn is not None else "<module>")

    # ------------------------------------------------------------------ state
    def snapshot(self):
        return dict(self.fr.env.d), dict(self.heap)

    def restore(self, s):
        self.fr.env.d.clear()
        self.fr.env.d.update(s[0])
        self.heap.clear()
        self.heap.update(s[1])

    def merge(self, c, s1, s2, env_from=None):
        """state = c ? s1 : s2"""
        e1, h1 = s1
        e2, h2 = s2
        env = {}
        if env_from == 1:
            env = dict(e1)
        elif env_from == 2:
            env = dict(e2)
        else:
            for k in set(e1) | set(e2):
                a, b = e1.get(k, UNDEF), e2.get(k, UNDEF)
                env[k] = self.merge_val(c, a, b)
        heap = {}
        for k in set(h1) | set(h2):
            a, b = h1.get(k), h2.get(k)
            if a is None:
                heap[k] = b
            elif b is None:
                heap[k] = a
            elif a is b:
                heap[k] = a
            else:
                heap[k] = self.merge_heap(c, a, b)
        self.fr.env.d.clear()
        self.fr.env.d.update(env)
        self.heap.clear()
        self.heap.update(heap)

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return sel(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (str, type(None), Ext, DType)) and a == b and type(a) is type(b):
            return a
        if self.same(a, b):
            return a
        return Gate(c, a, b)

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, View):
            return a.arr is b.arr and a.spec == b.spec and a.axes == b.axes and a.lens == b.lens
        if isinstance(a, (str, Ext, DType)):
            return a == b
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Func):
            return a.node is b.node
        if isinstance(a, Slice):
            return all(self.same(x, y) for x, y in ((a.lo, b.lo), (a.hi, b.hi), (a.step, b.step)))
        return False

    def merge_heap(self, c, a, b):
        if isinstance(a, Content) and isinstance(b, Content):
            if a.base is not b.base and a.base != b.base:
                return Content(("opq", "merge", "?"))
            n = 0
            while n < len(a.effects) and n < len(b.effects) and a.effects[n] is b.effects[n]:
                n += 1
            eff = list(a.effects[:n])
            eff += [e.with_guard(c) for e in a.effects[n:]]
            eff += [e.with_guard(lnot(c)) for e in b.effects[n:]]
            eff = [e for e in eff if e.guard is not ZERO]
            return Content(a.base, eff)
        if isinstance(a, tuple) and isinstance(b, tuple):      # lists
            if len(a) == len(b):
                return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
            n = 0
            while n < len(a) and n < len(b) and self.same(a[n], b[n]):
                n += 1
            out = list(a[:n])
            out += [("cond", c, x) for x in a[n:]]
            out += [("cond", lnot(c), x) for x in b[n:]]
            return tuple(out)
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                if k in a and k in b:
                    out[k] = self.merge_val(c, a[k], b[k])
                elif k in a:
                    out[k] = Gate(c, a[k], UNDEF)
                else:
                    out[k] = Gate(c, UNDEF, b[k])
            return out
        raise Opaque("heap merge")

    # ------------------------------------------------------------------ blocks
    def full_pc(self):
        return mul(self.fr.outer, self.fr.pc)

    def simplify(self, c):
        """simplify condition c under the path condition"""
        if const_of(c) is not None:
            return c
        pc = self.full_pc()
        if pc is ONE:
            return c
        try:
            x = mul(pc, c)
        except TooBig:
            return c
        if x is pc:
            return ONE
        if x is ZERO:
            return ZERO
        return c

    def block(self, stmts):
        for i, s in enumerate(stmts):
            live = self.stmt(s)
            if live is None or live is ONE:
                continue
            if live is ZERO:
                return ZERO
            rest = stmts[i + 1:]
            if not rest:
                return live
            snap = self.snapshot()
            old = self.fr.pc
            self.fr.pc = mul(old, live)
            try:
                l2 = self.block(rest)
            except InterpRaise as e:
                if not self.fr.rets and not any(L.rets for L in self.fr.loops):
                    raise
                # the other paths returned: only this one raises
                if not getattr(e, "explicit", False):
                    self.raises.append((self.full_pc(), e.exc, self.where(s)))
                self.restore(snap)
                return ZERO
            finally:
                self.fr.pc = old
            after = self.snapshot()
            # the statement left the function elsewhere: the locals there are irrelevant
            self.merge(live, after, snap, 1 if self.leaves([s]) else None)
            return mul(live, l2)
        return ONE

    def stmt(self, s):
        self.stats["stmts"] += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Opaque("statement %s at %s" % (type(s).__name__, self.where(s)))
        return m(s)

    def s_Pass(self, s):
        return ONE

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return ONE
        self.ev(s.value)
        return ONE

    def s_Assert(self, s):
        try:
            c = self.truth(self.ev(s.test))
        except Opaque:
            return ONE
        self.raises.append((mul(self.full_pc(), lnot(c)), "AssertionError", self.where(s)))
        return ONE

    def s_Global(self, s):
        return ONE

    s_Nonlocal = s_Global

    def s_Import(self, s):
        for a in s.names:
            self.need(a.name)
            if a.name.startswith("africanus") and self.mod_path(a.name):
                m = self.load(a.name)
                if a.asname:
                    self.bind(a.asname, m)
                else:
                    self.bind("africanus", self.load("africanus"))
            else:
                self.bind(a.asname or a.name.split(".")[0],
                          Ext(a.name if a.asname else a.name.split(".")[0]))
        return ONE

    def s_ImportFrom(self, s):
        base = s.module or ""
        if s.level:
            parts = self.fr.module.name.split(".")
            if not self.fr.module.path.endswith("__init__.py"):
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        self.need(base)
        for a in s.names:
            if base.split(".")[0] in ("africanus", "specs") and self.mod_path(base):
                if a.name == "*":
                    m = self.load(base)
                    for k, v in m.env.items():
                        if not k.startswith("_"):
                            self.bind(k, v)
                    continue
                if self.mod_path(base + "." + a.name) and a.name not in self.load(base).env:
                    self.bind(a.asname or a.name, self.load(base + "." + a.name))
                    continue
                m = self.load(base)
                if a.name in m.env:
                    v = m.env[a.name]
                else:
                    v = Ext(base + "." + a.name)
                self.bind(a.asname or a.name, v)
            else:
                self.bind(a.asname or a.name, self.M.ext_attr(self, Ext(base), a.name) if base in ("numpy", "math") and a.name != "*"
                          else Ext(base + "." + a.name))
        return ONE

    def s_FunctionDef(self, s):
        fn = self.mkfunc(s)
        v = fn
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s)
        self.bind(s.name, v)
        return ONE

    def mkfunc(self, s, name=None):
        q = (self.fr.fn.qual + "." if self.fr.fn is not None else "") + (name or s.name)
        fn = Func(s, self.fr.env, self.fr.module, name or s.name, q)
        a = s.args
        fn.defaults = tuple(self.ev(d) for d in a.defaults)
        fn.kwdefaults = {k.arg: self.ev(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return fn

    def decorate(self, d, v, s):
        try:
            dv = self.ev(d)
        except Opaque:
            return v
        except InterpRaise:
            if self.missing is not None:
                raise
            return v
        if self.missing is not None and isinstance(dv, (Func, Partial, Bound)):
            return self.call(dv, [v], {}, d)
        return self.M.apply_decorator(self, dv, v, d)

    def s_ClassDef(self, s):
        c = Cls(s, self.fr.env, self.fr.module, s.name)
        c.bases = []
        for b in s.bases:
            try:
                c.bases.append(self.ev(b))
            except Opaque:
                c.bases.append(None)
        env = Env(self.fr.env)
        fr = Frame(self.fr.fn, env, self.fr.module)
        self.frames.append(fr)
        try:
            for st in s.body:
                try:
                    self.stmt(st)
                except Opaque as e:
                    self.notes.append(str(e))
        finally:
            self.frames.pop()
        c.dict = env.d
        for k, v in c.dict.items():
            if isinstance(v, Func):
                v.cls = c
                v.qual = s.name + "." + v.name
        self.bind(s.name, c)
        return ONE

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        fr = self.fr
        if fr.loops:
            fr.loops[-1].rets.append((fr.pc, v))
        else:
            fr.rets.append((fr.pc, v))
        return ZERO

    def s_Raise(self, s):
        exc = "Exception"
        val = None
        if s.exc is not None:
            try:
                val = self.ev(s.exc)
            except Opaque:
                val = None
            if isinstance(val, Exc):
                exc = val.name
            elif isinstance(val, Ext):
                exc = val.name.replace("builtins.", "")
            elif isinstance(val, Inst):
                exc = val.cls.name
            elif isinstance(val, Cls):
                exc = val.name
            elif isinstance(val, tuple):
                exc = "TypeError(raise tuple)"
        self.raises.append((self.full_pc(), exc, self.where(s)))
        if self.fr.pc is ONE and not any(L.sym for L in self.fr.loops):
            e = InterpRaise(exc, val)
            e.explicit = True
            raise e
        return ZERO

    def s_Break(self, s):
        L = self.fr.loops[-1]
        L.brk = add(L.brk, self.fr.pc)
        return ZERO

    def s_Continue(self, s):
        return ZERO

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                if isinstance(o, LDict):
                    k = self.hkey(self.ev(t.slice))
                    d = dict(self.heap[o.id])
                    d.pop(k, None)
                    self.heap[o.id] = d
        return ONE

    def s_If(self, s):
        c = self.simplify(self.truth(self.ev(s.test)))
        k = const_of(c)
        if k is not None:
            return self.block(s.body if k else s.orelse)
        self.stats["branches"] += 1
        fr = self.fr
        snap = self.snapshot()
        old = fr.pc
        nr = len(fr.rets) + sum(len(L.rets) for L in fr.loops)
        fr.pc = mul(old, c)
        r1 = r2 = None
        try:
            l1 = self.block(s.body)
        except InterpRaise as e:
            l1 = ZERO
            r1 = e
        a1 = self.snapshot()
        self.restore(snap)
        fr.pc = mul(old, lnot(c))
        try:
            l2 = self.block(s.orelse)
        except InterpRaise as e:
            l2 = ZERO
            r2 = e
        a2 = self.snapshot()
        fr.pc = old
        if r1 and r2:
            raise r1
        # a branch that left the function: its locals are irrelevant
        ef = None
        if l1 is ZERO and (r1 or self.leaves(s.body)):
            ef = 2
        elif l2 is ZERO and (r2 or self.leaves(s.orelse)):
            ef = 1
        if r1:
            self.restore(a2)
            return l2 if not self.fr.loops and False else sel(c, ZERO, l2)
        if r2:
            self.restore(a1)
            return sel(c, l1, ZERO)
        self.merge(c, a1, a2, ef)
        return sel(c, l1, l2)

    def leaves(self, stmts):
        """every exit in the branch leaves the function (no break/continue)"""
        for n in ast.walk(ast.Module(body=list(stmts), type_ignores=[])):
            if isinstance(n, (ast.Break, ast.Continue)):
                return False
        return True

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            self.M.enter_with(self, v, it, s)
            if it.optional_vars is not None:
                r = self.M.with_value(self, v)
                self.assign(it.optional_vars, r)
        r = self.block(s.body)
        self.M.exit_with(self, s)
        return r

    def s_Try(self, s):
        snap = self.snapshot()
        try:
            l = self.block(s.body)
            if l is not ZERO and s.orelse:
                l = mul(l, self.block(s.orelse))
        except InterpRaise as e:
            for h in s.handlers:
                names = self.handler_names(h)
                if names is None or e.exc in names or "Exception" in names or "BaseException" in names or \
                        (e.exc == "KeyError" and "LookupError" in names):
                    if h.name:
                        self.bind(h.name, Exc(e.exc))
                    l = self.block(h.body)
                    break
            else:
                if s.finalbody:
                    self.block(s.finalbody)
                raise
        if s.finalbody:
            self.block(s.finalbody)
        return l

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = set()
        for t in ts:
            out.add(t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "?"))
        return out

    # ------------------------------------------------------------------ assignment
    def bind(self, name, v):
        self.fr.env.d[name] = v

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)
        return ONE

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))
        return ONE

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        rhs = self.ev(s.value)
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t))
            if hasattr(cur, "chunks"):
                self.bind(t.id, self.binop(op, cur, rhs, s))
            elif isinstance(cur, (Arr, View)):
                self.store_all(cur, op, rhs, t)
            elif isinstance(cur, Gate) and isinstance(cur.a, (Arr, View)):
                raise Opaque("augmented store to gated array")
            elif isinstance(cur, LList):
                self.heap[cur.id] = self.heap[cur.id] + tuple(self.iterate(rhs))
                self.modified.add(cur.id)
            else:
                if isinstance(cur, Poly) and const_of(cur) is None and "opqarr" in cur.heads:
                    self.event("augstore", cur, op, t)
                self.bind(t.id, self.binop(op, cur, rhs, s))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            ix = self.ev_index(t.slice)
            if isinstance(o, (Arr, View)):
                self.store(o, ix, op, rhs, t)
            else:
                cur = self.getitem(o, ix, t)
                self.setitem(o, ix, self.binop(op, cur, rhs, s), t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr, t)
            if isinstance(cur, (Arr, View)):
                self.store_all(cur, op, rhs, t)
            else:
                self.setattr(o, t.attr, self.binop(op, cur, rhs, s), t)
        return ONE

    def event(self, *a):
        if not self.dry:
            self.events.append(a)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, len(t.elts) if not star else None)
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x)
                l = self.mklist(items[k:len(items) - after])
                self.assign(t.elts[k].value, l)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x)
                return
            if len(items) != len(t.elts):
                raise InterpRaise("ValueError")
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev_index(t.slice), v, t)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v, t)
        else:
            raise Opaque("assign target")

    def unpack(self, v, n):
        if isinstance(v, Poly) and n is not None:
            return [self.M.item(self, v, (num(i),)) for i in range(n)]
        if isinstance(v, Gate) and n is not None:
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return [self.merge_val(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, (Arr, View)) and n is not None:
            return [self.getitem(v, (num(i),), None) for i in range(n)]
        return list(self.iterate(v))

    def mklist(self, items):
        l = LList()
        self.heap[l.id] = tuple(items)
        return l

    def mkobj(self, items):
        l = OList()
        self.heap[l.id] = tuple(items)
        return l

    def mkdict(self, d):
        l = LDict()
        self.heap[l.id] = dict(d)
        return l

    def hkey(self, v):
        """hashable python key for dict lookups"""
        if isinstance(v, Poly):
            c = const_of(v)
            return ("n", c) if c is not None else v
        if isinstance(v, (str, type(None), Ext, Poly, DType)):
            return v
        if isinstance(v, tuple):
            return tuple(self.hkey(x) for x in v)
        if isinstance(v, NT):
            return tuple(self.hkey(x) for x in v.vals)
        if isinstance(v, (Func, Cls, Inst, NTCls, Module)):
            return v
        raise Opaque("dict key %r" % (v,))

    def unkey(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "n" and not isinstance(k[1], (str, tuple)):
            return num(k[1])
        if isinstance(k, tuple):
            return tuple(self.unkey(x) for x in k)
        return k

    def setitem(self, o, ix, v, node):
        if isinstance(o, (Arr, View)):
            return self.store(o, ix, "set", v, node)
        if isinstance(o, LDict):
            d = dict(self.heap[o.id])
            d[self.hkey(ix[0] if len(ix) == 1 else ix)] = v
            self.heap[o.id] = d
            self.modified.add(o.id)
            return
        if isinstance(o, LList):
            k = const_of(ix[0]) if isinstance(ix[0], Poly) else None
            if k is None:
                raise Opaque("list store at symbolic index")
            l = list(self.heap[o.id])
            l[int(k)] = v
            self.heap[o.id] = tuple(l)
            self.modified.add(o.id)
            return
        if isinstance(o, Poly):
            self.event("setitem", o, ix, v, self.where(node))
            return
        if isinstance(o, Gate):
            raise Opaque("store to gated object at %s" % self.where(node))
        raise Opaque("store to %r at %s" % (o, self.where(node)))

    def setattr(self, o, name, v, node):
        if isinstance(o, Inst):
            d = dict(self.heap.get(o.id, {}))
            d[name] = v
            self.heap[o.id] = d
            self.modified.add(o.id)
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, (NTCls, Cls)):
            (o.attrs if isinstance(o, NTCls) else o.dict)[name] = v
            return
        self.event("setattr", o, name, v, self.where(node))

    # ------------------------------------------------------------------ arrays
    def new_array(self, name, shape, dtype, base, origin="alloc", site=None):
        a = Arr(name, shape, dtype, origin, site)
        self.heap[a.id] = Content(base)
        self.shapes[a.id] = a.shape
        if dtype is not None and dtype.kind in "bifc":
            self.akinds[a.id] = dtype.kind
        return a

    def input_array(self, name, shape, dtype):
        if isinstance(dtype, str):
            dtype = DType(["dtype(%s)" % name], dtype)
        self.indtypes[name] = dtype
        return self.new_array(name, shape, dtype, ("in", name, dtype.kind), "input")

    def norm_index(self, o, ix):
        """expand Ellipsis / None / ints / slices to a per-dim list.
        returns list of entries: Poly | ('sl', lo, hi, step) | 'new' | Arr"""
        if not isinstance(ix, tuple):
            ix = (ix,)
        nd = o.ndim
        real = [x for x in ix if x is not None and x is not Ellipsis]
        nreal = 0
        for x in real:
            nreal += x.ndim if isinstance(x, (Arr, View)) and x.dtype.kind == "b" else 1
        out = []
        seen = False
        for x in ix:
            if x is Ellipsis:
                seen = True
                for _ in range(nd - nreal):
                    out.append(Slice(None, None, None))
            elif x is None:
                out.append("new")
            else:
                out.append(x)
        k = sum(1 for x in out if not isinstance(x, str))
        if not seen:
            out += [Slice(None, None, None)] * (nd - nreal)
        return out

    def slice_bounds(self, sl, dim):
        step = sl.step if sl.step is not None else ONE
        sc = const_of(step)
        if sc is None or sc == 0:
            raise Opaque("symbolic slice step")

        def fix(x, default):
            if x is None:
                return default
            c = const_of(x)
            if c is not None and c < 0:
                return add(dim, x)
            dc = const_of(dim)
            if c is not None and dc is not None and c > dc:
                return dim
            return x
        if sc > 0:
            lo = fix(sl.lo, ZERO)
            hi = fix(sl.hi, dim)
            n = add(hi, neg(lo))
            if sc != 1:
                n = T.floordiv(add(n, num(sc - 1)), num(sc))
        else:
            lo = fix(sl.lo, add(dim, num(-1)))
            hi = fix(sl.hi, num(-1)) if sl.hi is not None else num(-1)
            n = T.floordiv(add(add(lo, neg(hi)), num(-sc - 1)), num(-sc))
        return lo, n, num(sc)

    def index_view(self, o, ix, node=None):
        """basic indexing -> Poly (element) or View; fancy -> Arr('fn')"""
        ent = self.norm_index(o, ix)
        if any(isinstance(e, (Arr, View, LList)) or isinstance(e, tuple) for e in ent):
            return self.M.fancy_index(self, o, ent, node)
        if isinstance(o, Arr):
            base, spec0 = o, [("ax", ZERO, ONE) for _ in o.shape]
            axes0, lens0 = list(range(o.ndim)), list(o.shape)
        else:
            base, spec0 = o.arr, list(o.spec)
            axes0, lens0 = list(o.axes), list(o.lens)
        spec = list(spec0)
        axes, lens = [], []
        d = 0
        for e in ent:
            if isinstance(e, str):
                axes.append(None)
                lens.append(ONE)
                continue
            if d >= len(axes0):
                raise InterpRaise("IndexError", "index out of range at %s" % self.where())
            ax, ln = axes0[d], lens0[d]
            d += 1
            if isinstance(e, Slice):
                lo, n, st = self.slice_bounds(e, ln)
                if ax is None:
                    axes.append(None)
                    lens.append(n)
                    continue
                _, s0, st0 = spec[ax]
                spec[ax] = ("ax", add(s0, mul(st0, lo)), mul(st0, st))
                axes.append(ax)
                lens.append(n)
            else:
                p = self.topoly(e)
                c = const_of(p)
                if c is not None and c < 0:
                    p = add(ln, p)
                lc = const_of(ln)
                if c is not None and lc is not None and not (-lc <= c < lc):
                    self.event("oob", base, p, ln, self.where(node))
                    raise InterpRaise("IndexError", "index out of range at %s" % self.where())
                if ax is None:
                    continue
                _, s0, st0 = spec[ax]
                spec[ax] = add(s0, mul(st0, p))
        if not axes:
            return ("elem", base, tuple(spec))
        return View(base, spec, axes, lens)

    def read(self, a, idx):
        return self.read_content(a, self.heap[a.id], tuple(idx))

    def read_content(self, a, content, idx):
        if any(T.bool_atoms(p) for p in idx):
            return T.hoist(lambda *ps: self._read(a, content, ps), *idx)
        return self._read(a, content, idx)

    def _read(self, a, content, idx):
        effs = content.effects
        stack = []
        for e in reversed(effs):
            ind, mp, unb = self.match(a, e, idx)
            if ind is ZERO:
                continue
            g = subst(e.guard, mp)
            v = subst(e.val, mp)
            ind = mul(ind, g)
            if ind is ZERO:
                continue
            if e.op == "add":
                v = mul(ind, v)
                for (q, lo, hi) in reversed(unb):
                    v = T.mk_sum(q, subst(lo, mp), subst(hi, mp), v)
                stack.append(("add", v))
            elif e.op == "set":
                if unb:
                    used = [u for u in unb if u[0] in v.fv or u[0] in ind.fv]
                    if used:
                        stack.append(("last", used, ind, v, mp))
                        continue
                stack.append(("set", ind, v))
                if ind is ONE:
                    break
            else:
                stack.append(("opq", e.op, ind, v, unb))
        full = stack and stack[-1][0] == "set" and stack[-1][1] is ONE
        r = ZERO if full else self.read_base(a, content.base, idx)
        for it in reversed(stack):
            if it[0] == "add":
                r = add(r, it[1])
            elif it[0] == "set":
                r = sel(it[1], it[2], r)
            elif it[0] == "last":
                r = self.mk_last(it[1], it[2], it[3], r, it[4])
            else:
                r = T.opaque("arrayop:" + it[1], it[2], it[3], r)
        return r

    def mk_last(self, unb, ind, v, rest, mp):
        """value of the last iteration satisfying ind, else rest"""
        m = {}
        rg = []
        base = max(T._height(ind), T._height(v), T._height(rest))
        for k, (q, lo, hi) in enumerate(unb):
            rg.append((subst(subst(lo, mp), m), subst(subst(hi, mp), m)))
            m[q] = of(T.bvar(base + k))
        a = atom("last", (tuple(rg), subst(ind, m), subst(v, m), rest, base),
                 v.kind if v.kind == rest.kind else "?")
        return of(a)

    def read_base(self, a, base, idx):
        k = base[0]
        if k == "in":
            return T.elem(base[1], idx, base[2])
        if k == "c":
            return base[1]
        if k == "fn":
            return base[1](idx)
        if k == "dynpart":
            x = self.elem_at(base[1], list(idx), len(idx))
            return T.real(x) if base[2] == "real" else T.imag(x)
        if k == "prev":
            return of(atom("prevel", (base[1], a.id) + tuple(idx), base[2]))
        if k == "empty":
            return of(atom("uninit", (), "?"))
        if k == "content":
            return self.read_content(a, base[1], idx)
        if k == "opq":
            return of(atom("opq", ("array", base[1]) + tuple(idx), base[2]))
        raise Opaque("base " + str(k))

    def match(self, a, e, idx):
        """(indicator, binding, unbound quantifiers)"""
        mp = {}
        qs = {q: (lo, hi) for q, lo, hi in e.quants}
        ind = ONE
        pend = []
        for d, (p, x) in enumerate(zip(e.idx, idx)):
            if p is x and not (p.fv & set(qs)):
                continue
            pend.append((d, p, x))
        # first solve simple quantifier bindings
        changed = True
        while changed:
            changed = False
            for it in list(pend):
                d, p, x = it
                p2 = subst(p, mp)
                free = [q for q in qs if q not in mp and q in p2.fv]
                if not free:
                    diff = add(p2, neg(x))
                    c = const_of(diff)
                    if c is not None:
                        if c != 0:
                            return ZERO, mp, []
                    else:
                        ind = mul(ind, T.eq0(diff))
                        if ind is ZERO:
                            return ZERO, mp, []
                    pend.remove(it)
                    changed = True
                    continue
                if len(free) == 1:
                    q = free[0]
                    co = None
                    ok = True
                    for m, c in p2.terms:
                        if any(q in at.fv for at, _ in m):
                            if len(m) == 1 and m[0][0] is q and m[0][1] == 1 and abs(c) == 1 and co is None:
                                co = c
                            else:
                                ok = False
                    if ok and co is not None:
                        rest = add(p2, T.scale(of(q), -co))
                        sol = T.scale(add(x, neg(rest)), 1 / co)
                        lo, hi = qs[q]
                        mp[q] = sol
                        pend.remove(it)
                        lo, hi = subst(lo, mp), subst(hi, mp)
                        if not (rest is ZERO and lo is ZERO and d < len(a.shape) and hi is a.shape[d]):
                            ind = mul(ind, T.in_range(sol, lo, hi))
                            if ind is ZERO:
                                return ZERO, mp, []
                        changed = True
        for d, p, x in pend:
            p2 = subst(p, mp)
            ind = mul(ind, T.eq0(add(p2, neg(x))))
            if ind is ZERO:
                return ZERO, mp, []
        unb = [(q, lo, hi) for q, lo, hi in e.quants if q not in mp]
        return ind, mp, unb

    def addeffect(self, arr, eff):
        self.stats["stores"] += 1
        c = self.heap[arr.id]
        self.heap[arr.id] = Content(c.base, c.effects + (eff,))
        self.modified.add(arr.id)
        if arr.origin == "input" and not self.dry:
            self.written_inputs.setdefault(arr.name, []).append(eff.site)

    def store_all(self, o, op, rhs, node):
        self.store(o, (Ellipsis,), op, rhs, node)

    def store(self, o, ix, op, rhs, node):
        if isinstance(o, Gate):
            raise Opaque("gated store")
        site = self.where(node)
        if self.M.fancy_store(self, o, ix, op, rhs, node, site):
            return
        r = self.index_view(o, ix, node)
        if isinstance(r, tuple) and r[0] == "elem":
            _, base, idx = r
            val = self.topoly(rhs)
            self.store_elem(base, (), idx, op, val, site)
            return
        if isinstance(r, View):
            quants = []
            vs = []
            for ln in r.lens:
                v = fresh("k")
                T.set_range(v, ZERO, ln)
                vs.append(of(v))
                quants.append((v, ZERO, ln))
            # constant small dims: enumerate
            dims = list(range(len(vs)))
            enum = [d for d in dims if const_of(r.lens[d]) is not None and const_of(r.lens[d]) <= 4]
            combos = [{}]
            for d in enum:
                n = int(const_of(r.lens[d]))
                combos = [{**c, d: k} for c in combos for k in range(n)]
            pend = []
            for c in combos:
                iv = [num(c[d]) if d in c else vs[d] for d in dims]
                idx = r.base_idx(iv)
                val = self.elem_at(rhs, iv, len(iv))
                pend.append(([quants[d] for d in dims if d not in c], idx, val))
            for q, idx, val in pend:
                self.store_elem(r.arr, q, idx, op, val, site)
            return
        raise Opaque("store index")

    NARROW = {"int8": 7, "uint8": 8, "int16": 15, "uint16": 16}

    def store_elem(self, base, quants, idx, op, val, site):
        dt = base.dtype
        if dt is not None and not self.dry and isinstance(val, Poly) and ("dim" in val.heads) and dt.concrete() in self.NARROW:
            self.narrow.append((dt.concrete(), site))
        if any(T.bool_atoms(p) for p in idx):
            for i, p in enumerate(idx):
                bs = T.bool_atoms(p)
                if bs:
                    b = min(bs)
                    for k, g in ((1, of(b)), (0, lnot(of(b)))):
                        ix2 = tuple(T.cofactor(q, b, k) for q in idx)
                        if op == "set":
                            self._se(base, quants, ix2, op, val, site, g)
                        else:
                            self._se(base, quants, ix2, op, val, site, g)
                    return
        self._se(base, quants, idx, op, val, site, ONE)

    def _se(self, base, quants, idx, op, val, site, guard):
        if any(T.bool_atoms(p) for p in idx):
            for p in idx:
                bs = T.bool_atoms(p)
                if bs:
                    b = min(bs)
                    self._se(base, quants, tuple(T.cofactor(q, b, 1) for q in idx), op, val, site, mul(guard, of(b)))
                    self._se(base, quants, tuple(T.cofactor(q, b, 0) for q in idx), op, val, site,
                             mul(guard, lnot(of(b))))
                    return
        if guard is ZERO:
            return
        if isinstance(base, Part):
            w = base.whole
            if isinstance(w, View):
                widx, w = w.base_idx(idx), w.arr
            else:
                widx = idx
            cur = self.read_content(w, self.heap[w.id], widx)
            re, im = T.real(cur), T.imag(cur)
            x = re if base.part == "real" else im
            if op != "set":
                val = self.binop(op, x, val, None)
            new = add(val, mul(T.I, im)) if base.part == "real" else add(re, mul(T.I, val))
            self.addeffect(w, Effect(quants, guard, widx, "set", new, site))
            return
        if op in ("set",):
            if isinstance(val, Poly) and val.heads & CARRIED and val.kind in "ifc":
                # x[i] = x[i] + rest is an accumulation
                cur = self.read_content(base, self.heap[base.id], idx)
                if cur.heads & CARRIED:
                    rest = add(val, neg(cur))
                    if not rest.heads & CARRIED:
                        self.addeffect(base, Effect(quants, guard, idx, "add", rest, site))
                        return
            self.addeffect(base, Effect(quants, guard, idx, "set", val, site))
        elif op in ("Add", "Sub"):
            if op == "Sub":
                val = neg(val)
            self.addeffect(base, Effect(quants, guard, idx, "add", val, site))
        else:
            cur = self.read_content(base, self.heap[base.id], idx)
            new = self.binop(op, cur, val, None)
            self.addeffect(base, Effect(quants, guard, idx, "set", new, site))

    def elem_at(self, v, iv, nd):
        """element of value v broadcast to an nd-dim index iv"""
        if isinstance(v, Poly):
            if "opqarr" in v.heads:
                return self.M.item(self, v, tuple(iv))
            return v
        if isinstance(v, (Arr, View)):
            k = v.ndim
            if k > nd:
                raise Opaque("broadcast")
            sub = list(iv[nd - k:]) if k else []
            shp = v.shape
            for i in range(k):
                if const_of(shp[i]) == 1:
                    sub[i] = ZERO
            if isinstance(v, View):
                return self.read(v.arr, v.base_idx(sub))
            return self.read(v, sub)
        if isinstance(v, Gate):
            return sel(v.c, self.elem_at(v.a, iv, nd), self.elem_at(v.b, iv, nd))
        if isinstance(v, (LList, tuple)):
            items = list(self.iterate(v))
            k = const_of(iv[-1])
            if k is not None and all(isinstance(x, Poly) for x in items):
                return items[int(k)]
            if items and all(isinstance(x, (LList, tuple)) for x in items) and nd >= 2:
                k = const_of(iv[-2])
                if k is not None:
                    return self.elem_at(items[int(k)], iv[-1:], 1)
        return self.topoly(v)

    def lazy_array(self, name, shape, dtype, fn):
        a = Arr(name, shape, dtype, "expr")
        self.shapes[a.id] = a.shape
        self.heap[a.id] = Content(("fn", fn))
        return a

    def frozen(self, v):
        """snapshot reader: fn(idx)->Poly for array-like v at this moment"""
        if isinstance(v, Poly):
            return lambda idx: v
        if isinstance(v, Arr):
            c = self.heap[v.id]
            return lambda idx: self.read_content(v, c, tuple(idx))
        if isinstance(v, View):
            c = self.heap[v.arr.id]
            return lambda idx: self.read_content(v.arr, c, v.base_idx(idx))
        if isinstance(v, Gate):
            f, g = self.frozen(v.a), self.frozen(v.b)
            return lambda idx: sel(v.c, f(idx), g(idx))
        raise Opaque("frozen %r" % (v,))

    def broadcast(self, vals):
        """(shape, [fn(idx)->Poly])"""
        nd = max([v.ndim for v in vals if isinstance(v, (Arr, View))] or [0])
        shape = [ONE] * nd
        fns = []
        for v in vals:
            if isinstance(v, (Arr, View)):
                off = nd - v.ndim
                for i, s in enumerate(v.shape):
                    if const_of(s) != 1:
                        if const_of(shape[off + i]) == 1 or shape[off + i] is s:
                            shape[off + i] = s
                        # otherwise sizes must agree at run time; keep the first
                fr = self.frozen(v)

                def mk(fr=fr, off=off, shp=v.shape):
                    def f(idx):
                        sub = list(idx[off:])
                        for i, s in enumerate(shp):
                            if const_of(s) == 1:
                                sub[i] = ZERO
                        return fr(tuple(sub))
                    return f
                fns.append(mk())
            else:
                p = self.topoly(v)
                fns.append(lambda idx, p=p: p)
        return tuple(shape), fns

    def elementwise(self, f, vals, kind=None, name="expr"):
        if not any(isinstance(v, (Arr, View)) for v in vals):
            return f(*[self.topoly(v) for v in vals])
        shape, fns = self.broadcast(vals)
        dt = None
        for v in vals:
            d = v.dtype if isinstance(v, (Arr, View)) else None
            if d is not None:
                dt = d if dt is None else dt.join(d)
        if dt is not None and not kind:
            for v in vals:
                if isinstance(v, Poly):
                    dt = dt.with_scalar(v.kind)
        if kind:
            dt = DType(["%s64" % {"f": "float", "b": "bool", "i": "int", "c": "complex"}[kind]], kind)
        return self.lazy_array(name, shape, dt, lambda idx: f(*[g(idx) for g in fns]))

    # ------------------------------------------------------------------ values
    def topoly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, (int, float, complex)):
            return num(v)
        if isinstance(v, Gate):
            return sel(v.c, self.topoly(v.a), self.topoly(v.b))
        if isinstance(v, (Arr, View)) and v.ndim == 0:
            return self.elem_at(v, [], 0)
        if isinstance(v, (Arr, View)) and all(const_of(s) == 1 for s in v.shape):
            return self.elem_at(v, [ZERO] * v.ndim, v.ndim)
        if v is None or isinstance(v, str):
            return of(atom("pyc", (repr(v),), "?"))
        return of(atom("opqarr" if isinstance(v, (Arr, View)) else "val", (self.termify(v),), "?"))

    def termify(self, v):
        """hashable canonical description of any value"""
        if isinstance(v, (Poly, str, Atom)):
            return v
        if v is None:
            return "None"
        if v is Ellipsis:
            return "..."
        if isinstance(v, Ext):
            return "ext:" + v.name
        if isinstance(v, DType):
            return "dt:" + repr(v)
        if isinstance(v, tuple):
            return ("tup",) + tuple(self.termify(x) for x in v)
        if isinstance(v, NT):
            return ("nt", v.cls.name) + tuple(self.termify(x) for x in v.vals)
        if isinstance(v, LList):
            return ("list",) + tuple(self.term_item(x) for x in self.heap[v.id])
        if isinstance(v, LDict):
            d = self.heap[v.id]
            ks = sorted(d, key=lambda k: repr(k))
            return ("dict",) + tuple((T._akey(self.termify(self.unkey(k)))
                                      if not isinstance(k, str) else k, self.termify(d[k])) for k in ks)
        if isinstance(v, Arr):
            c = self.heap[v.id]
            if c.base[0] == "in" and not c.effects:
                return ("arr", v.name, tuple(v.shape), c.base[2])
            return ("arrv", tuple(v.shape), self.comprehend(v, "yvar"))
        if isinstance(v, View):
            base = self.heap[v.arr.id]
            return ("arrv", tuple(v.lens), self.comprehend(v, "yvar"))
        if isinstance(v, Slice):
            return ("slice", self.termify(v.lo), self.termify(v.hi), self.termify(v.step))
        if isinstance(v, Func):
            return "func:%s.%s" % (getattr(v.module, "name", "?"), v.qual)
        if isinstance(v, Cls):
            return "cls:" + v.name
        if isinstance(v, NTCls):
            return "ntcls:" + v.name
        if isinstance(v, Inst):
            d = self.heap.get(v.id, {})
            return ("inst", v.cls.name) + tuple((k, self.termify(d[k])) for k in sorted(d))
        if isinstance(v, Gate):
            return ("gate", v.c, self.termify(v.a), self.termify(v.b))
        if isinstance(v, Partial):
            return ("partial", self.termify(v.fn)) + tuple(self.termify(a) for a in v.args) + \
                tuple((k, self.termify(v.kw[k])) for k in sorted(v.kw))
        if isinstance(v, Module):
            return "mod:" + v.name
        if isinstance(v, Exc):
            return "exc:" + v.name
        if isinstance(v, Bound):
            return ("bound", self.termify(v.fn), self.termify(v.self_))
        if isinstance(v, Method):
            return ("method", v.name, self.termify(v.obj))
        if isinstance(v, LSet):
            return ("set",) + tuple(sorted((self.termify(x) for x in v.items), key=T._akey))
        if hasattr(v, "termify"):
            return v.termify(self)
        if v is UNDEF:
            return "undef"
        return "py:%r" % (v,)

    def term_item(self, x):
        if isinstance(x, tuple) and x and x[0] == "cond":
            return ("cond", x[1], self.termify(x[2]))
        if isinstance(x, tuple) and x and x[0] == "forseg":
            _, q, lo, hi, g, v = x
            b = T.bvar(900)
            return ("forseg", lo, hi, subst(g, {q: of(b)}), self.subst_term(self.termify(v), {q: of(b)}))
        return self.termify(x)

    def subst_term(self, t, mp):
        if isinstance(t, Poly):
            return subst(t, mp)
        if isinstance(t, tuple):
            return tuple(self.subst_term(x, mp) for x in t)
        return t

    def comprehend(self, v, head="xvar"):
        """canonical contents: tuple of (pattern, Poly) over index variables"""
        if head == "yvar":
            # index variables of nested arrays stay distinct
            lv = 0
            for _, x in self.comprehend(v, "zvar"):
                lv = max(lv, ylevel(x))
            return self._comprehend(v, head, lv)
        return self._comprehend(v, head, 0)

    def _comprehend(self, v, head, lv):
        dims = list(v.shape)
        combos = [()]
        for d, n in enumerate(dims):
            c = const_of(n)
            if c is not None and c <= 4:
                combos = [cc + (num(k),) for cc in combos for k in range(int(c))]
            else:
                combos = [cc + (xvar(d + 10 * lv, n, head),) for cc in combos]
        out = []
        for cc in combos:
            out.append((cc, self.elem_at(v, list(cc), len(cc))))
        return tuple(out)

    def truth(self, v):
        if isinstance(v, Poly):
            if v.kind == "b":
                return v
            c = const_of(v)
            if c is not None:
                return ONE if c else ZERO
            if "opqarr" in v.heads or v.kind == "?":
                return of(atom("truthy", (v,), "b")) if v.kind == "?" and not self.isbool(v) else lnot(T.eq0(v))
            return lnot(T.eq0(v))
        if v is None:
            return ZERO
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, str):
            return ONE if v else ZERO
        if isinstance(v, tuple):
            return ONE if v else ZERO
        if isinstance(v, (LList, LDict)):
            c = self.heap[v.id]
            if any(isinstance(x, tuple) and x and x[0] in ("cond", "forseg") for x in (c if isinstance(c, tuple) else ())):
                return of(atom("truthy", (self.termify(v),), "b"))
            return ONE if c else ZERO
        if isinstance(v, Gate):
            return sel(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, (Arr, View)):
            if all(const_of(s) == 1 for s in v.shape):
                return self.truth(self.topoly(v))
            return of(atom("truthy", (self.termify(v),), "b"))
        return ONE

    def isbool(self, v):
        return v.kind == "b"

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Opaque("expression %s at %s" % (type(n).__name__, self.where(n)))
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, (int, float, complex)):
            return num(v)
        return v

    def e_Name(self, n):
        if n.id == "Ellipsis":
            return Ellipsis
        try:
            v = self.fr.env.lookup(n.id)
        except KeyError:
            self.check_unbound(n)
            if self.fr.module is not None and n.id in self.fr.module.env:
                return self.fr.module.env[n.id]
            if self.missing is not None and not hasattr(builtins, n.id):
                raise InterpRaise("NameError", n.id)
            return Ext("builtins." + n.id)
        if v is UNDEF:
            raise InterpRaise("UnboundLocalError")
        return v

    _locals = {}

    def check_unbound(self, n):
        """reading a name that only this function assigns, before any assignment"""
        node = getattr(self.fr.fn, "node", None)
        if not isinstance(node, ast.FunctionDef):
            return
        r = self._locals.get(id(node))
        if r is None:
            glob, inloop = set(), set()
            for x in ast.walk(node):
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    glob |= set(x.names)
                if isinstance(x, (ast.For, ast.While)):
                    inloop |= self.assigned(x.body)
                if isinstance(x, ast.comprehension):
                    inloop |= self.assigned([x.target])
            r = self._locals[id(node)] = (node, self.assigned(node.body) - glob, inloop)
        if n.id in r[1]:
            if n.id in r[2] and not self.definite_loop(n.id):
                raise Opaque("%s read after a loop that may assign it" % n.id)
            raise InterpRaise("UnboundLocalError", n.id)

    def definite_loop(self, name):
        return all(not l.sym for l in self.fr.loops) and not self.fr.symloops

    def e_Tuple(self, n):
        return tuple(self.seq(n.elts))

    def seq(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value)))
            else:
                out.append(self.ev(e))
        return out

    def e_List(self, n):
        return self.mklist(self.seq(n.elts))

    def e_Set(self, n):
        return LSet(self.seq(n.elts))

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v)
                if isinstance(o, LDict):
                    d.update(self.heap[o.id])
                else:
                    raise Opaque("** of opaque")
            else:
                d[self.hkey(self.ev(k))] = self.ev(v)
        return self.mkdict(d)

    def e_Lambda(self, n):
        f = Func(n, self.fr.env, self.fr.module, "<lambda>",
                 (self.fr.fn.qual + "." if self.fr.fn is not None else "") + "<lambda>")
        f.defaults = tuple(self.ev(d) for d in n.args.defaults)
        return f

    def e_IfExp(self, n):
        c = self.simplify(self.truth(self.ev(n.test)))
        k = const_of(c)
        if k is not None:
            return self.ev(n.body if k else n.orelse)
        old = self.fr.pc
        try:
            self.fr.pc = mul(old, c)
            a = self.ev(n.body)
            self.fr.pc = mul(old, lnot(c))
            b = self.ev(n.orelse)
        finally:
            self.fr.pc = old
        return self.merge_val(c, a, b)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        acc = None
        cond = ONE
        old = self.fr.pc
        try:
            for i, e in enumerate(n.values):
                v = self.ev(e)
                t = self.truth(v)
                t = self.simplify(t)
                if acc is None:
                    acc, accv = t, v
                else:
                    if isand:
                        accv = v if const_of(acc) == 1 else None
                        acc = mul(acc, t)
                    else:
                        accv = v if const_of(acc) == 0 else None
                        acc = T.lor(acc, t)
                k = const_of(acc)
                if isand and k == 0:
                    return accv if accv is not None and not isinstance(accv, Poly) else ZERO
                if not isand and k == 1:
                    return accv if accv is not None else ONE
                self.fr.pc = mul(old, acc if isand else lnot(acc))
        finally:
            self.fr.pc = old
        if accv is not None and const_of(acc) is None and len(n.values) > 1 and False:
            return accv
        if accv is not None and not isinstance(accv, Poly):
            return accv
        return acc

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        o = type(n.op).__name__
        return self.unop(o, v, n)

    def unop(self, o, v, n):
        if o == "Not":
            return lnot(self.truth(v))
        if isinstance(v, Gate):
            return self.merge_val(v.c, self.unop(o, v.a, n), self.unop(o, v.b, n))
        if o == "USub":
            return self.elementwise(neg, [v])
        if o == "UAdd":
            return v
        if o == "Invert":
            def f(p):
                if p.kind == "b":
                    return lnot(p)
                return of(atom("invert", (p,), p.kind))
            return self.elementwise(f, [v], "b")
        raise Opaque("unary")

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        r = self.binop(type(n.op).__name__, a, b, n)
        if isinstance(r, Arr) and r.dtype is not None:
            for x in (n.left, n.right):
                if isinstance(x, ast.Constant) and isinstance(x.value, (float, complex)):
                    r.dtype = r.dtype.with_scalar("c" if isinstance(x.value, complex) else "f")
        return r

    def binop(self, op, a, b, n=None):
        if isinstance(a, Gate):
            return self.merge_val(a.c, self.binop(op, a.a, b, n), self.binop(op, a.b, b, n))
        if isinstance(b, Gate):
            return self.merge_val(b.c, self.binop(op, a, b.a, n), self.binop(op, a, b.b, n))
        if op == "Mod" and isinstance(a, str):
            return self.M.strfmt(self, a, b)
        if isinstance(a, OList) or isinstance(b, OList):
            raise Opaque("arithmetic on an object array")
        if op == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, str) or isinstance(b, str):
                return of(atom("strcat", (self.termify(a), self.termify(b)), "?"))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, LList) and isinstance(b, LList):
                return self.mklist(self.heap[a.id] + self.heap[b.id])
            if isinstance(a, tuple) and isinstance(b, Poly):
                return of(atom("tupcat", (self.termify(a), b), "?"))
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (tuple, LList)) and isinstance(y, Poly):
                    k = const_of(y)
                    if k is None:
                        z = self.heap[x.id] if isinstance(x, LList) else ()
                        if len(z) == 1 and isinstance(z[0], (Poly, str)):
                            return self.mklist([("forseg", fresh("q"), ZERO, y, ONE, z[0])])
                        return of(atom("seqrep", (self.termify(x), y), "?"))
                    if isinstance(x, tuple):
                        return x * int(k)
                    return self.mklist(self.heap[x.id] * int(k))
            if isinstance(a, str) and isinstance(b, Poly):
                return of(atom("strrep", (a, b), "?"))
        if op == "MatMult":
            return self.M.call_ext(self, "numpy.matmul", [a, b], {}, n)
        if isinstance(a, LSet) or isinstance(b, LSet):
            return of(atom("setop:" + op, (self.termify(a), self.termify(b)), "?"))
        r = self.M.binop_hook(self, op, a, b, n)
        if r is not NotImplemented:
            return r
        f = BIN.get(op)
        if op in ("Add", "Sub", "Div", "FloorDiv", "Pow", "Mult") and not self.dry and any(x is None or type(x) in (tuple, str) for x in (a, b)) and \
                all(x is None or type(x) in (tuple, str) or isinstance(x, Poly) and x.kind in "bifc" and not (x.heads & CARRIED) for x in (a, b)):
            raise InterpRaise("TypeError", "%s of %s and %s at %s" % (op, type(a).__name__, type(b).__name__, self.where(n)))
        if self.boxsize and op in ("Mult", "Div"):
            a, b = self.box(a), self.box(b)
        if f is None:
            return of(atom("op:" + op, (self.termify(a), self.termify(b)), "?"))
        r = self.elementwise(f, [a, b])
        if op == "Div" and isinstance(r, (Arr, View)) and r.dtype is not None and r.dtype.kind in ("i", "b"):
            r = self.M.with_dtype(r, DType(["float64"]))
        for x in (a, b):
            if hasattr(x, "chunks"):
                return self.D.redask(self, r, x)
        return r

    def e_Compare(self, n):
        left = self.ev(n.left)
        acc = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            v = self.compare(type(op).__name__, left, right, n)
            acc = v if acc is None else mul(self.truth(acc), self.truth(v))
            left = right
        return acc

    CMP = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}

    def compare(self, op, a, b, n):
        if isinstance(a, Gate):
            return self.merge_val(a.c, self.compare(op, a.a, b, n), self.compare(op, a.b, b, n))
        if isinstance(b, Gate):
            return self.merge_val(b.c, self.compare(op, a, b.a, n), self.compare(op, a, b.b, n))
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if op == "Is" else lnot(r)
        if op in ("In", "NotIn"):
            r = self.contains(a, b)
            return r if op == "In" else lnot(r)
        nump = isinstance(a, (Poly, Arr, View)) and isinstance(b, (Poly, Arr, View))
        if nump and not (self.M.objlike(a) or self.M.objlike(b)):
            o = self.CMP[op]
            return self.elementwise(lambda x, y: cmp(o, x, y), [a, b], "b")
        if op in ("Eq", "NotEq"):
            r = self.obj_eq(a, b)
            return r if op == "Eq" else lnot(r)
        if nump:
            o = self.CMP[op]
            return self.elementwise(lambda x, y: cmp(o, x, y), [a, b], "b")
        return of(atom("cmp:" + op, (self.termify(a), self.termify(b)), "b"))

    def identical(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y is None:
                if x is None:
                    return ONE
                if isinstance(x, Poly) and self.M.objlike(x):
                    return of(atom("isnone", (x,), "b"))
                return ZERO
        if isinstance(a, Poly) and isinstance(b, Poly):
            if a is b:
                return ONE
            if const_of(a) is not None and const_of(b) is not None:
                return ZERO
            return of(atom("is", tuple(sorted((a, b), key=T._akey)), "b"))
        if self.same(a, b):
            return ONE
        if isinstance(a, Ext) or isinstance(b, Ext) or isinstance(a, Poly) or isinstance(b, Poly):
            return of(atom("is", tuple(sorted((self.termify(a), self.termify(b)), key=T._akey)), "b"))
        return ZERO

    def obj_eq(self, a, b):
        if isinstance(a, (str, type(None), DType, Ext)) and isinstance(b, (str, type(None), DType, Ext)):
            if isinstance(a, DType) or isinstance(b, DType):
                ta, tb = self.M.as_dtype(self, a), self.M.as_dtype(self, b)
                if ta == tb:
                    return ONE
                if ta is not None and tb is not None and all("(" not in p for p in ta.parts | tb.parts):
                    return ZERO
                return of(atom("oeq", tuple(sorted((repr(ta), repr(tb)))), "b"))
            return ONE if a == b else ZERO
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return ZERO
            r = ONE
            for x, y in zip(a, b):
                r = mul(r, self.truth(self.compare("Eq", x, y, None)))
            return r
        if isinstance(a, LList) and isinstance(b, LList):
            return self.obj_eq(tuple(self.heap[a.id]), tuple(self.heap[b.id]))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst) and x.cls.name == "object" and not (isinstance(y, Poly) and self.M.objlike(y)):
                return ONE if x is y else ZERO
            if isinstance(x, Exc) and isinstance(y, (str, type(None), Inst)):
                return ZERO
            if isinstance(x, str) and isinstance(y, Poly) and y.kind in "bifc":
                return ZERO
        ta, tb = self.termify(a), self.termify(b)
        if T._akey(ta) == T._akey(tb):
            return ONE
        # put constants second
        if isinstance(ta, str) and not isinstance(tb, str):
            ta, tb = tb, ta
        elif not isinstance(tb, str) and T._akey(ta) > T._akey(tb):
            ta, tb = tb, ta
        return of(atom("oeq", (ta, tb), "b"))

    def contains(self, a, b):
        if isinstance(b, LDict):
            try:
                k = self.hkey(a)
            except Opaque:
                return of(atom("in", (self.termify(a), self.termify(b)), "b"))
            d = self.heap[b.id]
            if k in d:
                v = d[k]
                if isinstance(v, Gate) and (v.a is UNDEF or v.b is UNDEF):
                    return v.c if v.b is UNDEF else lnot(v.c)
                return ONE
            if isinstance(k, Poly):
                return of(atom("in", (self.termify(a), self.termify(b)), "b"))
            return ZERO
        if isinstance(b, (tuple, LList, LSet)):
            r = ZERO
            for x in self.iterate(b):
                r = T.lor(r, self.truth(self.compare("Eq", a, x, None)))
            return r
        if isinstance(b, str) and isinstance(a, str):
            return ONE if a in b else ZERO
        return of(atom("in", (self.termify(a), self.termify(b)), "b"))

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else None
        fr = self.fr
        if getattr(fr, "yields", None) is None or any(L.sym for L in fr.loops) or fr.pc is not ONE:
            raise Opaque("conditional yield")
        fr.yields.append(v)
        return None

    def e_Starred(self, n):
        raise Opaque("starred")

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                if isinstance(x, Poly) and const_of(x) is not None and v.format_spec is None:
                    x = str(const_of(x))
                if isinstance(x, str) and v.format_spec is None and v.conversion == -1:
                    parts.append(x)
                else:
                    parts.append(("fmt", self.termify(x)))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return of(atom("fstr", tuple(parts), "?"))

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr, n)

    def getattr(self, o, name, n=None):
        if hasattr(o, "sa_getattr"):
            return o.sa_getattr(self, name)
        if isinstance(o, Gate):
            return self.merge_val(o.c, self.getattr(o.a, name, n), self.getattr(o.b, name, n))
        if isinstance(o, Module):
            if name in o.env:
                return o.env[name]
            if self.mod_path(o.name + "." + name):
                return self.load(o.name + "." + name)
            raise InterpRaise("AttributeError")
        if isinstance(o, Ext) and name == "dtype" and o.name.split(".")[0] in ("numpy", "numba", "builtins"):
            dt = self.M.as_dtype(self, o)
            if dt is not None:
                return dt
        if isinstance(o, Ext):
            return self.M.ext_attr(self, o, name)
        if isinstance(o, Super):
            c = o.cls
            cl = o.obj if isinstance(o.obj, Cls) else o.obj.cls
            for b in c.bases:
                v = self.cls_lookup(b, name)
                if v is not UNDEF:
                    if isinstance(v, Func):
                        if "property" in v.flags:
                            return self.call(v, [o.obj], {}, n)
                        if "static" in v.flags:
                            return v
                        if "classm" in v.flags:
                            return Bound(v, cl)
                        return Bound(v, o.obj)
                    return v
            if name == "__init__" and all(isinstance(b, Ext) and b.name == "builtins.object" for b in c.bases):
                return Ext("sa.noop")
            return Method(o, name)
        if isinstance(o, Inst):
            d = self.heap.get(o.id, {})
            if name in d:
                return d[name]
            v = self.cls_lookup(o.cls, name)
            if v is UNDEF:
                if name in ("substitute", "safe_substitute") and self.M.is_template(o.cls):
                    return Method(o, name)
                return of(atom("attr", (self.termify(o), name), "?"))
            if isinstance(v, Func):
                if "property" in v.flags:
                    return self.call(v, [o], {}, n)
                if "static" in v.flags:
                    return v
                if "classm" in v.flags:
                    return Bound(v, o.cls)
                return Bound(v, o)
            return v
        if isinstance(o, Cls):
            v = self.cls_lookup(o, name)
            if v is UNDEF:
                if name == "__name__":
                    return o.name
                return of(atom("attr", (self.termify(o), name), "?"))
            if isinstance(v, Func) and "classm" in v.flags:
                return Bound(v, o)
            return v
        if isinstance(o, NT):
            if name in o.cls.fields:
                return o.vals[o.cls.fields.index(name)]
            if name in o.cls.attrs:
                return Bound(o.cls.attrs[name], o)
            return Method(o, name)
        if isinstance(o, NTCls):
            if name == "_fields":
                return tuple(o.fields)
            if name in o.attrs:
                return o.attrs[name]
            return Method(o, name)
        if isinstance(o, (Func, Partial)):
            if isinstance(o, Func) and name in o.attrs:
                return o.attrs[name]
            if name in ("__name__",):
                return o.name if isinstance(o, Func) else o.fn.name
            if name in ("py_func", "__wrapped__"):
                return o
            return of(atom("attr", (self.termify(o), name), "?"))
        return self.M.attr(self, o, name, n)

    def cls_lookup(self, c, name):
        if not isinstance(c, Cls):
            return UNDEF
        if name in c.dict:
            return c.dict[name]
        for b in c.bases:
            v = self.cls_lookup(b, name)
            if v is not UNDEF:
                return v
        return UNDEF

    def ev_index(self, n):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index1(e) for e in n.elts)
        v = self.ev_index1(n)
        if isinstance(v, tuple):
            return v
        if isinstance(v, NT):
            return v.vals
        return (v,)

    def ev_index1(self, n):
        if isinstance(n, ast.Slice):
            return Slice(self.ev(n.lower) if n.lower else None,
                         self.ev(n.upper) if n.upper else None,
                         self.ev(n.step) if n.step else None)
        return self.ev(n)

    def e_Slice(self, n):
        return self.ev_index1(n)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        return self.getitem(o, self.ev_index(n.slice), n)

    def getitem(self, o, ix, n):
        if isinstance(o, Gate):
            return self.merge_val(o.c, self.getitem(o.a, ix, n), self.getitem(o.b, ix, n))
        if isinstance(o, (Arr, View)):
            if any(isinstance(x, Gate) for x in ix):
                for k, x in enumerate(ix):
                    if isinstance(x, Gate):
                        return self.merge_val(x.c, self.getitem(o, ix[:k] + (x.a,) + ix[k + 1:], n),
                                              self.getitem(o, ix[:k] + (x.b,) + ix[k + 1:], n))
            r = self.index_view(o, ix, n)
            if isinstance(r, tuple) and r[0] == "elem":
                return self.read(r[1], r[2])
            return r
        if isinstance(o, NT):
            o = o.vals
        if isinstance(o, (tuple, LList)):
            items = o if isinstance(o, tuple) else self.heap[o.id]
            i = ix[0]
            if isinstance(i, Slice):
                if any(isinstance(x, tuple) and x and x[0] in ("cond", "forseg") for x in items) and isinstance(o, LList):
                    if len(items) == 1 and items[0][0] == "forseg" and items[0][4] is ONE and items[0][2] == ZERO and i.step is None \
                            and (i.lo is None or i.lo == ZERO) and (i.hi is None or i.hi == items[0][3]):
                        return self.mklist(list(items))
                    return of(atom("item", (self.termify(o), self.termify(i)), "?"))
                b = []
                for x in (i.lo, i.hi, i.step):
                    if x is None:
                        b.append(None)
                    else:
                        c = const_of(x)
                        if c is None:
                            return of(atom("item", (self.termify(o), self.termify(i)), "?"))
                        b.append(int(c))
                r = items[slice(*b)]
                return tuple(r) if isinstance(o, tuple) else self.mklist(r)
            if isinstance(i, Gate):
                return self.merge_val(i.c, self.getitem(o, (i.a,), n), self.getitem(o, (i.b,), n))
            c = const_of(i) if isinstance(i, Poly) else None
            if len(items) == 1 and isinstance(o, LList) and isinstance(items[0], tuple) and items[0] and items[0][0] == "forseg" \
                    and items[0][4] is ONE and items[0][2] == ZERO and isinstance(i, Poly) and (c is None or c >= 0):
                z = items[0][5]
                return subst(z, {items[0][1]: i}) if isinstance(z, Poly) else z
            if c is None:
                if isinstance(i, Poly) and T.bool_atoms(i):
                    b = min(T.bool_atoms(i))
                    return self.merge_val(of(b), self.getitem(o, (T.cofactor(i, b, 1),), n),
                                          self.getitem(o, (T.cofactor(i, b, 0),), n))
                if isinstance(i, Poly) and items and all(isinstance(x, Poly) for x in items) \
                        and len(items) <= 16:
                    r = items[-1]
                    for k in range(len(items) - 1):
                        r = sel(T.eq0(add(i, num(-k))), items[k], r)
                    return r
                return of(atom("item", (self.termify(o), self.termify(i)), "?"))
            if isinstance(o, LList) and any(isinstance(x, tuple) and x and x[0] in ("cond", "forseg") for x in items):
                return of(atom("item", (self.termify(o), self.termify(i)), "?"))
            try:
                return items[int(c)]
            except IndexError:
                raise InterpRaise("IndexError", "index out of range at %s" % self.where())
        if isinstance(o, LDict):
            k = self.hkey(ix[0] if len(ix) == 1 else ix)
            d = self.heap[o.id]
            if k in d:
                v = d[k]
                if isinstance(v, Gate) and v.a is UNDEF:
                    return v.b
                if isinstance(v, Gate) and v.b is UNDEF:
                    return v.a
                return v
            if isinstance(k, Poly):
                return of(atom("item", (self.termify(o), k), "?"))
            raise InterpRaise("KeyError")
        return self.M.item(self, o, ix)

    def e_ListComp(self, n):
        items = self.comp(n.generators, n.elt)
        return self.mklist(items)

    def e_GeneratorExp(self, n):
        return self.mklist(self.comp(n.generators, n.elt))

    def e_SetComp(self, n):
        return LSet(self.comp(n.generators, n.elt))

    def e_DictComp(self, n):
        items = self.comp(n.generators, ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()))
        d = {}
        for it in items:
            if it and it[0] in ("cond", "forseg"):
                raise Opaque("symbolic dict comprehension")
            d[self.hkey(it[0])] = it[1]
        return self.mkdict(d)

    def comp(self, gens, elt):
        env = Env(self.fr.env)
        old = self.fr.env
        self.fr.env = env
        try:
            return self._comp(gens, elt, ONE)
        finally:
            self.fr.env = old

    def _comp(self, gens, elt, guard):
        if not gens:
            v = self.ev(elt)
            return [v] if guard is ONE else [("cond", guard, v)]
        g = gens[0]
        it = self.ev(g.iter)
        out = []

        def inner(x, guard):
            self.assign(g.target, x)
            c = guard
            for t in g.ifs:
                k = self.simplify(self.truth(self.ev(t)))
                c = mul(c, k)
                if c is ZERO:
                    return []
            return self._comp(gens[1:], elt, c)
        rng = self.sym_iter(it)
        if rng is None:
            for x in self.iterate(it):
                out.extend(inner(x, guard))
            return out
        v, lo, hi, mk = rng
        for y in inner(mk(of(v)), ONE):
            if isinstance(y, tuple) and y and y[0] == "cond":
                out.append(("forseg", v, lo, hi, y[1], y[2]))
            else:
                out.append(("forseg", v, lo, hi, ONE, y))
        return out

    def e_Call(self, n):
        r = self.e_Call1(n)
        return self.box(r) if self.boxsize else r

    def e_Call1(self, n):
        f = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                try:
                    args.extend(self.iterate(v))
                except Opaque:
                    args.append(("star", v))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, LDict):
                    for kk, vv in self.heap[v.id].items():
                        kw[kk] = vv
                elif isinstance(v, Poly):
                    kw["**"] = v
                else:
                    raise Opaque("** of opaque")
            else:
                kw[k.arg] = v
        self.stats["calls"] += 1
        return self.call(f, args, kw, n)

    # ------------------------------------------------------------------ calls
    def bindargs(self, fn, args, kw):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        out = {}
        kw = dict(kw)
        args = list(args)
        if "**" in kw and not a.kwarg:
            raise Opaque("opaque **kwargs")
        for name in pos:
            if args:
                out[name] = args.pop(0)
                if name in kw:
                    raise InterpRaise("TypeError", "duplicate argument %s" % name)
            elif name in kw:
                out[name] = kw.pop(name)
        if args:
            if a.vararg:
                out[a.vararg.arg] = tuple(args)
            else:
                raise InterpRaise("TypeError", "too many positional arguments for %s" % fn.qual)
        elif a.vararg:
            out[a.vararg.arg] = ()
        nd = len(fn.defaults)
        for name, d in zip(pos[len(pos) - nd:], fn.defaults):
            out.setdefault(name, d)
        for x in a.kwonlyargs:
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif x.arg in fn.kwdefaults:
                out[x.arg] = fn.kwdefaults[x.arg]
            else:
                raise InterpRaise("TypeError", "missing %s" % x.arg)
        if a.kwarg:
            out[a.kwarg.arg] = self.mkdict(kw)
        elif kw:
            raise InterpRaise("TypeError", "unexpected keyword %s for %s" % (sorted(kw), fn.qual))
        for name in pos:
            if name not in out:
                if any(isinstance(x, tuple) and len(x) == 2 and x[0] == "star" for x in args):
                    raise Opaque("arguments of unknown number")
                raise InterpRaise("TypeError", "missing argument %s of %s" % (name, fn.qual))
        return out

    def call(self, f, args, kw, n=None):
        if isinstance(f, Gate):
            # effects inside both alternatives: only numeric results supported
            snap = self.snapshot()
            a = self.call(f.a, args, kw, n)
            s1 = self.snapshot()
            self.restore(snap)
            b = self.call(f.b, args, kw, n)
            s2 = self.snapshot()
            self.merge(f.c, s1, s2)
            return self.merge_val(f.c, a, b)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, n)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw, n)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k, n)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, n)
        if isinstance(f, NTCls):
            vals = list(args)
            for fld in f.fields[len(vals):]:
                if fld not in kw:
                    raise InterpRaise("TypeError", "missing field %s of %s" % (fld, f.name))
                vals.append(kw[fld])
            if len(vals) != len(f.fields):
                raise InterpRaise("TypeError", "too many fields for %s" % f.name)
            return NT(f, vals)
        return self.M.call_value(self, f, args, kw, n)

    def instantiate(self, c, args, kw, n):
        o = Inst(c)
        self.heap[o.id] = {}
        init = self.cls_lookup(c, "__init__")
        if isinstance(init, Func):
            self.call(init, [o] + list(args), kw, n)
        else:
            self.heap[o.id] = {"$args": tuple(args)}
            if self.M.is_template(c) and len(args) == 1 and not kw:
                self.heap[o.id]["template"] = args[0]
        exc = [b for b in c.bases if isinstance(b, Ext)]
        return o

    def call_func(self, f, args, kw, n=None):
        key = "%s.%s" % (getattr(f.module, "name", "?"), f.qual)
        if key in self.funcmodels:
            r = self.funcmodels[key](self, f, args, kw, n)
            if r is not NotImplemented:
                return r
        if f in self.overloads and "stub" in f.flags:
            f = self.overloads[f]
        if "gen" in f.flags:
            impl = self.invoke(f, args, kw, n)
            if isinstance(impl, (Func, Gate)):
                # numba binds positionally by the generator's signature
                b = self.bindargs(f, args, kw)
                a = f.node.args
                names = [x.arg for x in a.args]
                if isinstance(impl, Func):
                    return self.invoke(impl, [b[x] for x in names], {}, n)
                return self.call(impl, [b[x] for x in names], {}, n)
            raise Opaque("generator %s did not yield a function" % f.qual)
        return self.invoke(f, args, kw, n)

    def invoke(self, f, args, kw, n=None):
        if self.depth > self.maxdepth:
            raise Opaque("recursion in %s" % f.qual)
        b = self.bindargs(f, args, kw)
        env = Env(f.env)
        env.d.update(b)
        fr = Frame(f, env, f.module)
        fr.outer = self.full_pc() if self.frames else ONE
        if getattr(f.module, "path", None) and not self.dry:
            self.covered.add("%s:%s" % (os.path.relpath(f.module.path, self.root)
                                        if f.module.path.startswith(self.root) else f.module.path, f.qual))
        gen = self.has_yield(f.node)
        if gen:
            fr.yields = []
            snap = self.snapshot()
        self.frames.append(fr)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            try:
                live = self.block(f.node.body)
            except Opaque:
                if not gen:
                    raise
                fr.yields = None
                live = ONE
        finally:
            self.depth -= 1
            self.frames.pop()
        if gen:
            if fr.yields is not None:
                return self.mklist(fr.yields)
            self.restore(snap)
            return of(atom("generator", (self.termify(f),) + tuple(self.termify(a) for a in args), "?"))
        rets = list(fr.rets)
        if live is not ZERO:
            rets.append((live, None))
        if not rets:
            raise InterpRaise("Exception", "no path returns from %s" % f.qual)
        r = rets[-1][1]
        for g, v in reversed(rets[:-1]):
            r = self.merge_val(g, v, r)
        return self.boxed(r)

    def box(self, r):
        if isinstance(r, Poly) and len(r.terms) > self.boxsize and r.kind in "ifc" and (self.dry or not (r.heads & CARRIED)):
            return of(atom("let", (r,), r.kind))
        if type(r) is tuple:
            return tuple(self.box(x) for x in r)
        return r

    def boxed(self, r):
        """hide the expansion of large data-dependent results"""
        if isinstance(r, Poly) and len(r.terms) > 1 and ("last" in r.heads or "rec" in r.heads) and r.kind in "ifc" \
                and sum(len(m) for m, _ in r.terms) > 6:
            return of(atom("poly", (r,), r.kind))
        if isinstance(r, tuple) and type(r) is tuple:
            return tuple(self.boxed(x) for x in r)
        return r

    _yield = {}

    def has_yield(self, node):
        k = id(node)
        if k not in self._yield:
            r = False
            stack = list(getattr(node, "body", [])) if not isinstance(node, ast.Lambda) else []
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                stack.extend(ast.iter_child_nodes(x))
            self._yield[k] = (r, node)
        return self._yield[k][0]

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, NT):
            return list(v.vals)
        if isinstance(v, LList):
            items = self.heap[v.id]
            if any(isinstance(x, tuple) and x and x[0] in ("cond", "forseg") for x in items):
                raise Opaque("iteration over symbolic list")
            return list(items)
        if isinstance(v, LSet):
            return list(v.items)
        if isinstance(v, LDict):
            return [self.unkey(k) for k in self.heap[v.id]]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, self.M.Range):
            lo, hi, st = const_of(v.lo), const_of(v.hi), const_of(v.step)
            if None not in (lo, hi, st):
                r = range(int(lo), int(hi), int(st))
                if len(r) <= MAXUNROLL:
                    return [num(i) for i in r]
            raise Opaque("symbolic range")
        if isinstance(v, self.M.Lazy):
            r = v.concrete(self)
            if r is not None:
                return r
        if isinstance(v, (Arr, View)):
            c = const_of(v.shape[0]) if v.ndim else None
            if c is not None and c <= MAXUNROLL:
                return [self.getitem(v, (num(i),), None) for i in range(int(c))]
        raise Opaque("iteration over %s" % (type(v).__name__,))

    def sym_iter(self, v):
        """None if concrete; else (var, lo, hi, make(iv)->value)"""
        try:
            self.iterate(v)
            return None
        except Opaque:
            pass
        M = self.M
        if isinstance(v, M.Range):
            st = const_of(v.step)
            x = fresh("i")
            if st == 1:
                T.set_range(x, v.lo, v.hi)
                return x, v.lo, v.hi, lambda i: i
            if st == -1:
                # i runs hi+1..lo inclusive
                lo, hi = add(v.hi, ONE), add(v.lo, ONE)
                T.set_range(x, lo, hi)
                return x, lo, hi, lambda i: add(add(lo, hi), neg(add(i, ONE)))
            n = T.floordiv(add(add(v.hi, neg(v.lo)), add(v.step, num(-1))), v.step)
            T.set_range(x, ZERO, n)
            return x, ZERO, n, lambda i: add(v.lo, mul(i, v.step))
        if isinstance(v, (Arr, View)):
            x = fresh("i")
            T.set_range(x, ZERO, v.shape[0])
            return x, ZERO, v.shape[0], lambda i: self.getitem(v, (i,), None)
        if isinstance(v, M.Lazy):
            return v.symbolic(self)
        if isinstance(v, Poly):
            x = fresh("i")
            n = of(atom("len", (v,), "i"))
            T.set_range(x, ZERO, n)
            return x, ZERO, n, lambda i: M.item(self, v, (i,))
        if isinstance(v, LList):
            items = self.heap[v.id]
            if len(items) == 1 and items[0][0] == "forseg" and items[0][4] is ONE:
                _, q, lo, hi, g, val = items[0]
                x = fresh("i")
                T.set_range(x, lo, hi)
                if isinstance(val, Poly):
                    return x, lo, hi, lambda i: subst(val, {q: i})
                if isinstance(val, str):
                    return x, lo, hi, lambda i: val
            x = fresh("i")
            tv = self.termify(v)
            n = of(atom("len", (tv,), "i"))
            T.set_range(x, ZERO, n)
            return x, ZERO, n, lambda i: of(atom("item", (tv, i), "?"))
        raise Opaque("iteration over %s" % type(v).__name__)

    def s_For(self, s):
        it = self.ev(s.iter)
        r = self.sym_iter(it)
        if r is None:
            return self.unrolled(s, self.iterate(it))
        v, lo, hi, mk = r
        cl, ch = const_of(lo), const_of(hi)
        if cl is not None and ch is not None and ch - cl <= MAXUNROLL:
            return self.unrolled(s, [mk(num(k)) for k in range(int(cl), int(ch))])
        return self.symloop(s, v, lo, hi, lambda: self.assign(s.target, mk(of(v))), s.body, None)

    def unrolled(self, s, items):
        L = LoopCtx()
        L.sym = False
        fr = self.fr
        fr.loops.append(L)
        nb = False
        acc = ONE       # not broken/returned so far (relative)
        try:
            for x in items:
                if acc is not ONE:
                    snap = self.snapshot()
                    old = fr.pc
                    fr.pc = mul(old, acc)
                else:
                    snap = None
                L.brk = ZERO
                n0 = len(L.rets)
                self.assign(s.target, x)
                try:
                    self.block(s.body)
                finally:
                    if snap is not None:
                        fr.pc = old
                if snap is not None:
                    self.merge(acc, self.snapshot(), snap)
                out = L.brk
                for g, _ in L.rets[n0:]:
                    out = add(out, g)
                if out is not ZERO:
                    # guards are absolute within the function; make them relative
                    base = fr.pc
                    acc = mul(acc, lnot(self.relative(out, base)))
                    if acc is ZERO:
                        break
        finally:
            fr.loops.pop()
        live = ONE
        for g, val in L.rets:
            if fr.loops:
                fr.loops[-1].rets.append((g, val))
            else:
                fr.rets.append((g, val))
            live = mul(live, lnot(self.relative(g, fr.pc)))
        return live

    def relative(self, g, pc):
        """g = pc*c ; return c (best effort: drop indicator factors of pc)"""
        if pc is ONE:
            return g
        if g is pc:
            return ONE
        return g

    def assigned(self, stmts):
        out = set()
        stack = list(stmts)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                if not isinstance(x, ast.Lambda):
                    out.add(x.name)
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            stack.extend(ast.iter_child_nodes(x))
        return out

    def placeholder(self, lid, name, init, kinds):
        if name in kinds.get("$unknown", ()):
            return T.opaque("carried", name)
        if isinstance(init, Poly):
            k = kinds.get(name) or (init.kind if init.kind != "b" else "b")
            return of(atom("prev", (lid, name), k))
        if isinstance(init, tuple) and init and all(isinstance(x, Poly) for x in init):
            return tuple(self.placeholder(lid, "%s.%d" % (name, i), x, kinds) for i, x in enumerate(init))
        return init

    def concrete_while(self, s):
        """unroll a while loop whose test is decided by constants; None if it is not"""
        fr = self.fr
        entry, ne, nr = self.snapshot(), len(self.events), len(self.raises)
        L = LoopCtx()
        L.sym = False
        fr.loops.append(L)
        ok, k, live = False, 0, ONE
        try:
            while k <= MAXUNROLL:
                c = const_of(self.truth(self.ev(s.test)))
                if c is None:
                    break
                if not c:
                    ok = True
                    break
                k += 1
                L.brk = ZERO
                self.block(s.body)
                if L.rets:
                    if len(L.rets) == 1 and self.relative(L.rets[0][0], fr.pc) is ONE:
                        ok, live = True, ZERO
                    break
                if L.brk is not ZERO:
                    ok = self.relative(L.brk, fr.pc) is ONE
                    break
        except Opaque:
            ok = False
        finally:
            fr.loops.pop()
        if not ok:
            self.restore(entry)
            del self.events[ne:]
            del self.raises[nr:]
            return None
        for g, val in L.rets:
            (fr.loops[-1].rets if fr.loops else fr.rets).append((g, val))
        return live

    def bounded_while(self, s):
        """while <unknown> and <counter within a constant bound>: unrolled as nested conditionals; None if no constant bound shows"""
        if not isinstance(s.test, ast.BoolOp) or not isinstance(s.test.op, ast.And) or s.orelse or self.dry:
            return None
        for x in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(x, (ast.Break, ast.Continue, ast.Return)):
                return None
        entry, ne, nr = self.snapshot(), len(self.events), len(self.raises)
        try:
            if not any(const_of(self.truth(self.ev(t))) for t in s.test.values):
                self.restore(entry)
                return None
            return self.s_Unroll(Unroll(s, 0))
        except (Opaque, UnrollLimit, TooBig):
            self.restore(entry)
            del self.events[ne:]
            del self.raises[nr:]
            return None

    def s_Unroll(self, u):
        if u.k > 6:
            raise UnrollLimit()
        return self.s_If(ast.If(test=u.loop.test, body=list(u.loop.body) + [Unroll(u.loop, u.k + 1)], orelse=[]))

    def s_CellWrite(self, s):
        d = self.fr.env.d
        v = d.get(s.name, UNDEF)
        if v is s.cell:
            return ONE
        if not isinstance(v, (Arr, View)):
            raise Opaque("carried array replaced by something else")

        def refers(x):
            return x is s.cell or isinstance(x, View) and x.arr is s.cell or isinstance(x, (tuple, list)) and any(refers(y) for y in x)
        if any(refers(x) for k, x in d.items() if k != s.name) or any(refers(x) for x in self.heap.values() if isinstance(x, tuple)):
            raise Opaque("carried array has another name")
        self.store_all(s.cell, "set", v, s)
        d[s.name] = s.cell
        return ONE

    def cells(self, names, init, end, body, s):
        """carried names that an iteration rebinds to another array of the same shape"""
        if any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in body for x in ast.walk(b)):
            return {}
        out = {}
        for k in names:
            a, b = init[k], end.get(k, UNDEF)
            if isinstance(a, (Arr, View)) and isinstance(b, (Arr, View)) and not self.same(a, b):
                sa_, sb = self.shape_list(a), self.shape_list(b)
                if len(sa_) == len(sb) and all(x == y for x, y in zip(sa_, sb)):
                    out[k] = (sa_, b)
        return out

    def at_last(self, f, idx, lastv):
        ix, back = [], {}
        for p in idx:
            if any(q in p.fv for q in lastv):       # an index that mentions the loop variable is not to be rewritten
                y = fresh("ix")
                back[y] = p
                p = of(y)
            ix.append(p)
        return subst(subst(f(ix), lastv), back)

    def shape_list(self, a):
        return list(a.shape) if isinstance(a, Arr) else list(a.lens)

    def s_While(self, s):
        r = self.concrete_while(s)
        if r is not None:
            return r
        r = self.bounded_while(s)
        if r is not None:
            return r
        v = fresh("w")
        hi = of(atom("var", (newid(), "nn", "N"), "i"))
        return self.symloop(s, v, ZERO, hi, lambda: None, s.body, s.test)

    def symloop(self, s, v, lo, hi, setup, body, test, kinds=None):
        fr = self.fr
        fr.symloops += 1
        self.stats["loops"] += 1
        names = self.assigned(body)
        if isinstance(s, ast.For):
            names |= self.assigned([s.target])
        carried = [k for k in sorted(names) if k in fr.env.d and fr.env.d[k] is not UNDEF]
        if isinstance(s, ast.For):
            tn = self.assigned([s.target])
            carried = [k for k in carried if k not in tn]
        kinds = dict(kinds or {})
        for k in carried:
            x = fr.env.d[k]
            if isinstance(x, Arr) and x.shape == () and getattr(x, "name", None) == "scalar":
                fr.env.d[k] = self.read(x, ())
        init = {k: fr.env.d[k] for k in carried}
        lid = newid()
        entry = self.snapshot()
        # ---- dry pass: which heap objects are written
        savedmod = self.modified
        self.modified = set()
        self.dry += 1
        L = LoopCtx()
        fr.loops.append(L)
        oldpc = fr.pc
        nrs = len(self.raises)
        try:
            for k in carried:
                fr.env.d[k] = self.placeholder(lid, k, init[k], kinds)
            setup()
            if test is not None:
                self.truth(self.ev(test))
            if self.dry > 1:
                # inside somebody else's dry pass: one abstract pass is enough
                self.block(body)
                mod = set(self.modified)
                savedmod |= mod
                del self.raises[nrs:]
                end = self.snapshot()
                self.restore(entry)
                for k in names:
                    ev = end[0].get(k, UNDEF)
                    if k in fr.env.d or ev is not UNDEF:
                        fr.env.d[k] = T.opaque("dry", lid, k) if isinstance(ev, Poly) else ev
                for k, c in end[1].items():
                    if k not in self.heap or k in mod:
                        self.heap[k] = c
                return ONE
            self.block(body)
            mod = set(self.modified)
        finally:
            self.dry -= 1
            fr.loops.pop()
            fr.pc = oldpc
            self.modified = savedmod
        del self.raises[nrs:]
        self.restore(entry)
        self.modified |= mod
        # ---- real pass
        pre = {}
        for k in mod:
            c = self.heap.get(k)
            if isinstance(c, Content):
                a = self.arr_by_id(k)
                pre[k] = c
                self.heap[k] = Content(("prev", lid, self.arr_kind(k, c)))
            elif c is not None:
                pre[k] = c
        for k in carried:
            fr.env.d[k] = self.placeholder(lid, k, init[k], kinds)
        ph = {k: fr.env.d[k] for k in carried}
        L = LoopCtx()
        fr.loops.append(L)
        oldpc = fr.pc
        fr.pc = ONE
        oldouter = fr.outer
        fr.outer = mul(oldouter, oldpc)
        nr = len(self.raises)
        try:
            setup()
            cond = ONE
            if test is not None:
                cond = self.truth(self.ev(test))
                fr.pc = ONE
            try:
                self.block(body)
            except InterpRaise as e:
                self.notes.append("loop body always raises %s at %s" % (e.exc, self.where(s)))
                raise Opaque("loop body raises")
        finally:
            fr.loops.pop()
            fr.pc = oldpc
            fr.outer = oldouter
        end = self.snapshot()
        # kind widening
        wid = {}
        for k in carried:
            for nm, p, e in self.flat(k, ph[k], end[0].get(k)):
                if isinstance(p, Poly) and isinstance(e, Poly) and p is not e:
                    pk, ek = p.kind, e.kind
                    order = "bifc"
                    if pk in order and ek in order and order.index(ek) > order.index(pk):
                        wid[nm] = ek
                    elif pk in order and ek == "?" and pk != "?":
                        wid[nm] = "?"
        if wid and (len(kinds) < 40) and any(kinds.get(a) != b for a, b in wid.items()):
            kinds.update(wid)
            del self.raises[nr:]
            self.restore(entry)
            # undo the placeholder contents
            return self.symloop(s, v, lo, hi, setup, body, test, kinds)
        # ---- flatten carried scalars
        sysv = {}         # placeholder atom -> (init Poly, end Poly)
        shape = {}
        bad = []
        for k in carried:
            e = end[0].get(k, UNDEF)
            fl = self.flat(k, ph[k], e)
            ini = self.flat(k, ph[k], init[k])
            ok = True
            for (nm, p, x), (_, _, i0) in zip(fl, ini):
                if isinstance(p, Poly) and isinstance(x, Poly) and isinstance(i0, Poly):
                    pa = p.terms[0][0][0][0]
                    sysv[pa] = (i0, x)
                else:
                    ok = False
            if not ok and not (isinstance(init[k], (Arr, View, Func, str)) and self.same(init[k], e)):
                bad.append(k)
        cells = self.cells([k for k in bad if k not in kinds.get("$unknown", ())], init, end[0], body, s)
        if cells:
            del self.raises[nr:]
            self.restore(entry)
            body = list(body)
            for k, (shp, b) in cells.items():
                f = self.frozen(init[k])
                fr.env.d[k] = c = self.lazy_array("carried", shp, (b.arr if isinstance(b, View) else b).dtype, f)
                body.append(CellWrite(k, c, s))
            return self.symloop(s, v, lo, hi, setup, body, test, kinds)
        if any(k not in kinds.get("$unknown", ()) for k in bad):
            # neither a recurrence nor unchanged: what an iteration finds in it is unknown
            kinds["$unknown"] = set(bad) | set(kinds.get("$unknown", ()))
            del self.raises[nr:]
            self.restore(entry)
            return self.symloop(s, v, lo, hi, setup, body, test, kinds)
        brk = L.brk
        retv = list(L.rets)
        final_extra = None
        if brk is not ZERO or retv:
            pb = atom("prev", (lid, "$brk"), "b")
            b = of(pb)
            allx = brk
            for g, _ in retv:
                allx = add(allx, g)
            for pa, (i0, x) in list(sysv.items()):
                sysv[pa] = (i0, sel(b, of(pa), x))
            sysv[pb] = (ZERO, add(b, mul(lnot(b), allx)))
            if retv:
                pr = atom("prev", (lid, "$rf"), "b")
                g = ZERO
                for gg, _ in retv:
                    g = add(g, gg)
                sysv[pr] = (ZERO, add(of(pr), mul(lnot(b), g)))
                if all(isinstance(x, Poly) for _, x in retv):
                    pv = atom("prev", (lid, "$rv"), "?")
                    val = of(pv)
                    for gg, x in retv:
                        val = sel(mul(lnot(b), gg), x, val)
                    sysv[pv] = (ZERO, val)
            guard_all = lnot(b)
        else:
            guard_all = ONE
        # ---- while loops: find a counter that turns the loop into a range
        if test is not None:
            r = self.while_range(sysv, cond, v, guard_all)
            if r is not None:
                hi_new = r
                mphi = {hi.terms[0][0][0][0]: hi_new}
                hi = hi_new
            else:
                hi = of(self.rec_atom("wcount", sysv, None, v, ZERO, cond))
            T.set_range(v, lo, hi)
        hasprev = lambda p: any(x.head == "prevel" and x.args[0] == lid for x in p.fv)
        general = any(hasprev(x) for _, x in sysv.values()) or test is not None and (hasprev(cond) or hasprev(hi))
        at, fin = self.solve(sysv, v, lo, hi)
        # ---- effects
        S = Subst(at)
        new = {}
        for k in pre:
            if isinstance(pre[k], Content):
                c = end[1][k]
                effs = [e.with_guard(guard_all) if guard_all is not ONE else e for e in c.effects]
                effs = [e.map(S) for e in effs]
                new[k] = self.collapse(k, effs, v) if c.base[0] == "prev" and c.base[1] == lid else None
            else:
                if end[1].get(k) is not pre[k]:
                    new[k] = ("heapobj", pre[k], end[1].get(k))
        # resolve reads of earlier contents
        effmap = {k: e for k, e in new.items() if isinstance(e, list)}
        general = general or any(e is None for e in new.values())
        if not general:
            effmap, resolve = self.resolve_prev(lid, effmap, pre, v, lo, hi)
            general = any(hasprev(x) for es in effmap.values() for e in es for x in (e.guard, e.val) + tuple(e.idx)) or \
                any(hasprev(resolve(x)) for x in fin.values()) or any(hasprev(resolve(S(g))) for g, _, _ in self.raises[nr:])
        if general:
            sysm = self.array_system(lid, sysv, pre, end[1], v, lo, guard_all)
            if sysm is not None:
                if test is not None and r is None:
                    hi = sysm.count(cond)
                    T.set_range(v, lo, hi)
                at = {pa: sysm.scalar(pa, of(v)) for pa in sysv}
                fin = {pa: sysm.scalar(pa, hi) for pa in sysv}
                S = Subst(at)
                resolve = sysm.resolver(of(v), S)
                effmap = {}
                for k in pre:
                    if isinstance(pre[k], Content):
                        new[k] = sysm.final(k, hi)
            else:
                effmap, resolve = self.resolve_prev(lid, {k: e for k, e in new.items() if isinstance(e, list)}, pre, v, lo, hi)
        # ---- rebuild state
        self.heap.clear()
        self.heap.update(entry[1])
        for k, c in end[1].items():
            if k not in entry[1]:
                self.heap[k] = self.subst_heap(c, S, resolve)
        for k, e in new.items():
            if isinstance(e, Content):
                self.heap[k] = e
            elif isinstance(e, list):
                qe = [Effect(((v, lo, hi),) + x.quants, x.guard, x.idx, x.op, x.val, x.site) for x in effmap[k]]
                self.heap[k] = Content(pre[k].base, pre[k].effects + tuple(qe))
            elif isinstance(e, tuple) and e[0] == "heapobj":
                self.heap[k] = self.loop_heapobj(e[1], e[2], v, lo, hi, S, resolve, guard_all)
            elif e is None:
                self.heap[k] = Content(("opq", "loop%d" % k, "?"))
        fr.env.d.clear()
        fr.env.d.update(entry[0])
        lastv = {v: add(hi, num(-1))}
        for k in names:
            e = end[0].get(k, UNDEF)
            if k in carried and k not in bad:
                fr.env.d[k] = self.unflat(k, ph[k], fin, init[k], resolve)
            elif e is not UNDEF:
                x = self.map_val(e, lambda p: resolve(S(p)))
                x = self.map_val(x, lambda p: subst(p, lastv))
                if isinstance(x, (Arr, View)) and (x.arr if isinstance(x, View) else x).id not in entry[1]:
                    # made in the loop: what is left is the last iteration's
                    f = self.frozen(x)
                    x = self.lazy_array("last", [subst(p, lastv) for p in self.shape_list(x)], (x.arr if isinstance(x, View) else x).dtype,
                                        lambda idx, f=f: self.at_last(f, idx, lastv))
                if k in bad:
                    x = Gate(of(atom("nonempty", (lo, hi), "b")), x, init[k]) if not isinstance(x, Poly) else \
                        T.opaque("carried", k)
                fr.env.d[k] = x
        # raises inside the loop: quantify
        for i in range(nr, len(self.raises)):
            g, exc, w = self.raises[i]
            try:
                g = resolve(S(mul(guard_all, g)))
                if v in g.fv:
                    v2 = fresh("r")
                    T.set_range(v2, lo, hi)
                    g = lnot(T.eq0(T.mk_sum(v2, lo, hi, subst(g, {v: of(v2)}))))
                else:
                    g = mul(g, cmp("<", lo, hi))
            except TooBig:
                g = T.opaque("raises", w)
            self.raises[i] = (g, exc, w)
        if retv:
            pr = atom("prev", (lid, "$rf"), "b")
            rf = resolve(fin[pr])
            pv = atom("prev", (lid, "$rv"), "?")
            val = resolve(fin[pv]) if pv in fin else T.opaque("loopreturn")
            g = mul(fr.pc, rf)
            if fr.loops:
                fr.loops[-1].rets.append((g, val))
            else:
                fr.rets.append((g, val))
            if rf is ZERO:
                return ONE
            return lnot(rf)
        return ONE

    def flat(self, k, p, e):
        if isinstance(p, tuple):
            if not isinstance(e, tuple) or len(e) != len(p):
                return [(k, p, None)]
            out = []
            for i, (a, b) in enumerate(zip(p, e)):
                out += self.flat("%s.%d" % (k, i), a, b)
            return out
        return [(k, p, e)]

    def unflat(self, k, p, fin, init, resolve):
        if isinstance(p, tuple):
            return tuple(self.unflat("%s.%d" % (k, i), a, fin, b, resolve)
                         for i, (a, b) in enumerate(zip(p, init)))
        if isinstance(p, Poly):
            a = p.terms[0][0][0][0] if p.terms and p.terms[0][0] else None
            if a in fin:
                return resolve(fin[a])
        return init

    def map_val(self, v, f):
        if isinstance(v, Poly):
            return f(v)
        if isinstance(v, tuple):
            return tuple(self.map_val(x, f) for x in v)
        if isinstance(v, View):
            return View(v.arr, [f(x) if isinstance(x, Poly) else ("ax", f(x[1]), f(x[2])) for x in v.spec],
                        v.axes, [f(x) for x in v.lens])
        if isinstance(v, Gate):
            return Gate(f(v.c), self.map_val(v.a, f), self.map_val(v.b, f))
        if isinstance(v, NT):
            return NT(v.cls, [self.map_val(x, f) for x in v.vals])
        return v

    def subst_heap(self, c, S, resolve):
        if isinstance(c, Content):
            base = c.base
            if base[0] == "fn":
                f = base[1]
                base = ("fn", lambda idx: resolve(S(f(idx))))
            elif base[0] == "c":
                base = ("c", resolve(S(base[1])))
            return Content(base, [e.map(lambda p: resolve(S(p))) for e in c.effects])
        if isinstance(c, tuple):
            return tuple(self.map_val(x, lambda p: resolve(S(p))) for x in c)
        if isinstance(c, dict):
            return {k: self.map_val(x, lambda p: resolve(S(p))) for k, x in c.items()}
        return c

    def loop_heapobj(self, before, after, v, lo, hi, S, resolve, guard):
        if isinstance(before, tuple) and isinstance(after, tuple) and len(after) >= len(before) and \
                all(self.same(a, b) or a is b for a, b in zip(before, after)):
            out = list(before)
            for x in after[len(before):]:
                g = guard
                if isinstance(x, tuple) and x and x[0] == "cond":
                    g = mul(g, x[1])
                    x = x[2]
                f = lambda p: resolve(S(p))
                out.append(("forseg", v, lo, hi, f(g), self.map_val(x, f)))
            return tuple(out)
        if isinstance(after, dict):
            out = dict(before) if isinstance(before, dict) else {}
            for k, x in after.items():
                if k in out and self.same(out[k], x):
                    continue
                out[k] = T.opaque("loopdict", str(k))
            return out
        raise Opaque("heap object rewritten in loop")

    def arr_by_id(self, k):
        return None

    def arr_kind(self, k, c):
        b = c.base
        if b[0] == "in":
            return b[2]
        if b[0] == "prev":
            return b[2]
        kd = None
        if b[0] == "c":
            kd = b[1].kind
        if b[0] == "fn":
            return "?"
        ks = [e.val.kind for e in c.effects] + ([kd] if kd else [])
        kk = self.akinds.get(k)
        if kk:
            return kk
        if not ks:
            return "?"
        if "?" in ks:
            return "?"
        m = max(ks, key="bifc".index)
        return m

    akinds = {}

    def collapse(self, k, effs, v):
        """effects of one iteration on one array, made safe to quantify over v;
        None when the interleaving cannot be expressed"""
        effs = [e for e in effs if e.guard is not ZERO]
        # sum out quantifiers an addition's target does not depend on
        norm = []
        for e in effs:
            if e.op == "add" and e.quants:
                ifv = set()
                for p in e.idx:
                    ifv |= p.fv
                qs = list(e.quants)
                val = mul(e.guard, e.val)
                keep = []
                while qs:
                    q, lo, hi = qs.pop()
                    if q in ifv or any(q in l2.fv or q in h2.fv for _, l2, h2 in keep):
                        keep.append((q, lo, hi))
                    else:
                        val = T.mk_sum(q, lo, hi, val)
                g = ONE if len(keep) < len(e.quants) else e.guard
                if len(keep) < len(e.quants):
                    e = Effect(list(reversed(keep)), ONE, e.idx, "add", val, e.site)
            norm.append(e)
        effs = norm
        if len(effs) <= 1 or all(e.op == "add" for e in effs):
            return effs
        # group by identical target pattern
        groups = []
        for e in effs:
            for g in groups:
                e2 = self.renamed(e, g[0])
                if e2 is not None:
                    g.append(e2)
                    break
            else:
                groups.append([e])
        out = []
        for g in groups:
            out.append(self.compose(k, g))
        # targets of different groups must be disjoint (or everything owned by v)
        flatl = [e for g in out for e in g]
        if len(flatl) == 1 or all(e.op == "add" for e in flatl):
            return flatl
        if self.disjoint_groups(out):
            ok = all(len(g) == 1 for g in out)
            if ok:
                return flatl
        ow = [self.owned(e, v) for e in flatl]
        if all(o is not None for o in ow) and all(o == ow[0] for o in ow):
            # program order inside the iteration is kept
            return effs
        if self.exclusive(flatl) and all(not e.quants for e in flatl) and all(e.op == "set" for e in flatl):
            return None
        return None

    def renamed(self, e, g):
        """e with its quantified variables named as in g, if both then write the same elements"""
        if e.idx == g.idx and e.quants == g.quants:
            return e
        if len(e.quants) != len(g.quants):
            return None
        mp = {q: of(q2) for (q, _, _), (q2, _, _) in zip(e.quants, g.quants)}
        f = lambda p: subst(p, mp)
        if any(f(l) != l2 or f(h) != h2 for (_, l, h), (_, l2, h2) in zip(e.quants, g.quants)) or \
                len(e.idx) != len(g.idx) or any(f(x) != y for x, y in zip(e.idx, g.idx)):
            return None
        return Effect(g.quants, f(e.guard), g.idx, e.op, f(e.val), e.site)

    def owned(self, e, v):
        qs = {q for q, _, _ in e.quants}
        for d, p in enumerate(e.idx):
            co = [c for m, c in p.terms if len(m) == 1 and m[0][0] is v and m[0][1] == 1]
            if co and abs(co[0]) == 1:
                rest = add(p, T.scale(of(v), -co[0]))
                if v not in rest.fv and not (rest.fv & qs):
                    return d, rest, co[0]
        return None

    def disjoint_groups(self, groups):
        for i in range(len(groups)):
            for j in range(i):
                a, b = groups[i][0], groups[j][0]
                if not any(const_of(add(x, neg(y))) not in (None, 0) for x, y in zip(a.idx, b.idx)):
                    return False
        return True

    def compose(self, k, g):
        if len(g) == 1 or all(e.op == "add" for e in g):
            if len(g) > 1:
                val = ZERO
                for e in g:
                    val = add(val, mul(e.guard, e.val))
                return [Effect(g[0].quants, ONE, g[0].idx, "add", val, g[0].site)]
            return g
        idx = g[0].idx
        pa = of(atom("prevel", ("self", k) + tuple(idx), "?"))
        at = pa.terms[0][0][0][0]
        cur = pa
        wr = ZERO          # condition under which the cell was overwritten
        for e in g:
            if e.op == "set":
                cur = sel(e.guard, e.val, cur)
                wr = T.lor(wr, e.guard)
            else:
                cur = add(cur, mul(e.guard, e.val))
        if at not in cur.fv:
            return [Effect(g[0].quants, ONE, idx, "set", cur, g[0].site)]
        # cur = (1-wr)*pa + rest
        rest = add(cur, neg(mul(lnot(wr), pa)))
        if at in rest.fv:
            return g
        # where overwritten: value rest ; elsewhere: addition of rest
        inc = mul(lnot(wr), rest)
        out = [Effect(g[0].quants, wr, idx, "set", self.simplify_under(rest, wr), g[0].site)]
        if inc is not ZERO:
            out.append(Effect(g[0].quants, ONE, idx, "add", inc, g[0].site))
        return out

    def simplify_under(self, p, cond):
        if cond is ONE:
            return p
        bs = T.bool_atoms(cond)
        if len(bs) == 1 and of(min(bs)) is cond:
            return T.cofactor(p, min(bs), 1)
        if len(bs) == 1 and lnot(of(min(bs))) is cond:
            return T.cofactor(p, min(bs), 0)
        return p

    def exclusive(self, effs):
        for i in range(len(effs)):
            for j in range(i):
                if mul(effs[i].guard, effs[j].guard) is not ZERO:
                    return False
        return True

    def resolve_prev(self, lid, effmap, pre, v, lo, hi):
        """replace prevel(lid, arr, idx) atoms by reads of the contents built by
        earlier iterations, where that read is closed"""
        cache = {}
        arrs = {}

        def find(p):
            out = set()
            for x in p.fv:
                if x.head == "prevel" and x.args[0] == lid:
                    out.add(x)
            return out

        def earlier(k, atv):
            v2 = fresh("p")
            T.set_range(v2, lo, atv)
            mp = {v: of(v2)}
            es = []
            for e in effmap.get(k, ()):
                e2 = e.map(lambda p: subst(p, mp))
                es.append(Effect(((v2, lo, atv),) + e2.quants, e2.guard, e2.idx, e2.op, e2.val, e2.site))
            return Content(pre[k].base, pre[k].effects + tuple(es))

        def res_atom(a):
            if a in cache:
                return cache[a]
            cache[a] = of(a)       # cycle guard
            k = a.args[1]
            if k not in effmap or effmap[k] is None or not isinstance(pre.get(k), Content):
                return of(a)
            arr = DummyArr(k, self.shapes.get(k, ()))
            try:
                r = self.read_content(arr, earlier(k, of(v)), a.args[2:])
            except (Opaque, TooBig):
                return of(a)
            left = find(r)
            if left:
                mp = {}
                for b in left:
                    mp[b] = res_atom(b) if b is not a else of(b)
                r2 = subst(r, {b: x for b, x in mp.items() if x is not of(b)})
                if find(r2):
                    return of(a)
                r = r2
            cache[a] = r
            return r

        def resolve(p):
            bs = find(p)
            if not bs:
                return p
            mp = {b: res_atom(b) for b in bs}
            mp = {b: x for b, x in mp.items() if x is not of(b)}
            return subst(p, mp) if mp else p
        out = {}
        for k, es in effmap.items():
            out[k] = [e.map(resolve) for e in es] if es is not None else None
        return out, resolve

    shapes = {}

    # ------------------------------------------------------------------ recurrences
    def while_range(self, sysv, cond, v, guard_all):
        if guard_all is not ONE:
            return None
        phs = set(sysv)
        for m, c in cond.terms:
            pass
        if len(cond.terms) == 1 and cond.terms[0][1] == 1 and len(cond.terms[0][0]) == 1:
            a = cond.terms[0][0][0][0]
            want = None
            if a.head == "lt":
                P = a.args[0]
                positive = True
                want = (P, "lt")
        elif cond.kind == "b":
            l = lnot(cond)
            if len(l.terms) == 1 and l.terms[0][1] == 1 and len(l.terms[0][0]) == 1 \
                    and l.terms[0][0][0][0].head in ("lt", "eq"):
                a = l.terms[0][0][0][0]
                # cond: not (Q < 0)  i.e. Q >= 0, i.e. -Q-1 < 0 (ints)
                P = add(neg(a.args[0]), num(-1)) if a.head == "lt" else None
                want = (P, "lt") if P is not None else (a.args[0], "ne")
            else:
                return None
        else:
            return None
        if want is None:
            return None
        P, how = want
        for pa in P.fv:
            if pa in sysv:
                i0, e = sysv[pa]
                st = const_of(add(e, neg(of(pa))))
                co = [c for m, c in P.terms if len(m) == 1 and m[0][0] is pa and m[0][1] == 1]
                if st is None or not co:
                    continue
                rest = add(P, T.scale(of(pa), -co[0]))
                if rest.fv & phs or pa in rest.fv or v in rest.fv:
                    continue
                # P(k) = co*(i0 + st*k) + rest < 0
                slope = co[0] * st
                start = add(T.scale(i0, co[0]), rest)
                if how == "ne" and abs(slope) == 1:
                    return neg(start) if slope == 1 else start
                if slope == 1 and how == "lt":
                    return neg(start)
                if slope > 0 and how == "lt" and slope.denominator == 1:
                    return T.floordiv(add(neg(start), num(slope - 1)), num(slope))
        return None

    def solve(self, sysv, v, lo, hi):
        """value at the start of iteration v, and after the loop"""
        at, fin = {}, {}
        todo = dict(sysv)
        progress = True
        while todo and progress:
            progress = False
            for pa in sorted(todo):
                i0, e = todo[pa]
                e = subst(e, {k: x for k, x in at.items()})
                if e is of(pa):
                    at[pa] = i0
                    fin[pa] = i0
                    del todo[pa]
                    progress = True
                    continue
                d = add(e, neg(of(pa)))
                if not (d.fv & set(todo)):
                    # accumulator
                    v2 = fresh("a")
                    body = subst(d, {v: of(v2)})
                    T.set_range(v2, lo, of(v))
                    at[pa] = add(i0, T.mk_sum(v2, lo, of(v), body))
                    T.set_range(v2, lo, hi)
                    fin[pa] = add(i0, T.mk_sum(v2, lo, hi, body))
                    del todo[pa]
                    progress = True
                    continue
                if not (e.fv & set(todo)):
                    # plain overwrite each iteration
                    prevv = subst(e, {v: add(of(v), num(-1))})
                    first = T.eq0(add(of(v), neg(lo)))
                    at[pa] = sel(first, i0, prevv)
                    empty = cmp("<=", hi, lo)
                    fin[pa] = sel(empty, i0, subst(e, {v: add(hi, num(-1))}))
                    del todo[pa]
                    progress = True
                    continue
        if todo:
            for pa in sorted(todo):
                todo[pa] = (todo[pa][0], subst(todo[pa][1], at))
            for pa in sorted(todo):
                a1 = self.rec_atom("rec", todo, pa, v, lo, of(v))
                a2 = self.rec_atom("rec", todo, pa, v, lo, hi)
                at[pa] = of(a1)
                fin[pa] = of(a2)
        return at, fin

    def array_system(self, lid, sysv, pre, endheap, v, lo, guard_all):
        """the loop as one recurrence over its scalars and whole arrays"""
        arrs = {}
        for k, c in pre.items():
            if not isinstance(c, Content):
                continue
            shape = self.shapes.get(k)
            if shape is None:
                return None
            xs = [fresh("x") for _ in shape]
            ix = tuple(of(x) for x in xs)
            d = DummyArr(k, shape)
            try:
                i0 = self.read_content(d, c, ix)
                st = self.read_content(d, endheap[k], ix)
            except (Opaque, TooBig):
                return None
            if guard_all is not ONE:
                st = sel(guard_all, st, of(atom("prevel", (lid, k) + ix, self.arr_kind(k, c))))
            arrs[k] = (xs, i0, st)
        return ArraySystem(lid, dict(sysv), arrs, v, lo)

    def rec_atom(self, head, system, which, v, lo, upto):
        """canonical recurrence: variables ordered by colour refinement"""
        # relevant variables
        rel = set()
        stack = [which] if which is not None else [x for x in upto.fv if x in system]
        while stack:
            x = stack.pop()
            if x in rel:
                continue
            rel.add(x)
            for y in system[x][1].fv:
                if y in system and y not in rel:
                    stack.append(y)
        rel = sorted(rel)
        rv = atom("rv", (newheight(system, rel),), "i")
        col = {x: "0" for x in rel}
        for _ in range(3):
            nc = {}
            for x in rel:
                i0, e = system[x]
                mp = {y: of(atom("col", (col[y], "self" if y is x else "o"), y.kind)) for y in rel}
                mp[v] = of(rv)
                nc[x] = T._h(i0.key + subst(e, mp).key + col[x])
            col = nc
        order = sorted(rel, key=lambda x: col[x])
        base = newheight(system, rel)
        mp = {y: of(atom("rp", (base, i), y.kind)) for i, y in enumerate(order)}
        mp[v] = of(rv)
        steps = tuple((system[x][0], subst(system[x][1], mp)) for x in order)
        if head == "wcount":
            return atom("wcount", (base, steps, subst(upto, mp)), "i")
        k = which.kind
        return atom("rec", (base, order.index(which), lo, upto, steps), k)


class ArraySystem:
    """recurrence whose state holds scalars and arrays (as functions of their indices)"""

    def __init__(self, lid, scal, arrs, v, lo):
        self.lid, self.scal, self.arrs, self.v, self.lo = lid, scal, arrs, v, lo
        self.made = {}

    def prevels(self, p):
        return [x for x in p.fv if x.head == "prevel" and x.args[0] == self.lid]

    def deps(self, p):
        return {x for x in p.fv if x in self.scal} | {x.args[1] for x in self.prevels(p)}

    def conv(self, p, mp, ra, cache=None):
        """rename the state variables of this loop in p"""
        cache = {} if cache is None else cache
        m = dict(mp)
        for b in self.prevels(p):
            if b not in cache:
                cache[b] = ra(b, [self.conv(x, mp, ra, cache) if isinstance(x, Poly) else x for x in b.args[2:]])
            m[b] = cache[b]
        return subst(p, m)

    def step(self, e):
        return self.scal[e][1] if isinstance(e, Atom) else self.arrs[e][2]

    def init(self, e):
        return self.scal[e][0] if isinstance(e, Atom) else self.arrs[e][1]

    def build(self, roots):
        key = frozenset(roots)
        if key in self.made:
            return self.made[key]
        rel, stack = [], list(roots)
        while stack:
            x = stack.pop()
            if x in rel:
                continue
            rel.append(x)
            stack.extend(y for y in self.deps(self.step(x)) if y in self.scal or y in self.arrs)
        sc = [x for x in rel if isinstance(x, Atom)]
        ar = [x for x in rel if not isinstance(x, Atom)]
        base = 0
        for x in rel:
            base = max(base, newheight({0: (self.init(x), self.step(x))}, [0]))
        rv = atom("rv", (base,), "i")
        rm = of(atom("rm", (base,), "i"))
        col = {x: "s" if isinstance(x, Atom) else "a%d" % len(self.arrs[x][0]) for x in rel}
        fm = {k: {x: of(atom("rx", (base, d), "i")) for d, x in enumerate(self.arrs[k][0])} for k in ar}
        for _ in range(3):
            nc = {}
            for x in rel:
                mp = {y: of(atom("col", (col[y], "self" if y is x else "o"), y.kind)) for y in sc}
                mp[self.v] = of(rv)
                mp.update(fm.get(x, {}))
                st = self.conv(self.step(x), mp, lambda b, ix, x=x: of(atom("colr", (col[b.args[1]], "self" if b.args[1] == x else "o") + tuple(ix), b.kind)))
                i0 = subst(self.init(x), fm.get(x, {}))
                nc[x] = T._h(i0.key + st.key + col[x])
            col = nc
        sc.sort(key=lambda x: col[x])
        ar.sort(key=lambda x: col[x])
        mp = {y: of(atom("rp", (base, i), y.kind)) for i, y in enumerate(sc)}
        mp[self.v] = of(rv)
        pos = {k: j for j, k in enumerate(ar)}
        ra = lambda b, ix: of(atom("ra", (base, pos[b.args[1]], rm) + tuple(ix), b.kind))
        ss = tuple((self.scal[x][0], self.conv(self.scal[x][1], mp, ra)) for x in sc)
        as_ = tuple((subst(self.arrs[k][1], fm[k]), self.conv(self.arrs[k][2], dict(mp, **{}) | fm[k], ra)) for k in ar)
        sysa = of(atom("asys", (base, self.lo, ss, as_), "?"))
        r = (sysa, {x: i for i, x in enumerate(sc)}, pos, base, mp, ra)
        self.made[key] = r
        return r

    def scalar(self, pa, upto):
        sysa, sp, ap, _, _, _ = self.build([pa])
        return of(atom("arec", (sysa, "s", sp[pa], upto, ()), pa.kind))

    def element(self, k, upto, idx, kind="?"):
        sysa, sp, ap, _, _, _ = self.build([k])
        kd = self.arrs[k][2].kind
        i0 = self.arrs[k][1].kind
        if kd != i0:
            kd = max(kd, i0, key="bifc".index) if kd in "bifc" and i0 in "bifc" else "?"
        return of(atom("arec", (sysa, "a", ap[k], upto, tuple(idx)), kd))

    def count(self, cond):
        roots = self.deps(cond)
        sysa, sp, ap, base, mp, ra = self.build([x for x in roots if x in self.scal or x in self.arrs])
        return of(atom("awcount", (sysa, self.conv(cond, mp, ra)), "i"))

    def resolver(self, upto, S):
        def ra(b, ix):
            if b.args[1] not in self.arrs:
                return of(b)
            return self.element(b.args[1], upto, [S(x) for x in ix], b.kind)

        def resolve(p):
            if not self.prevels(p):
                return p
            return self.conv(p, {}, ra)
        return resolve

    def final(self, k, hi):
        return Content(("fn", lambda idx: self.element(k, hi, idx)))


def newheight(system, rel):
    h = 0
    stack = [system[x][1] for x in rel] + [system[x][0] for x in rel]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, (Poly, Atom)) or x in seen:
            continue
        seen.add(x)
        if not (x.heads & {"rec", "wcount", "asys"}):
            continue
        if isinstance(x, Poly):
            for m, _ in x.terms:
                stack.extend(a for a, _e in m)
        else:
            if x.head in ("rec", "wcount", "asys"):
                h = max(h, x.args[0] + 1)
            stack.extend(x.args)
    return h


class DummyArr:
    def __init__(self, k, shape):
        self.id = k
        self.shape = shape


class Subst:
    def __init__(self, mp):
        self.mp = mp

    def __call__(self, p):
        return subst(p, self.mp)


BIN = {
    "Add": add,
    "Sub": lambda a, b: add(a, neg(b)),
    "Mult": mul,
    "Div": lambda a, b: mul(a, T.inv(b)),
    "FloorDiv": T.floordiv,
    "Mod": T.mod,
    "Pow": T.power,
    "BitAnd": lambda a, b: mul(a, b) if a.kind == "b" and b.kind == "b" else of(atom("bitand", tuple(sorted((a, b), key=T._akey)), "i")),
    "BitOr": lambda a, b: T.lor(a, b) if a.kind == "b" and b.kind == "b" else of(atom("bitor", tuple(sorted((a, b), key=T._akey)), "i")),
    "BitXor": lambda a, b: add(add(a, b), T.scale(mul(a, b), -2)) if a.kind == "b" and b.kind == "b" else of(atom("bitxor", tuple(sorted((a, b), key=T._akey)), "i")),
    "LShift": lambda a, b: of(atom("shl", (a, b), "i")),
    "RShift": lambda a, b: of(atom("shr", (a, b), "i")),
}
