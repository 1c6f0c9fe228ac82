"""C25: assignment strings."""
from sa.harness import S, Lazy, num
from sa.values import Slice
from sa.astmodel import Node, install

R1 = "for each statement form of Python's grammar, with symbolic literal values, the resulting mapping is the documented one"
R2 = "no expression form other than a literal or a whitelisted builtin yields a value: every path raises"
F = "africanus.util.cmdline.parse_python_assigns"


def lit(v):
    return Node("Constant", lit=(v,), value=v)


def name(n):
    return Node("Name", id=n)


def seq(kind, elts, lit_=None):
    return Node(kind, elts=None, lit=lit_, _e=elts)


def run(ck):
    ck.rules = [R1, R2]
    a, b, c = S("va"), S("vb"), S("vc")

    def mk(spec):
        """target/value trees -> nodes whose list fields live in this interpreter's heap"""
        def build(I, x):
            if isinstance(x, Node):
                n = Node(x.kind, x.lit, **{k: build(I, v) for k, v in x.fields.items()})
                return n
            if isinstance(x, list):
                return I.mklist([build(I, y) for y in x])
            return x
        return lambda I: install(I, [build(I, s) for s in spec])

    def assign(targets, value):
        return Node("Assign", targets=list(targets), value=value)

    def tup(kind, elts, lit_=None):
        return Node(kind, lit=lit_, elts=list(elts))

    def call(func, args=(), kws=()):
        return Node("Call", func=func, args=list(args), keywords=[Node("keyword", arg=k, value=v) for k, v in kws])

    def ok(tag, stmts, want):
        ck.equiv(tag, F, "specs.common.same", ("text",), None, R1, setup=mk(stmts), sargs=(("$dict", want),), skw={})

    def bad(tag, stmts, err="any_error"):
        ck.equiv(tag, F, "specs.common." + err, ("text",), None, R2, setup=mk(stmts))

    T2 = (lambda I: (a, b),)
    T3 = (lambda I: (a, b, c),)
    L2 = (lambda I: I.mklist([a, b]),)
    ok("one name", [assign([name("x")], lit(a))], {"x": a})
    ok("two statements", [assign([name("x")], lit(a)), assign([name("y")], lit(b))], {"x": a, "y": b})
    ok("later assignment wins", [assign([name("x")], lit(a)), assign([name("x")], lit(b))], {"x": b})
    ok("chained", [assign([name("x"), name("y")], lit(a))], {"x": a, "y": a})
    ok("three chained", [assign([name("x"), name("y"), name("z")], lit(a))], {"x": a, "y": a, "z": a})
    ok("string value", [assign([name("x")], lit("hello, world"))], {"x": "hello, world"})
    ok("None value", [assign([name("x")], lit(None))], {"x": None})
    ok("tuple value", [assign([name("x")], tup("Tuple", [], T2))], {"x": (a, b)})
    ok("list value", [assign([name("x")], tup("List", [], L2))], {"x": ("$list", [a, b])})
    for k in ("Tuple", "List"):
        ok("unpack %s" % k, [assign([tup(k, [name("x"), name("y")])], tup("Tuple", [], T2))], {"x": a, "y": b})
        ok("unpack three %s" % k, [assign([tup(k, [name("z"), name("x"), name("y")])], tup("Tuple", [], T3))], {"z": a, "x": b, "y": c})
        ok("unpack list into %s" % k, [assign([tup(k, [name("x"), name("y")])], tup("List", [], L2))], {"x": a, "y": b})
        ok("scalar into single %s" % k, [assign([tup(k, [name("x")])], lit(a))], {"x": a})
        ok("mixed targets %s" % k, [assign([name("w"), tup(k, [name("x"), name("y")])], tup("Tuple", [], T2))], {"w": (a, b), "x": a, "y": b})
        bad("too few %s" % k, [assign([tup(k, [name("x"), name("y"), name("z")])], tup("Tuple", [], T2))], "value_error")
        bad("too many %s" % k, [assign([tup(k, [name("x"), name("y")])], tup("Tuple", [], T3))], "value_error")
        bad("scalar into pair %s" % k, [assign([tup(k, [name("x"), name("y")])], lit(a))], "value_error")
        bad("nested target %s" % k, [assign([tup(k, [name("x"), tup(k, [name("y")])])], tup("Tuple", [], T2))], "value_error")
        bad("attribute in %s target" % k, [assign([tup(k, [Node("Attribute", value=name("o"), attr="f"), name("y")])], tup("Tuple", [], T2))], "value_error")
    sl = lambda *x: Lazy(lambda I: Slice(*x))
    ok("slice(a)", [assign([name("s")], call(name("slice"), [lit(a)]))], {"s": sl(None, a, None)})
    ok("slice(a, b)", [assign([name("s")], call(name("slice"), [lit(a), lit(b)]))], {"s": sl(a, b, None)})
    ok("slice(a, b, c)", [assign([name("s")], call(name("slice"), [lit(a), lit(b), lit(c)]))], {"s": sl(a, b, c)})
    # nothing but literals and whitelisted builtins evaluates
    evil = ["eval", "exec", "compile", "__import__", "open", "getattr", "globals", "input", "vars", "setattr", "type", "print", "len", "range"]
    for f in evil:
        bad("call of %s" % f, [assign([name("x")], call(name(f), [lit("text")]))], "value_error")
        bad("call of %s in argument" % f, [assign([name("x")], call(name("slice"), [lit(a), call(name(f), [lit("text")])]))], "value_error")
        bad("call of %s in keyword" % f, [assign([name("x")], call(name("slice"), [lit(a)], [("stop", call(name(f)))]))])
    os_system = Node("Attribute", value=name("os"), attr="system")
    bad("call of an attribute", [assign([name("x")], call(os_system, [lit("id")]))])
    bad("call of a call", [assign([name("x")], call(call(name("getattr"), [lit(a)]), []))])
    bad("call of a lambda", [assign([name("x")], call(Node("Lambda"), []))])
    bad("call of a subscript", [assign([name("x")], call(Node("Subscript", value=name("y"), slice=lit(a)), []))])
    for k in ("Name", "Attribute", "Lambda", "Subscript", "ListComp", "IfExp", "JoinedStr", "BoolOp", "Compare", "BinOp"):
        bad("%s value" % k, [assign([name("x")], Node(k, id="y", value=name("y"), attr="z"))])
        bad("%s argument" % k, [assign([name("x")], call(name("slice"), [Node(k, id="y", value=name("y"), attr="z")]))])
    for k in ("Tuple", "List", "Dict", "Set"):
        bad("%s holding a call" % k, [assign([name("x")], tup(k, [call(name("eval"), [])]))])
    for k in ("Expr", "AugAssign", "Import", "ImportFrom", "Delete", "For", "While", "If", "FunctionDef", "Pass", "Assert", "AnnAssign"):
        st = Node(k, value=lit(a), target=name("x"), targets=[name("x")])
        bad("%s statement" % k, [st], "value_error")
        bad("%s statement after an assignment" % k, [assign([name("x")], lit(a)), st], "value_error")
    bad("attribute target", [assign([Node("Attribute", value=name("o"), attr="f")], lit(a))], "type_error")
    bad("subscript target", [assign([Node("Subscript", value=name("o"), slice=lit(b))], lit(a))], "type_error")
    ck.equiv("empty text", F, "specs.common.same", ("",), None, R1, sargs=(("$dict", {}),))
    ck.equiv("no text", F, "specs.common.same", (None,), None, R1, sargs=(("$dict", {}),))
    return ck.finish("every statement and expression form of the grammar as target, value, argument and keyword, literal values symbolic",
                     ["ast.parse and ast.literal_eval behave as the standard library documents"], 90)
