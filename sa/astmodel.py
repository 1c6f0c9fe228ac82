"""Abstract values for parsed source: nodes of the ast module with symbolic literal values."""
from .terms import ONE, ZERO
from .values import InterpRaise, Opaque, Ext

SUB = {"expr": {"Constant", "Name", "Attribute", "Call", "Tuple", "List", "Dict", "BinOp", "Lambda", "Subscript", "ListComp", "Starred",
                "Set", "UnaryOp", "JoinedStr", "IfExp", "BoolOp", "Compare"},
       "stmt": {"Assign", "AugAssign", "Expr", "Import", "ImportFrom", "Delete", "AnnAssign", "If", "For", "While", "FunctionDef", "Pass", "Assert"}}


class Node:
    """kind, fields, and the value a literal denotes (a one-element tuple) or None"""

    def __init__(self, kind, lit=None, **fields):
        self.kind, self.lit, self.fields = kind, lit, fields

    def termify(self, I):
        return ("node", self.kind)

    def sa_attr(self, I, name, node):
        if name in self.fields:
            return self.fields[name]
        if name in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
            return ONE
        if name == "__class__":
            return Ext("ast." + self.kind)
        raise InterpRaise("AttributeError", "%s node has no %s at %s" % (self.kind, name, I.where(node)))

    def isa(self, name):
        if not name.startswith("ast."):
            return ZERO
        n = name[4:]
        return ONE if n == self.kind or n == "AST" or self.kind in SUB.get(n, ()) else ZERO


def literal_eval(I, args, kw, node):
    x = args[0]
    if not isinstance(x, Node):
        raise Opaque("literal_eval of %s" % type(x).__name__)
    if x.kind == "Expression":
        x = x.fields["body"]
    if x.lit is None:
        raise InterpRaise("ValueError", "not a literal")
    I.event("literal", x)
    return x.lit[0](I) if callable(x.lit[0]) else x.lit[0]


def install(I, body):
    """ast.parse yields a module with these statements"""
    def parse(I, args, kw, node):
        return Node("Interactive", body=I.mklist(list(body)))
    I.extmodels["ast.parse"] = parse
    I.extmodels["ast.literal_eval"] = literal_eval
