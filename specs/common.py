"""outcomes a specification can require"""


def same(x):
    return x


def value_error(*a, **k):
    raise ValueError("documented")


def type_error(*a, **k):
    raise TypeError("documented")


def any_error(*a, **k):
    raise Exception("some error")


def rejects(*args, **kwargs):
    raise ValueError("documented")
