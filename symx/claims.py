"""Claims: formulas over numbers with a numerical slack, shared by the symbolic and the concrete mode.

truth(node, slack) says whether the claim holds up to `slack`: comparisons inside may be off by
slack (in the permissive direction); under negation the direction flips."""
import math
import numpy as np


class Node(object):
    def __and__(self, o):
        return And([self, o])

    def __or__(self, o):
        return Or([self, o])

    def __invert__(self):
        return Not(self)

    def __bool__(self):
        raise TypeError("a claim has no truth value; use S.check/S.assume")


class Raw(Node):
    def __init__(self, v):
        self.v = v


class Rel(Node):
    """op: 'eq' or 'le'; a, b scalars (real)."""

    def __init__(self, op, a, b, tol=None):
        self.op, self.a, self.b, self.tol = op, a, b, tol


class And(Node):
    def __init__(self, xs):
        self.xs = [node(x) for x in xs]


class Or(Node):
    def __init__(self, xs):
        self.xs = [node(x) for x in xs]


class Not(Node):
    def __init__(self, x):
        self.x = node(x)


def node(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, (list, tuple)):
        return And(x)
    return Raw(x)


def parts(n):
    """Conjuncts of a claim."""
    n = node(n)
    if isinstance(n, And):
        out = []
        for x in n.xs:
            out.extend(parts(x))
        return out
    return [n]


def cells(x):
    """Flat list of the scalars of a (nested) sequence, with its shape."""
    if isinstance(x, np.ndarray):
        return x.shape, list(x.reshape(-1))
    if hasattr(x, "toarray"):
        return cells(x.toarray())
    if isinstance(x, (list, tuple)):
        sub = [cells(y) for y in x]
        sh = (len(sub),) + (sub[0][0] if sub else ())
        if any(s[0] != sub[0][0] for s in sub):
            sh = (len(sub), "ragged")
        return sh, [c for s in sub for c in s[1]]
    return (), [x]


def iscomplex(x):
    return isinstance(x, (complex, np.complexfloating)) or type(x).__name__ == "SymComplex"


def rel(op, a, b, tol=None):
    sa, ca = cells(a)
    sb, cb = cells(b)
    if sa != sb:
        if sa == () or (len(ca) == 1 and len(cb) != 1):
            ca = ca * len(cb)
        elif sb == () or (len(cb) == 1 and len(ca) != 1):
            cb = cb * len(ca)
        elif len(ca) != len(cb):
            return Raw(False)
    out = []
    for x, y in zip(ca, cb):
        if x is None or y is None:
            out.append(Raw(x is None and y is None and op == "eq"))
        elif isinstance(x, str) or isinstance(y, str):
            out.append(Raw(x == y and op == "eq"))
        elif iscomplex(x) or iscomplex(y):
            if op != "eq":
                out.append(Raw(False))
                continue
            xr, xi = (x.real, x.imag) if iscomplex(x) else (x, 0.0)
            yr, yi = (y.real, y.imag) if iscomplex(y) else (y, 0.0)
            out.append(Rel("eq", xr, yr, tol))
            out.append(Rel("eq", xi, yi, tol))
        else:
            out.append(Rel(op, x, y, tol))
    return out[0] if len(out) == 1 else And(out)


# -- concrete evaluation --------------------------------------------------------------
def ctruth(n, slack, rel_=True):
    n = node(n)
    if isinstance(n, Raw):
        return bool(n.v)
    if isinstance(n, And):
        return all(ctruth(x, slack) for x in n.xs)
    if isinstance(n, Or):
        return any(ctruth(x, slack) for x in n.xs)
    if isinstance(n, Not):
        return not ctruth(n.x, -slack)
    a, b = float(n.a), float(n.b)
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b if n.op == "eq" else a <= b
    sc = max(1.0, abs(a), abs(b))
    s = slack
    if n.tol is not None:
        s = n.tol if slack >= 0 else -n.tol
    if n.op == "eq":
        if s < 0:
            return abs(a - b) <= 1e-12 * sc
        return abs(a - b) <= s * sc
    return a <= b + s * sc
