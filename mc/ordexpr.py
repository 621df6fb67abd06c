"""Reference semantics of lacsap's integer / ordinal expressions: a typed expression tree, its Pascal text, its value.

Types: 'int' (32-bit), 'long' (64-bit), ('sub', lo, hi) (host int), 'char', 'bool', 'enum'.
eval() returns None where the language leaves the result undefined (overflow, division by zero, bad shift count),
such rows are not generated."""

INTMIN, INTMAX = -2**31, 2**31 - 1
LMIN, LMAX = -2**63, 2**63 - 1
PREC = {"=": 5, "<>": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 10, "-": 10, "or": 10, "xor": 10, "or_else": 10,
        "*": 40, "div": 40, "mod": 40, "and": 40, "and_then": 40, "shl": 40, "shr": 40, "pow": 50}
CMP = ("=", "<>", "<", "<=", ">", ">=")
ARITH = ("+", "-", "*", "div", "mod", "and", "or", "xor", "shl", "shr", "pow")


def bits(t):
    return 64 if t == "long" else 32


def fit(v, t):
    if t == "long":
        return v if LMIN <= v <= LMAX else None
    if t == "int":
        return v if INTMIN <= v <= INTMAX else None
    if isinstance(t, tuple):
        return v if t[1] <= v <= t[2] else None
    if t == "char":
        return v if 0 <= v <= 255 else None
    if t == "bool":
        return v if v in (0, 1) else None
    return v


def base(t):
    return "int" if isinstance(t, tuple) else t


def join(a, b):
    return "long" if "long" in (a, b) else "int"


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(op, t, a, b):
    """t: the common operand type"""
    if op == "+": r = a + b
    elif op == "-": r = a - b
    elif op == "*": r = a * b
    elif op == "div":
        if b == 0: return None
        r = tdiv(a, b)
    elif op == "mod":
        if b == 0 or fit(tdiv(a, b), t) is None: return None
        r = a - tdiv(a, b) * b
    elif op == "and": r = a & b
    elif op == "or": r = a | b
    elif op == "xor": r = a ^ b
    elif op == "shl":
        if not 0 <= b < bits(t) or a < 0: return None
        r = a << b
    elif op == "shr":
        if not 0 <= b < bits(t): return None
        r = (a & (2**bits(t) - 1)) >> b
        if r >= 2**(bits(t) - 1): r -= 2**bits(t)
    elif op == "pow":
        if b < 0:
            if a == 0: return None
            r = 1 if a == 1 else (-1 if b & 1 else 1) if a == -1 else 0
        else:
            if b > 200: return None  # the generated loop is linear in the exponent
            r = a ** b
    elif op == "=": return int(a == b)
    elif op == "<>": return int(a != b)
    elif op == "<": return int(a < b)
    elif op == "<=": return int(a <= b)
    elif op == ">": return int(a > b)
    elif op == ">=": return int(a >= b)
    else: raise KeyError(op)
    return fit(r, t)


class Leaf:
    prec = 100
    ops = 0

    def __init__(self, text, t, idx=None, val=None):
        self.text, self.t, self.idx, self.val = text, t, idx, val

    def show(self, full):
        return self.text

    def eval(self, env):
        return self.val if self.idx is None else env[self.idx]


class Bin:
    def __init__(self, op, l, r):
        self.op, self.l, self.r = op, l, r
        self.prec = PREC[op]
        lt, rt = base(l.t), base(r.t)
        if lt in ("bool", "char", "enum"):
            self.ct = lt
        else:
            self.ct = join(lt, rt)
        self.t = "bool" if op in CMP else self.ct

    def show(self, full):
        l, r = self.l.show(full), self.r.show(full)
        if self.l.prec < self.prec or full and self.l.prec < 100 or (self.l.prec == self.prec == 5):
            l = "(" + l + ")"
        if self.r.prec <= self.prec or full and self.r.prec < 100:
            r = "(" + r + ")"
        return "%s %s %s" % (l, self.op, r)

    def eval(self, env):
        a = self.l.eval(env)
        if a is None: return None
        if self.op == "and_then" and not a: return 0
        if self.op == "or_else" and a: return 1
        b = self.r.eval(env)
        if b is None: return None
        if self.op in ("and_then", "or_else"): return b
        return binop(self.op, self.ct, a, b)


class Un:
    """'-' (only as first operand or parenthesised), 'not', or a function"""

    def __init__(self, op, e):
        self.op, self.e = op, e
        self.t = "bool" if op == "odd" else "int" if op in ("ord", "sign") else base(e.t)
        self.prec = 9 if op == "-" else 60 if op == "not" else 100

    def show(self, full):
        s = self.e.show(full)
        if self.op in ("-", "not"):
            if self.e.prec < 100:
                s = "(" + s + ")"
            return ("-" if self.op == "-" else "not ") + s
        return "%s(%s)" % (self.op, s)

    def eval(self, env):
        a = self.e.eval(env)
        if a is None: return None
        o = self.op
        if o == "-": r = -a
        elif o == "not": r = 1 - a if self.t == "bool" else ~a
        elif o == "abs": r = abs(a)
        elif o == "sqr": r = a * a
        elif o == "odd": return a & 1
        elif o == "ord": r = a
        elif o == "sign": r = (a > 0) - (a < 0)
        elif o == "succ": r = a + 1
        elif o == "pred": r = a - 1
        else: raise KeyError(o)
        return fit(r, self.t)


class Fn2:
    prec = 100

    def __init__(self, op, l, r):
        self.op, self.l, self.r = op, l, r
        self.t = base(l.t) if op in ("succ", "pred") else join(base(l.t), base(r.t))

    def show(self, full):
        return "%s(%s, %s)" % (self.op, self.l.show(full), self.r.show(full))

    def eval(self, env):
        a, b = self.l.eval(env), self.r.eval(env)
        if a is None or b is None: return None
        r = {"min": min(a, b), "max": max(a, b), "succ": a + b, "pred": a - b}[self.op]
        return fit(r, self.t)


def lit(v, t=None):
    if t is None:
        t = "int" if INTMIN <= v <= INTMAX else "long"
    if v < 0:
        return Leaf("(%d)" % v, t, val=v)
    return Leaf(str(v), t, val=v)
