"""C02: constant expressions. Every expression tree up to a bounded number of operators over constant atoms of every kind, as a
constant, as the same expression over variables, and where a constant is required; both must give the reference's value."""
import itertools, math
from core import Case, standard, THOROUGH


class G:
    constants = uses = excluded = 0


INT, LONG = 2**31, 2**63
PREC = {"+": 10, "-": 10, "or": 10, "xor": 10, "*": 40, "/": 40, "div": 40, "mod": 40, "and": 40, "shl": 40, "shr": 40, "pow": 50, "**": 50}


class U(Exception):
    """the value is not defined, or the combination is not part of the language"""


def isint(v): return isinstance(v, int)


class Ch(str): pass
class Bo:
    def __init__(self, v): self.v = bool(v)
class En:
    def __init__(self, v): self.v = v
class Lg(int):
    """an integer that run-time arithmetic holds in 64 bits"""


def ty(v): return "r" if isinstance(v, float) else "i" if isint(v) else "c" if isinstance(v, Ch) else "s" if isinstance(v, str) else "b" if isinstance(v, Bo) else "e"


def num(v, long):
    if long:
        if not -LONG <= v < LONG or INT <= v < 2 * INT: raise U  # 2^31..2^32-1: see the known finding
        return Lg(v)
    if not -INT <= v < INT: raise U
    return int(v)


def islong(v): return isinstance(v, Lg)


def real(x):
    if not math.isfinite(x) or abs(x) > 1e30 or (x != 0 and abs(x) < 1e-30): raise U
    return float(x)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(op, a, b):
    ta, tb = ty(a), ty(b)
    if ta == tb == "i":
        long = islong(a) or islong(b)
        x, y = int(a), int(b)
        if op == "+": return num(x + y, long)
        if op == "-": return num(x - y, long)
        if op == "*": return num(x * y, long)
        if op == "/":
            if y == 0: raise U
            return real(float(x) / float(y))
        if op in ("div", "mod"):
            if y == 0: raise U
            num(tdiv(x, y), long)
            return num(tdiv(x, y) if op == "div" else x - tdiv(x, y) * y, long)
        if op == "and": return num(x & y, long)
        if op == "or": return num(x | y, long)
        if op == "xor": return num(x ^ y, long)
        w = 64 if long else 32
        if op == "shl":
            if x < 0 or not 0 <= y < w: raise U
            return num(x << y, long)
        if op == "shr":
            if not 0 <= y < w or long and -INT <= x < INT and x < 0: raise U
            if long and not islong(a): raise U
            r = (x & (2**w - 1)) >> y
            return num(r - 2**w if r >= 2**(w - 1) else r, long)
        if op == "pow":
            if abs(y) > 64 or islong(b): raise U
            if y < 0:
                if x == 0: raise U
                return num(1 if x == 1 else (-1 if y & 1 else 1) if x == -1 else 0, long)
            return num(x ** y, long)
    if ta in "ri" and tb in "ri":
        x, y = float(a), float(b)
        if op == "+": return real(x + y)
        if op == "-": return real(x - y)
        if op == "*": return real(x * y)
        if op == "/":
            if y == 0: raise U
            return real(x / y)
        if op == "**":
            if x < 0 and y != int(y) or x == 0 and y <= 0 or abs(y) > 64: raise U
            r = real(x ** y)
            if x == int(x) and abs(r) > 2**53 or y != int(y) and y != 0.5 or y < 0: raise U
            return r
        if op == "pow" and tb == "i" and ta == "r":
            if islong(b) or abs(b) > 12 or x == 0 or x * 256 != int(x * 256): raise U
            if b < 0: raise U
            return real(x ** int(b))
        raise U
    if ta in "cs" and tb in "cs" and op == "+": return str(a) + str(b)
    if ta == tb == "b" and op in ("and", "or", "xor"):
        return Bo({"and": a.v and b.v, "or": a.v or b.v, "xor": a.v != b.v}[op])
    raise U


def fit_ord(v, d):
    t = ty(v)
    if t == "i": return num(v + d, islong(v))
    if t == "c":
        if not 0 <= ord(v) + d <= 255: raise U
        return Ch(chr(ord(v) + d))
    if t == "b":
        if not 0 <= v.v + d <= 1: raise U
        return Bo(v.v + d)
    if t == "e":
        if not 0 <= v.v + d <= 3: raise U
        return En(v.v + d)
    raise U


def fun(f, a):
    t = ty(a)
    if f == "-":
        if t == "i": return num(-a, islong(a))
        if t == "r": return -a
    elif f == "+":
        if t in "ir": return a
    elif f == "not":
        if t == "i": return num(~a, islong(a))
        if t == "b": return Bo(not a.v)
    elif f == "succ": return fit_ord(a, 1)
    elif f == "pred": return fit_ord(a, -1)
    elif f == "succ3":
        if t in "ic": return fit_ord(a, 3)
    elif f == "pred2":
        if t in "ic": return fit_ord(a, -2)
    elif f == "ord":
        if t == "c": return ord(a)
        if t in "be": return int(a.v)
    elif f == "chr":
        if t == "i" and not islong(a) and 0 <= a <= 255: return Ch(chr(a))
    elif f == "odd":
        if t == "i": return Bo(a & 1)
    elif f == "length":
        if t == "s": return len(a)
    elif f in ("trunc", "round"):
        if t == "r" and abs(a) < 2**31: return int(a) if f == "trunc" else int(math.floor(abs(a) + 0.5)) * (1 if a >= 0 else -1)
    elif f == "int":
        if t == "r": return math.copysign(math.floor(abs(a)), a)
    elif f == "frac":
        if t == "r": return math.copysign(abs(a) - math.floor(abs(a)), a)
    elif f in ("sin", "cos", "exp"):
        if t == "r" and abs(a) < 30 or t == "i" and abs(a) < 20: return real(getattr(math, f)(a))
    elif f == "ln":
        if t in "ri" and a > 0: return real(math.log(a))
    raise U


class A:
    """atom: constant text, variable name, value"""
    prec = 100

    def __init__(self, text, var, v): self.text, self.var, self.v = text, var, v
    def show(self, c): return self.text if c else self.var


class B:
    def __init__(self, op, l, r):
        self.op, self.l, self.r, self.prec = op, l, r, PREC[op]
        self.v = binop(op, l.v, r.v)

    def show(self, c):
        l, r = self.l.show(c), self.r.show(c)
        if self.l.prec < self.prec: l = "(%s)" % l
        if self.r.prec <= self.prec: r = "(%s)" % r
        return "%s %s %s" % (l, self.op, r)


class F:
    def __init__(self, f, e):
        self.f, self.e, self.v = f, e, fun(f, e.v)
        self.prec = 5 if f in "-+" else 60 if f == "not" else 100

    def show(self, c):
        s = self.e.show(c)
        if self.f in ("-", "+", "not"):
            if self.e.prec < 100: s = "(%s)" % s
            return self.f + (" " if self.f == "not" else "") + s
        if self.f == "succ3": return "succ(%s, 3)" % s
        if self.f == "pred2": return "pred(%s, 2)" % s
        return "%s(%s)" % (self.f, s)


ATOMS = []


def atom(text, var, v):
    a = A(text, var, v)
    ATOMS.append(a)
    return a


def lg(v): return v if -INT <= v < INT else Lg(v)


for i, (t, v) in enumerate([("0", 0), ("1", 1), ("2", 2), ("7", 7), ("km3", -3), ("(-5)", -5), ("maxint", INT - 1), ("kmin", -INT), ("kbig", 5000000000), ("kneg", -5000000000), ("65", 65), ("31", 31), ("klmax", LONG - 1)]):
    atom(t, "vi%d" % i, lg(v))
for i, (t, v) in enumerate([("0.5", 0.5), ("2.0", 2.0), ("krm", -2.75), ("1.5e3", 1500.0), ("3.5", 3.5), ("0.1", 0.1)]): atom(t, "vr%d" % i, v)
for i, (t, v) in enumerate([("'a'", "a"), ("'Z'", "Z"), ("kch", "\xc8"), ("' '", " ")]): atom(t, "vc%d" % i, Ch(v))
for i, (t, v) in enumerate([("true", 1), ("false", 0), ("kbt", 1)]): atom(t, "vb%d" % i, Bo(v))
for i, (t, v) in enumerate([("e0", 0), ("ke2", 2), ("e3", 3)]): atom(t, "ve%d" % i, En(v))
for i, (t, v) in enumerate([("'ab'", "ab"), ("kst", "x'y"), ("''", "")]): atom(t, "vs%d" % i, v)
TYPES = {"i": "integer", "r": "real", "c": "char", "b": "boolean", "e": "ten", "s": "tst"}


def vtype(v): return "longint" if islong(v) else TYPES[ty(v)]


HEADER = "type ten = (e0, e1, e2, e3); tst = string[60];\nconst km3 = -3; kmin = -maxint - 1; kbig = 5000000000; kneg = -kbig; klmax = 9223372036854775807; krm = -2.75; kch = chr(200); kbt = true; ke2 = e2; kst = 'x''y';\n" + \
    "var " + " ".join("%s: %s;" % (a.var, vtype(a.v)) for a in ATOMS) + "\nprocedure ini; begin " + "; ".join("%s := %s" % (a.var, a.text) for a in ATOMS if a.text != "''") + "; vs2 := vs0; vs2 := copy(vs0, 1, 0) end;\n" + \
    "procedure ti(x: longint); begin write(x:1, ';') end; procedure tr(x: real); begin write(x:26, ';') end; procedure tc(x: char); begin write(ord(x):1, x, ';') end; procedure tb(x: boolean); begin write(x, ';') end; " \
    "procedure te(x: ten); begin write(x, ord(x):1, ';') end; procedure ts(x: tst); begin write(length(x):1, x, ';') end;\n"


def show(v):
    t = ty(v)
    if t == "i": return "%d;" % v
    if t == "r": return "% .19E;" % v
    if t == "c": return "%d%s;" % (ord(v), v)
    if t == "b": return ("TRUE" if v.v else "FALSE") + ";"
    if t == "e": return "e%d%d;" % (v.v, v.v)
    return "%d%s;" % (len(v), v)


def group(key, trees, size=40, local=True):
    """Cases of up to `size` constants: each written as a constant and as an expression over variables."""
    for n in range(0, len(trees), size):
        part = trees[n:n + size]
        G.constants += len(part)
        decl = "const " + " ".join("k%d = %s;" % (i, e.show(True)) for i, e in enumerate(part)) + "\n"
        body = "ini; " + "; ".join("t%s(k%d); t%s(%s)" % (ty(e.v), i, ty(e.v), e.show(False)) for i, e in enumerate(part))
        out = "".join(show(e.v) * 2 for e in part)
        c = Case("%s #%d" % (key, n // size), body, out, decl=decl if local else "", glob="" if local else decl.replace("k", "k").replace("const ", "const "))
        if not local:  # constants at program level need names of their own
            import re
            pat = re.compile(r"\bk(\d+)\b")
            c.glob = "const " + " ".join("kg@N_%d = %s;" % (i, e.show(True)) for i, e in enumerate(part))
            c.body = pat.sub(r"kg@N_\1", body)
        yield c


def mk(cls, *a):
    try: return cls(*a)
    except (U, OverflowError):
        G.excluded += 1
        return None


UN = ["-", "+", "not", "succ", "pred", "succ3", "pred2", "ord", "chr", "odd", "length", "trunc", "round", "int", "frac", "sin", "cos", "exp", "ln"]


def compact(l): return [x for x in l if x is not None]


def trees1(atoms, ops=PREC):
    return compact([mk(B, o, a, b) for o in ops for a in atoms for b in atoms])


def cases():
    yield from group("atom", ATOMS)
    # literals of 2^31..2^32-1 are excluded elsewhere: they are a known finding
    yield Case("literal 3000000000", "l := c; write(c:1, ' ', l:1, ' '); l := 3000000000; write(l:1)", "3000000000 3000000000 3000000000", decl="const c = 3000000000; var l: longint;\n")
    yield from group("atom global", ATOMS, local=False)
    f1 = compact([mk(F, f, a) for f in UN for a in ATOMS])
    yield from group("unary", f1)
    yield from group("unary global", f1, local=False)
    for o in PREC:
        t = compact([mk(B, o, a, b) for a in ATOMS for b in ATOMS])
        yield from group("bin " + o, t)
        if o in ("+", "div", "shr", "*"): yield from group("bin global " + o, t, local=False)
    # functions and operators over functions and operators
    small = [a for a in ATOMS if a.text in ("2", "7", "km3", "0.5", "krm", "'a'", "true", "e0", "'ab'", "kbig", "31")]
    t1 = trees1(small)
    yield from group("fun of bin", compact([mk(F, f, t) for f in UN for t in t1]))
    f1s = compact([mk(F, f, a) for f in UN for a in small])
    yield from group("fun of fun", compact([mk(F, f, t) for f in UN for t in f1s if not (f in ("-", "+") and t.f in ("-", "+", "not") or f == "not" and t.f in ("-", "+", "not"))]))
    for o in PREC:
        ops = [t for t in f1s if t.prec != 5]
        yield from group("bin of fun " + o, compact([mk(B, o, a, b) for a in ops for b in small] + [mk(B, o, a, b) for a in small for b in ops] + ([mk(B, o, a, b) for a in ops for b in ops] if THOROUGH else [])))
        yield from group("neg bin " + o, compact([mk(B, o, P(t), b) for t in f1s if t.prec == 5 and PREC[o] < 60 for b in small]))
    tiny = [a for a in ATOMS if a.text in (("2", "7", "km3", "0.5", "31", "kbig") if THOROUGH else ("2", "7", "km3", "0.5"))]
    for o in PREC:
        for p in PREC:
            l = compact([mk(B, p, a, b) for a in tiny for b in tiny])
            yield from group("tree %s(%s)" % (o, p), compact([mk(B, o, t, c) for t in l for c in tiny] + [mk(B, o, c, t) for t in l for c in tiny]), size=64)
    bo = [a for a in ATOMS if ty(a.v) == "b"]
    nb = bo + [F("not", a) for a in bo]
    lo = ("and", "or", "xor")
    yield from group("bool trees", compact([mk(B, o, B(p, a, b), c) for o in lo for p in lo for a in nb for b in nb for c in nb] + [mk(B, o, c, B(p, a, b)) for o in lo for p in lo for a in nb for b in nb for c in nb]), size=64)
    if THOROUGH:
        for o in PREC:
            for p in PREC:
                for q in PREC:
                    l = compact([mk(B, p, a, b) for a in tiny[:4] for b in tiny[:3]])
                    l2 = compact([mk(B, q, a, b) for a in tiny[:2] for b in tiny[1:4]])
                    yield from group("tree3 %s(%s,%s)" % (o, p, q), compact([mk(B, o, t, c) for t in l for c in l2]), size=64)
    yield from chains()
    yield from uses()


class P:
    """parenthesised"""
    prec = 100
    def __init__(self, e): self.e, self.v = e, e.v
    def show(self, c): return "(%s)" % self.e.show(c)


def chains():
    """constants defined by constants: every step operation x every step operation x every step operation"""
    steps = [("+", "1"), ("-", "9"), ("*", "km3"), ("div", "2"), ("mod", "7"), ("shl", "2"), ("/", "2"), ("*", "0.5"), ("xor", "31"), ("pow", "2")]
    by = {a.text: a for a in ATOMS}
    for start in ("7", "km3", "krm", "kbig"):
        decl, body, out, n = [], [], "", 0
        for seq in itertools.product(steps, repeat=3):
            try:
                e, names = by[start], []
                for j, (o, t) in enumerate(seq):
                    r = B(o, P(e) if not isinstance(e, A) else e, A(t, t, by[t].v if t in by else {"9": 9}[t]))
                    names.append("c%d = %s %s %s;" % (n + j, e.text if j == 0 else "c%d" % (n + j - 1), o, t))
                    e = r
                    e.last = n + j
            except U:
                G.excluded += 1
                continue
            decl += names
            body.append("t%s(c%d)" % (ty(e.v), n + 2))
            out += show(e.v)
            n += 3
            G.constants += 1
            if len(body) == 60:
                yield Case("chain %s #%d" % (start, n), "; ".join(body), out, decl="const " + " ".join(decl) + "\n")
                decl, body, out = [], [], ""
        if body: yield Case("chain %s #%d" % (start, n), "; ".join(body), out, decl="const " + " ".join(decl) + "\n")
    # shadowing: a local constant of the same name, defined by the outer one
    yield Case("shadow", "ti(k); q; ti(k)", "7;8;16;7;", glob="const ks@N = 7;", decl="const k = ks@N; procedure q; const k = 8; l = k * 2; begin ti(k); ti(l) end;\n")


def uses():
    """where a constant is required: bounds, labels, members, capacities, initial values; the values are those of depth-1 and -2 trees"""
    ints = [a for a in ATOMS if a.text in ("0", "1", "2", "7", "km3", "(-5)", "65", "31")]
    t = [x for x in trees1(ints) + compact([mk(F, f, a) for f in ("-", "not", "succ", "pred", "succ3") for a in ints]) if ty(x.v) == "i"]
    t += [x for x in compact([mk(F, "ord", a) for a in ATOMS] + [mk(F, "trunc", a) for a in ATOMS] + [mk(F, "round", a) for a in ATOMS] + [mk(F, "length", a) for a in ATOMS])]
    seen, u = set(), []
    for x in t:
        k = (x.v, x.op if isinstance(x, B) else x.f, isinstance(x, B) and isinstance(x.r, A) and x.r.v < 0)
        if -60 <= x.v <= 200 and k not in seen:
            seen.add(k)
            u.append(x)
    if not THOROUGH: u = u[::2]
    G.uses += len(u) * 10
    for n, x in enumerate(u):
        s, v = x.show(True), int(x.v)
        hi = "%s + 3" % s if x.prec >= 10 else "(%s) + 3" % s
        nm = s
        yield Case("use array %s" % s, "g := 5; h := 6; w := 0; for i := %d to %d do a[i] := i; for i := %d to %d do w := w + a[i] * (i - (%d)); write(w:1, ' ', sizeof(a):1, ' ', g:1, h:1)" % (v, v + 3, v, v + 3, v),
                   "%d 16 56" % sum((v + k) * k for k in range(4)), decl="var i, w, g: integer; a: array [%s..%s] of integer; h: integer;\n" % (s, hi))
        yield Case("use case %s" % s, "for i := %d to %d do case i of %s: write('a'); %s..%s: write('b'); otherwise write('-') end" % (v - 2, v + 8, s, hi, hi[:-1] + "5"), "--a--bbb---", decl="var i: integer;\n")
        yield Case("use const %s" % s, "for i := %d to %d do case i of c: write('a'); d..e: write('b'); otherwise write('-') end; for i := d to e do write(a[i]); write(e - d:1)" % (v - 1, v + 6), "-a--bbb-xxx2",
                   decl="const c = %s; d = c + 3; e = d + 2; type r = c..e; t = array [r] of char; var i: r; a: t;\n" % s + "", glob="") if False else None
        if 0 <= v <= 200:
            yield Case("use string %s" % s, "g := 7; t := '%s'; for i := 1 to 300 do t := t + 'x'; write(length(t):1, g:1)" % "", "%d7" % max(1, v), decl="var i: integer; t: string[%s]; g: integer;\n" % s) if v > 0 else None
        if v >= 0 and v <= 60:
            yield Case("use set %s" % s, "t := [%s, %s..%s]; for i := 0 to 70 do if i in t then write(i:1, ' '); u := [%s]; for i in u do write(i:1)" % (s, hi, hi[:-1] + "5", s),
                       "%d %d %d %d %d" % (v, v + 3, v + 4, v + 5, v), decl="var i: integer; t: set of 0..70; u: set of %s..%s;\n" % (s, hi))
            yield Case("use cset %s" % s, "for i := 0 to 70 do if i in k then write(i:1, ' ')", "%d %d %d %d " % (v, v + 3, v + 4, v + 5), decl="const k = [%s, %s..%s]; var i: integer;\n" % (s, hi, hi[:-1] + "5"))
        yield Case("use init %s" % s, "write(x:1, ' '); x := x + 1; write(x:1, ' ', y:1:2)", "%d %d %.2f" % (v, v + 1, v), decl="var x: integer value %s; y: real value %s;\n" % (s, s))
        if s[0] != "(" and not s.startswith("not"): yield Case("use sub %s" % s, "x := %d; y := x; for x := %d downto %d do begin write(x:1, ' '); y := y + 1 end; write(y:1)" % (v, v + 3, v), "%d %d %d %d %d" % (v + 3, v + 2, v + 1, v, v + 4), decl="var x: %s..%s; y: integer;\n" % (s, hi))
        yield Case("use label %s" % s, "r.t := %d; r.b := 4; write(r.b:1); r.t := %d; r.c := 'q'; write(r.c)" % (v, v + 3), "4q", decl="const zl = %s; zh = %s; var r: record case t: integer of zl: (b: integer); zh: (c: char) end;\n" % (s, hi))
    chars = [x for x in compact([mk(F, f, a) for f in ("succ", "pred", "chr", "succ3") for a in ATOMS]) if ty(x.v) == "c"] + [a for a in ATOMS if ty(a.v) == "c"]
    for x in chars:
        s, v = x.show(True), ord(x.v)
        if v > 250: continue
        yield Case("use char %s" % s, "for c := chr(%d) to chr(%d) do begin a[c] := ord(c); case c of %s: write('l'); otherwise write('-') end; if c in [%s..succ(%s)] then write('s') else write('n') end; write(a[chr(%d)]:1, ' ', sizeof(a):1)" % (v, v + 3, s, s, s, v + 2),
                   "ls-s-n-n%d 16" % (v + 2), decl="var c: char; a: array [%s..succ(%s, 3)] of integer;\n" % (s, s))
    for s, v in (("e0", 0), ("succ(e0)", 1), ("ke2", 2), ("pred(ke2)", 1), ("pred(e3, 3)", 0)):
        yield Case("use enum %s" % s, "for c := e0 to e3 do case c of %s: write('l'); otherwise write('-') end; for c := %s to e3 do begin a[c] := ord(c); write(a[c]:1) end; write(sizeof(a):1)" % (s, s),
                   "".join("l" if i == v else "-" for i in range(4)) + "".join(str(i) for i in range(v, 4)) + str(4 * (4 - v)), decl="var c: ten; a: array [%s..e3] of integer;\n" % s)


def body(c):
    return c


def main():
    standard("C02", cases, G, HEADER, [("-O0",), ("-O2",)], "a constant is one distinct expression tree, written as a constant and computed over variables; a use is one distinct expression where a constant is required")
