"""C03: real and complex arithmetic. A driver program reads an operation number and the bit patterns of its operands and prints
the bit pattern of the result; every operation is run on every pair of operand values and compared with the same IEEE
operation (the C library's own functions) done here."""
import cmath, ctypes, itertools, math, struct
from core import Check, THOROUGH, run_tapes, run_cases, Case

L = ctypes.CDLL("libm.so.6")


def _f(name, n):
    f = getattr(L, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f


sin, cos, tan, atan, exp, log, sqrt = (_f(n, 1) for n in ("sin", "cos", "tan", "atan", "exp", "log", "sqrt"))
atan2, fmod, pow_ = _f("atan2", 2), _f("fmod", 2), _f("pow", 2)


def bits(x): return struct.unpack("<q", struct.pack("<d", x))[0]
def real(n): return struct.unpack("<d", struct.pack("<q", n))[0]


class U(Exception):
    pass


def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b


def div(a, b):
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


INF, NAN = math.inf, math.nan
MAXR = 1.7976931348623157e308
RV = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 10.0, 0.1, -0.1, 1 / 3, 2.5, -3.5, 1e-16, 123456.789, 2.0**31, 2.0**31 - 0.5, 2.0**32 + 1,
      2.0**53, 2.0**53 + 2, -2.0**63, 1e22, 1e300, -1e300, 1e-300, MAXR, -MAXR, 5e-324, 2.2250738585072014e-308, INF, -INF, NAN]
UV = RV + [k * 0.25 for k in range(-40, 41)] + [2.0**k for k in range(-60, 64, 3)] + [10.0**k for k in range(-20, 23)] + \
    [-(10.0**k) for k in range(-10, 10)] + [math.pi * k / 4 for k in range(-8, 9)] + [0.49999999999999994, -0.49999999999999994, 4503599627370495.5,
                                                                                 2147483647.4, -2147483648.4, 709.7, 709.8, -745.2, 1.0000000000000002, 0.9999999999999999]
IV = [0, 1, -1, 2, 3, -7, 10, 255, 65536, 16777217, 2**31 - 1, -2**31]
LV = IV + [2**31, -2**31 - 1, 2**32, 2**53, 2**53 + 1, 2**53 + 3, -2**53 - 1, 2**62 + 1, 2**63 - 1, -2**63, 2**60 + 2**7]
SV = [0, 1, 2, 127, 128, 200, 250]
NV = [-5, -1, 0, 1, 100]

# types of operands: Pascal type, values
TY = {"r": ("real", RV), "i": ("integer", IV), "l": ("longint", LV), "u": ("0..250", SV), "s": ("-5..100", NV)}


def rint(x):
    """round"""
    if x != x or math.isinf(x): raise U
    f = math.floor(abs(x))
    if abs(x) - f >= 0.5: f += 1
    return integer(int(math.copysign(f, x)))


def integer(n):
    if not -2**31 <= n < 2**31: raise U
    return n


def trunc(x):
    if x != x or math.isinf(x): raise U
    return integer(int(x))


def inte(x):
    return x if x != x or math.isinf(x) else math.copysign(float(math.floor(abs(x))), x)


def frac(x):
    if x != x: return x
    if math.isinf(x): return math.copysign(0.0, x)
    return math.copysign(abs(x) - math.floor(abs(x)), x)


def minmax(f):
    def g(a, b):
        if a != a or b != b or a == b == 0: raise U
        return f(a, b)
    return g


def power(a, b):
    return pow_(a, b)


def sign(x):
    if x != x: raise U
    return -1 if x < 0 else 1 if x > 0 else 0


CMP = {"=": lambda a, b: a == b, "<>": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
BIN = {"+": add, "-": sub, "*": mul, "/": div, "**": power}
UN = {"-": lambda x: -x, "+": lambda x: x, "abs": abs, "sqr": lambda x: x * x, "sqrt": sqrt, "sin": sin, "cos": cos, "tan": tan, "arctan": atan, "ln": log, "exp": exp,
      "frac": frac, "int": inte, "trunc": trunc, "round": rint}
BF = {"arctan2": atan2, "fmod": fmod, "max": minmax(max), "min": minmax(min)}

CV = [complex(a, b) for a, b in [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 2), (3, -4), (-0.5, 0.25), (-2, 0), (-3.5, -1.25), (4, 1e-9), (-4, 1e-9), (1e-3, 10), (1e5, -1e-5),
                               (0.1, 0.3), (7, 0.5)]]


class Near(str):
    """an output line matched up to a relative error; the text is that of the predicted value"""
    def __new__(cls, v, tol=1e-12):
        o = str.__new__(cls, "%r (within %g)" % (v, tol))
        o.v, o.tol = v, tol
        return o

    def __eq__(self, other):
        try:
            p = [real(int(t)) for t in other.split()]
        except ValueError:
            return False
        v = [self.v.real, self.v.imag] if isinstance(self.v, complex) else [self.v]
        if len(p) != len(v) or any(x != x for x in p): return False
        lim = self.tol * max(abs(self.v), 1e-307)
        return all(abs(a - b) <= lim for a, b in zip(p, v))

    def __ne__(self, other): return not self == other
    __hash__ = str.__hash__


def csq(z): return cmath.sqrt(z)


def nz(f, bad=lambda z: z == 0):
    def g(z):
        if bad(z): raise U
        return f(z)
    return g


CUN = {"-": lambda z: complex(-z.real, -z.imag), "+": lambda z: z, "sqr": lambda z: z * z, "sqrt": csq, "exp": nz(cmath.exp, lambda z: abs(z.real) > 100), "ln": nz(cmath.log),
       "sin": nz(cmath.sin, lambda z: abs(z.imag) > 100), "cos": nz(cmath.cos, lambda z: abs(z.imag) > 100),
       "arctan": nz(cmath.atan, lambda z: abs(z.real) < 1e-2 or abs(z) < 1e-2 or abs(z) > 1e4), "tan": nz(cmath.tan, lambda z: abs(z.real) > 1e4)}
CRE = {"re": lambda z: z.real, "im": lambda z: z.imag, "abs": abs, "arg": nz(cmath.phase)}


def cpow(z, x):
    if z == 0 or abs(x) > 40: raise U
    w = cmath.exp(cmath.log(z) * x)
    if abs(w) > 1e200 or abs(w) < 1e-200: raise U
    return w


def cdiv(a, b):
    if b == 0: raise U
    return a / b


CBIN = {"+": add, "-": sub, "*": mul, "/": cdiv, "=": CMP["="], "<>": CMP["<>"]}


def fmt(v):
    if isinstance(v, str): return v
    if isinstance(v, bool): return "T" if v else "F"
    if isinstance(v, float): return "nan" if v != v else str(bits(v))
    if isinstance(v, complex): return "%s %s" % (fmt(v.real), fmt(v.imag))
    return "%d" % v


def enc(t, v):
    if t == "c": return [str(bits(v.real)), str(bits(v.imag))]
    return [str(bits(v) if isinstance(v, float) else v)]


HEAD = """program p(input, output);
type bits = record case boolean of false: (r: real); true: (l: longint); end;
  rec = record k: integer; f: real; z: complex; t: integer; end;
  ap = ^rec;
  u8 = 0..250; s8 = -5..100;
  arr = array[3..6] of real;
  carr = array[1..3] of complex;
var op: integer; bb: bits; x, y, w: real; i, j: integer; l, m: longint; u, v: u8; s, t: s8; c, d, e: complex; more: boolean;
  rc: rec; q: ap; ra: arr; ca: carr;
procedure pr(a: real);
var h: bits;
begin
  h.r := a;
  if ((h.l shr 52) and 2047 = 2047) and (h.l and 4503599627370495 <> 0) then write('nan') else write(h.l);
end;
procedure pc(a: complex);
begin pr(re(a)); write(' '); pr(im(a)); end;
procedure pb(a: boolean); begin if a then write('T') else write('F'); end;
procedure pi(a: longint); begin write(a); end;
procedure gr(var a: real); var h: bits; begin read(h.l); a := h.r; end;
procedure gc(var a: complex); var h, k: bits; begin read(h.l); read(k.l); a := cmplx(h.r, k.r); end;
function fr(a: real): real; begin fr := a; end;
function fi(a: integer): integer; begin fi := a; end;
function fl(a: longint): longint; begin fl := a; end;
function fc(a: complex): complex; begin fc := a; end;
procedure setr(var a: real; b: real); begin a := b; end;
procedure setc(var a: complex; b: complex); begin a := b; end;
function rofi(a: integer): real; begin rofi := a; end;
function rofl(a: longint): real; begin rofl := a; end;
function cofr(a: real): complex; begin cofr := a; end;
function cofi(a: integer): complex; begin cofi := a; end;
"""
READ = {("r", 0): "gr(x)", ("r", 1): "gr(y)", ("i", 0): "read(i)", ("i", 1): "read(j)", ("l", 0): "read(l)", ("l", 1): "read(m)", ("u", 0): "read(u)", ("u", 1): "read(v)",
        ("s", 0): "read(s)", ("s", 1): "read(t)", ("c", 0): "gc(c)", ("c", 1): "gc(d)", ("r", 2): "gr(w)"}
NAME = {("r", 0): "x", ("r", 1): "y", ("i", 0): "i", ("i", 1): "j", ("l", 0): "l", ("l", 1): "m", ("u", 0): "u", ("u", 1): "v", ("s", 0): "s", ("s", 1): "t", ("c", 0): "c",
        ("c", 1): "d", ("r", 2): "w"}
PRN = {"r": "pr", "b": "pb", "i": "pi", "c": "pc"}


class Ops:
    """a driver's operations and the tapes for them"""

    def __init__(self, name):
        self.name, self.ops, self.tapes = name, [], []

    def op(self, kinds, expr, res, fn, values, before=""):
        """expr over the named operands; res: kind of result; fn: values -> predicted value"""
        k = len(self.ops)
        self.ops.append("%d: begin %s; %s%s end;" % (k, "; ".join(READ[t, n] for n, t in enumerate(kinds)), before,
                                                   expr if res is None else "%s(%s);" % (PRN[res], expr)))
        for vs in values:
            try:
                want = fn(*vs)
            except (U, OverflowError, ZeroDivisionError):
                continue
            self.tapes.append((" ".join([str(k)] + [z for t, v in zip(kinds, vs) for z in enc(t, v)]), want if isinstance(want, Near) else fmt(want)))

    def program(self):
        out, proc = [HEAD], []
        for a in range(0, len(self.ops), 60):
            out.append("procedure part%d;\nbegin\n  case op of\n    %s\n  end;\nend;\n" % (a, "\n    ".join(self.ops[a:a + 60])))
            proc.append("if (op >= %d) and (op < %d) then part%d;" % (a, a + 60, a))
        out.append("begin\n  new(q);\n  while not eof do begin\n    read(op);\n    %s\n    readln; writeln;\n  end;\nend.\n" % "\n    ".join(proc))
        return "".join(out)


def pairs(a, b): return itertools.product(a, b)
def ones(a): return ((x,) for x in a)


def near1(f, tol=1e-12):
    return lambda *a: Near(f(*a), tol)


def reals():
    o = Ops("real")
    PV = UV if THOROUGH else RV + UV[len(RV)::3]
    for op, f in BIN.items():
        o.op("rr", "x %s y" % op, "r", f, pairs(PV, PV))
        for t in "ilus":
            o.op("r" + t, "x %s %s" % (op, NAME[t, 1]), "r", lambda a, b, f=f: f(a, float(b)), pairs(RV, TY[t][1]))
            o.op(t + "r", "%s %s y" % (NAME[t, 0], op), "r", lambda a, b, f=f: f(float(a), b), pairs(TY[t][1], RV))
    for a, b in pairs("ilus", "ilus"):
        for op in ("/", "**"):
            o.op(a + b, "%s %s %s" % (NAME[a, 0], op, NAME[b, 1]), "r", lambda x, y, op=op: BIN[op](float(x), float(y)), pairs(TY[a][1], TY[b][1]))
    o.op("ri", "x pow j", "r", lambda a, b: power(a, float(b)), pairs(RV, IV))
    o.op("rs", "x pow t", "r", lambda a, b: power(a, float(b)), pairs(RV, NV))
    for op, f in CMP.items():
        o.op("rr", "x %s y" % op, "b", f, pairs(PV, PV))
        o.op("rr", "not (x %s y)" % op, "b", lambda a, b, f=f: not f(a, b), pairs(RV, RV))
        o.op("rr", "if x %s y then write('T') else write('F')" % op, None, f, pairs(RV, RV))
        for t in "ilus":
            o.op("r" + t, "x %s %s" % (op, NAME[t, 1]), "b", lambda a, b, f=f: f(a, float(b)), pairs(RV, TY[t][1]))
            o.op(t + "r", "%s %s y" % (NAME[t, 0], op), "b", lambda a, b, f=f: f(float(a), b), pairs(TY[t][1], RV))
    for n, f in UN.items():
        e = "%s(x)" % n if n not in "+-" else n + "x"
        o.op("r", e, "i" if n in ("trunc", "round") else "r", f, ones(UV))
        if n in ("trunc", "round", "int", "+", "-", "abs", "sqr"): continue
        for t in "ilus":
            o.op(t, "%s(%s)" % (n, NAME[t, 0]), "r", lambda a, f=f: f(float(a)), ones(TY[t][1]))
    o.op("r", "sign(x)", "i", sign, ones(UV))
    for n, f in BF.items():
        o.op("rr", "%s(x, y)" % n, "r", f, pairs(PV, PV))
        for t in "il":
            o.op("r" + t, "%s(x, %s)" % (n, NAME[t, 1]), "r", lambda a, b, f=f: f(a, float(b)), pairs(RV, TY[t][1]))
            o.op(t + "r", "%s(%s, y)" % (n, NAME[t, 0]), "r", lambda a, b, f=f: f(float(a), b), pairs(TY[t][1], RV))
    return o


def places():
    """the same few operations with operands and results stored in every kind of place, conversions by assignment and passing"""
    o = Ops("place")
    V = [0.1, -2.5, 3.0, 1e300, -0.0]
    P = [("x", ""), ("ra[4]", "ra[4] := x; "), ("rc.f", "rc.f := x; "), ("q^.f", "q^.f := x; "), ("fr(x)", ""), ("(x)", ""), ("re(c)", "c := cmplx(x, 1); "), ("im(c)", "c := cmplx(1, x); "),
         ("re(rc.z)", "rc.z := cmplx(x, 1); "), ("im(ca[2])", "ca[2] := cmplx(1, x); ")]
    Q = [("y", ""), ("ra[j]", "j := 3; ra[j] := y; "), ("rc.f", "rc.f := y; "), ("q^.f", "q^.f := y; "), ("fr(y)", "")]
    for (p, a), (q, b) in pairs(P, Q):
        if p == q: continue
        for op in "+-/":
            o.op("rr", "%s %s %s" % (p, op, q), "r", BIN[op], pairs(V, V), a + b)
        o.op("rr", "%s < %s" % (p, q), "b", CMP["<"], pairs(V, V), a + b)
    D = [("ra[5]", ""), ("rc.f", ""), ("q^.f", ""), ("w", ""), ("ra[j]", "j := 6; ")]
    for d, b in D:
        o.op("rr", "%s%s := x - y; pr(%s)" % (b, d, d), None, sub, pairs(V, V))
        o.op("rr", "%s%s := x; %s := %s - y; pr(%s)" % (b, d, d, d, d), None, sub, pairs(V, V))
        o.op("rr", "%ssetr(%s, x - y); pr(%s)" % (b, d, d), None, sub, pairs(V, V))
        for t in "ilus":
            n = NAME[t, 0]
            if "j" in b and t == "i": pass
            o.op(t, "%s%s := %s; pr(%s)" % (b, d, n, d), None, float, ones(TY[t][1]))
            o.op(t, "%ssetr(%s, %s); pr(%s)" % (b, d, n, d), None, float, ones(TY[t][1]))
    for t, e in [("i", "fr(i)"), ("l", "fr(l)"), ("u", "fr(u)"), ("s", "fr(s)"), ("i", "rofi(i)"), ("l", "rofl(l)"), ("u", "rofl(u)"), ("s", "rofi(s)"), ("i", "fr(fi(i))"), ("l", "fr(fl(l))"),
                 ("i", "fr(i) / 1"), ("l", "0.0 + l"), ("l", "l + 0.0"), ("l", "l / 1"), ("i", "i / 1"), ("u", "u * 1.0")]:
        o.op(t, e, "r", float, ones(TY[t][1]))
    # integer subexpressions stay integer until they meet a real
    o.op("rii", "x + j * 0", "r", lambda a, b, c: a + 0.0, []) if 0 else None
    for e, f in [("i div 2 + 0.5", lambda a: float(int(a / 2)) + 0.5), ("0.5 + i div 2", lambda a: 0.5 + float(int(a / 2))), ("i mod 7 / 2", lambda a: int(math.fmod(a, 7)) / 2),
                 ("2 * 0.25 + i", lambda a: 0.5 + a), ("i / 2", lambda a: a / 2), ("i / 3", lambda a: a / 3), ("1 / (i + 0.5)", lambda a: 1 / (a + 0.5)), ("-i / 2", lambda a: None if a == -2**31 else -a / 2)]:
        o.op("i", e, "r", lambda a, f=f: skipnone(f(a)), ones(IV))
    for k in ["2", "3", "10", "7", "0.1", "1e10", "0.5", "-3", "1", "0", "-1", "2.0", "1e-320", "1024"]:
        kv = float(k)
        z = k if k[0] != "-" else "(%s)" % k
        for op, f in BIN.items():
            o.op("r", "x %s %s" % (op, z), "r", lambda a, f=f, kv=kv: (lambda r: r)(f(a, kv)) if not (kv in (0.5, -1, 2, 3, -3, 0.1, 10, 7) and False) else None, ones(RV if op != "**" else []))
            o.op("r", "%s %s x" % (z, op), "r", lambda a, f=f, kv=kv: f(kv, a), ones(RV if op != "**" else []))
        for op, f in CMP.items():
            o.op("r", "x %s %s" % (op, z), "b", lambda a, f=f, kv=kv: f(a, kv), ones(RV + [kv]))
    # powers with a constant exponent may be computed in other ways: compared up to rounding
    for k in ["2", "3", "0.5", "-1", "1", "0", "4", "10", "1.5", "-0.5"]:
        kv = float(k)
        for op in ("**", "pow"):
            if op == "pow" and ("." in k): continue
            o.op("r", "x %s (%s)" % (op, k), "r", lambda a, kv=kv: Near(powdef(a, kv), 1e-14), ones(UV))
    return o


def powdef(a, b):
    if a != a or math.isinf(a) or a == 0 or a < 0 and b != int(b): raise U
    r = pow_(a, b)
    if not 1e-300 < abs(r) < 1e300: raise U
    return r


def skipnone(v):
    if v is None: raise U
    return v


def trees():
    o = Ops("tree")
    V = [0.1, 0.2, 1e16, -1e16, 1.0, 3.0, 1e308, -0.0] if not THOROUGH else [0.1, 0.2, 0.3, 1e16, -1e16, 1.0, 3.0, 1e308, -1e308, -0.0, 5e-324, INF, NAN]
    BINOPS = "+-*/"
    prec = {"+": 1, "-": 1, "*": 2, "/": 2}
    for p, q in pairs(BINOPS, BINOPS):
        tri = list(itertools.product(V, repeat=3))
        l = lambda a, b, c, p=p, q=q: BIN[q](BIN[p](a, b), c)
        r = lambda a, b, c, p=p, q=q: BIN[p](a, BIN[q](b, c))
        o.op("rrr", "(x %s y) %s w" % (p, q), "r", l, tri)
        o.op("rrr", "x %s (y %s w)" % (p, q), "r", r, tri)
        o.op("rrr", "x %s y %s w" % (p, q), "r", l if prec[p] >= prec[q] else r, tri)
        o.op("rrr", "-x %s y %s w" % (p, q), "r", lambda a, b, c, p=p, q=q: (BIN[q](BIN[p](-a, b), c) if prec[p] >= prec[q] else BIN[p](-a, BIN[q](b, c))), tri)
    duo = list(pairs(RV, RV))
    for e, f in [("x + y - y", lambda a, b: a + b - b), ("x - y + y", lambda a, b: a - b + b), ("x * y / y", lambda a, b: div(a * b, b)), ("x / y * y", lambda a, b: div(a, b) * b), ("x - x", lambda a, b: a - a),
                 ("x / x", lambda a, b: div(a, a)), ("0.0 * x", lambda a, b: 0.0 * a), ("x + 0.0", lambda a, b: a + 0.0), ("0.0 - x", lambda a, b: 0.0 - a), ("-(x - y)", lambda a, b: -(a - b)), ("y - x", lambda a, b: b - a),
                 ("sqr(x) - sqr(y)", lambda a, b: a * a - b * b), ("x * y + x * y", lambda a, b: a * b + a * b), ("abs(-x)", lambda a, b: abs(a)), ("sqrt(sqr(x))", lambda a, b: sqrt(a * a)),
                 ("x * y + 1", lambda a, b: a * b + 1), ("1 - x * y", lambda a, b: 1 - a * b), ("x * 2 - x", lambda a, b: a * 2 - a), ("-x * y", lambda a, b: -a * b), ("int(x) + frac(x)", lambda a, b: inte(a) + frac(a))]:
        o.op("rr", e, "r", f, duo)
    for e, f in [("(x < y) or (x >= y)", lambda a, b: a < b or a >= b), ("(x = y) <> (x <> y)", lambda a, b: True), ("not (x <= y) and not (x > y)", lambda a, b: not a <= b and not a > b), ("x = x", lambda a, b: a == a),
                 ("x <> x", lambda a, b: a != a), ("x - y = 0", lambda a, b: a - b == 0), ("(x < y) = (y > x)", lambda a, b: True), ("abs(x) >= 0", lambda a, b: abs(a) >= 0)]:
        o.op("rr", e, "b", f, duo)
    return o


def complexes():
    o = Ops("complex")
    cc = list(pairs(CV, CV))
    RS = [k / 2 for k in range(-10, 11)] + [7.25, -0.1, 1e-3, 10.0, -10.0]
    IS = list(range(-12, 13)) + [16]
    for op, f in CBIN.items():
        b = op in ("=", "<>")
        exact = op in "+-" or b
        g = (lambda *a, f=f: f(*a)) if exact else near1(f)
        res = "b" if b else "c"
        o.op("cc", "c %s d" % op, res, g, cc)
        o.op("cr", "c %s y" % op, res, g, pairs(CV, RS))
        o.op("rc", "x %s d" % op, res, g, pairs(RS, CV))
        for t in "il":
            o.op("c" + t, "c %s %s" % (op, NAME[t, 1]), res, g, pairs(CV, IS))
            o.op(t + "c", "%s %s d" % (NAME[t, 0], op), res, g, pairs(IS, CV))
        o.op("cc", "fc(c) %s fc(d)" % op, res, g, cc)
        o.op("cc", "(c) %s (d + 0)" % op, res, g, cc)
        o.op("c", "c %s c" % op, res, lambda a, g=g: g(a, a), ones(CV))
        if not b:
            for dst, pre in [("c", ""), ("d", ""), ("e", ""), ("ca[2]", ""), ("rc.z", ""), ("q^.z", "")]:
                o.op("cc", "%s := c %s d; pc(%s)" % (dst, op, dst), None, g, cc)
                o.op("cc", "setc(%s, c %s d); pc(%s)" % (dst, op, dst), None, g, cc)
            o.op("cc", "ca[1] := c; ca[2] := d; ca[3] := ca[1] %s ca[2]; pc(ca[3])" % op, None, g, cc)
            o.op("cc", "ca[1] := c; ca[2] := d; ca[3] := ca[1] %s ca[2]; pc(ca[1]); write(' '); pc(ca[2])" % op, None, lambda a, b2: fmt(a) + " " + fmt(b2), cc)
    for op in ("**",):
        o.op("cr", "c ** y", "c", near1(cpow, 1e-11), pairs(CV, RS))
        o.op("ci", "c ** j", "c", near1(cpow, 1e-11), pairs(CV, IS))
    o.op("ci", "c pow j", "c", near1(cpow, 1e-11), pairs(CV, IS))
    for n, f in CUN.items():
        for arg, kinds in [("c", "c"), ("fc(c)", "c"), ("(c)", "c"), ("ca[2]", "c"), ("q^.z", "c"), ("(c + d)", "cc")]:
            pre = "%s := c; " % arg if "[" in arg or "^" in arg else ""
            e = "%s(%s)" % (n, arg) if n not in "+-" else "%s%s" % (n, arg)
            g = near1(f, 1e-11)
            o.op(kinds, e, "c", g if kinds == "c" else lambda a, b, g=g: g(a + b), ones(CV) if kinds == "c" else cc, pre)
    for n, f in CRE.items():
        for arg, kinds in [("c", "c"), ("fc(c)", "c"), ("ca[2]", "c"), ("rc.z", "c"), ("c + d", "cc"), ("c - d", "cc")]:
            pre = "%s := c; " % arg if "[" in arg or "." in arg else ""
            g = near1(f) if n not in ("re", "im") else f
            h = g if kinds == "c" else (lambda a, b, g=g: g(a + b)) if "+" in arg else (lambda a, b, g=g: g(a - b))
            o.op(kinds, "%s(%s)" % (n, arg), "r", h, ones(CV) if kinds == "c" else cc, pre)
    for a, b in pairs("riu", "ril"):
        va, vb = [z if z == z and abs(z) < 1e200 else 1.5 for z in TY[a][1][:9]], TY[b][1][:9]
        o.op(a + b, "cmplx(%s, %s)" % (NAME[a, 0], NAME[b, 1]), "c", lambda x, y: complex(float(x), float(y)), pairs(va, vb))
        o.op(a + b, "polar(%s, %s)" % (NAME[a, 0], NAME[b, 1]), "c", lambda x, y: Near(complex(x * cos(float(y)), x * sin(float(y)))), pairs(va, vb))
    o.op("r", "cofr(x)", "c", lambda a: complex(a, 0.0), ones(RS))
    o.op("i", "cofi(i)", "c", lambda a: complex(a, 0.0), ones(IV))
    o.op("i", "fc(i)", "c", lambda a: complex(a, 0.0), ones(IV))
    o.op("l", "fc(l)", "c", lambda a: complex(a, 0.0), ones(LV))
    o.op("u", "fc(u)", "c", lambda a: complex(a, 0.0), ones(SV))
    o.op("r", "fc(x)", "c", lambda a: complex(a, 0.0), ones(RS))
    for d in ("e", "ca[3]", "rc.z", "q^.z"):
        for t in "rilu":
            o.op(t, "%s := %s; pc(%s)" % (d, NAME[t, 0], d), None, lambda a: complex(float(a), 0.0), ones(RS if t == "r" else TY[t][1]))
            o.op(t, "%s := cmplx(9, 9); setc(%s, %s); pc(%s)" % (d, d, NAME[t, 0], d), None, lambda a: complex(float(a), 0.0), ones(RS if t == "r" else TY[t][1]))
    o.op("cc", "d := c; c := cmplx(5, 6); pc(d)", None, lambda a, b: a, cc)
    o.op("cc", "rc.z := c; rc.k := 7; rc.t := 8; rc.f := 1.5; q^ := rc; pc(q^.z)", None, lambda a, b: a, cc)
    o.op("cc", "cmplx(re(c), im(d))", "c", lambda a, b: complex(a.real, b.imag), cc)
    o.op("cc", "cmplx(im(c), re(c))", "c", lambda a, b: complex(a.imag, a.real), cc)
    o.op("cc", "c := cmplx(im(c), re(c)); pc(c)", None, lambda a, b: complex(a.imag, a.real), cc)
    o.op("cc", "c := cmplx(re(d), re(c)); pc(c)", None, lambda a, b: complex(b.real, a.real), cc)
    for p, q in pairs("+-*", "+-*"):
        g = lambda a, b, p=p, q=q: CBIN[q](CBIN[p](a, b), a) if (p == "*") >= (q == "*") else CBIN[p](a, CBIN[q](b, a))
        o.op("cc", "c %s d %s c" % (p, q), "c", lambda a, b, g=g: NearS(g(a, b), 1 + abs(a) + abs(b)), cc)
        o.op("cc", "c %s (d %s c)" % (p, q), "c", lambda a, b, p=p, q=q: NearS(CBIN[p](a, CBIN[q](b, a)), 1 + abs(a) + abs(b)), cc)
    return o


LIBM = ("sin(", "cos(", "tan(", "arctan", "ln(", "exp(", "**", "pow ")


def loose(g, tapes):
    """for a target whose C library rounds its functions differently"""
    for t, w in tapes:
        if not isinstance(w, Near) and any(n in g.ops[int(t.split()[0])] for n in LIBM):
            try:
                v = real(int(w))
                if math.isfinite(v) and len(w) > 2: w = Near(v, 4e-15)
            except ValueError:
                pass
        yield t, w


def NearS(v, scale):
    n = Near(v)
    n.tol = 1e-13 * scale**3 / max(abs(v), 1e-30)
    return n


PROBE = """
var n: integer;
function ti: integer; begin n := n + 1; ti := n; end;
function tr: real; begin n := n + 1; tr := n + 0.5; end;
function tc: complex; begin n := n + 1; tc := cmplx(n, -n); end;
"""


def once():
    """operands with side effects: every operand is evaluated once, whatever conversion it needs"""
    FN = {"ti": lambda n: n, "tr": lambda n: n + 0.5, "tc": lambda n: complex(n, -n)}

    def show(v): return "%.6f %.6f" % (v.real, v.imag) if isinstance(v, complex) else "%.6f" % v
    for a, b in pairs(FN, FN):
        for op in "+-*/":
            x, y = FN[a](1), FN[b](2)
            if "tc" not in (a, b) and "tr" not in (a, b) and op != "/": continue
            v = CBIN[op](x, y)
            if "tc" in (a, b):
                yield Case("once %s %s %s" % (a, op, b), "n := 0; e := %s %s %s; writeln(re(e):1:6, ' ', im(e):1:6, ' ', n:1);" % (a, op, b), "%s 2\n" % show(complex(v)), decl="var e: complex;")
            else:
                yield Case("once %s %s %s" % (a, op, b), "n := 0; x := %s %s %s; writeln(x:1:6, ' ', n:1);" % (a, op, b), "%s 2\n" % show(float(v)), decl="var x: real;")
    for a in FN:
        v = FN[a](1)
        yield Case("once assign %s" % a, "n := 0; e := %s; writeln(re(e):1:6, ' ', im(e):1:6, ' ', n:1);" % a, "%s 1\n" % show(complex(v)), decl="var e: complex;")
        yield Case("once par %s" % a, "n := 0; w(%s);" % a, "%s 1\n" % show(complex(v)), decl="procedure w(e: complex); begin writeln(re(e):1:6, ' ', im(e):1:6, ' ', n:1); end;")
        if a != "tc":
            yield Case("once cmplx %s" % a, "n := 0; e := cmplx(%s, %s); writeln(re(e):1:6, ' ', im(e):1:6, ' ', n:1);" % (a, a), "%s %s 2\n" % (show(float(v)), show(float(FN[a](2)))), decl="var e: complex;")
            yield Case("once rpar %s" % a, "n := 0; w(%s);" % a, "%s 1\n" % show(float(v)), decl="procedure w(e: real); begin writeln(e:1:6, ' ', n:1); end;")
            yield Case("once rassign %s" % a, "n := 0; e := %s; writeln(e:1:6, ' ', n:1);" % a, "%s 1\n" % show(float(v)), decl="var e: real;")
            yield Case("once sqrt %s" % a, "n := 0; e := sqr(sqrt(%s)); writeln(e:1:6, ' ', n:1);" % a, "%s 1\n" % show(float(v)), decl="var e: real;")
        else:
            yield Case("once re", "n := 0; writeln(re(tc):1:6, ' ', n:1);", "1.000000 1\n")
            yield Case("once abs", "n := 0; writeln(abs(tc):1:6, ' ', n:1);", "%s 1\n" % show(abs(v)))
            yield Case("once neg", "n := 0; e := -tc; writeln(re(e):1:6, ' ', im(e):1:6, ' ', n:1);", "-1.000000 1.000000 1\n", decl="var e: complex;")
            yield Case("once sqr", "n := 0; e := sqr(tc); writeln(re(e):1:6, ' ', im(e):1:6, ' ', n:1);", "%s 1\n" % show(v * v), decl="var e: complex;")


def main():
    chk = Check("C03", "exploration")
    cfgs = eval(__import__("os").environ.get("C3","0")) or [("-O0",), ("-O2",), ("-m32", "-O1")] + ([("-O1",), ("-m32", "-O0"), ("-m32", "-O3"), ("-O3",), ("-O1", "-g"), ("-O1", "-Cr"), ("-no-memcpy", "-O1")] if THOROUGH else [])
    groups = [f() for f in (reals, places, trees, complexes)]
    jobs, n, seqs = [], 0, set()
    for g in groups:
        src = g.program()
        for t, w in g.tapes[::997]:
            chk.samples.append({"driver": g.name, "operation": g.ops[int(t.split()[0])], "tape": t, "expected": w})
        seqs |= set((g.name, t) for t, _ in g.tapes)
        for c in cfgs:
            k = max(1, len(g.tapes) // 20000 + 1)
            tapes = list(loose(g, g.tapes)) if "-m32" in c else g.tapes
            jobs += [(g.name, src, c, tapes[i::k]) for i in range(k)]
    n = run_tapes(chk, jobs, chunk=20000)
    cases = list(once())
    n += run_cases(chk, cases, cfgs, header=PROBE)
    chk.finish(evaluations=n, distinct_nontrivial=len(seqs) + len(cases), exhaustive=True, operations=sum(len(g.ops) for g in groups), configurations=[" ".join(c) for c in cfgs],
               rule="every operator, comparison, conversion and function of real and complex operands (real, integer, longint and subrange operands, stored in variables, elements, fields, "
               "pointer targets and results) on every tuple of the listed operand values, all expressions of two operators over eight values; real results compared bit for bit with the IEEE operation, complex "
               "products, quotients and functions within 1e-11 of the mathematical value; each operand evaluated once")
