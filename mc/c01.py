"""C01: every integer/ordinal/boolean expression evaluates to its mathematical value (bounded-exhaustive enumeration)."""
import itertools
from core import *
from ordexpr import *

VALS = {
    "int": [0, 1, -1, 2, -2, 3, 7, -7, 8, 31, 127, -128, 128, 255, 256, 32767, -32768, 65536, -65537, 1000003, 2**30, -2**30,
            INTMAX, INTMAX - 1, INTMIN, INTMIN + 1],
    "long": [0, 1, -1, 2, -2, 3, 7, -7, 63, 255, -256, 65536, INTMAX, INTMIN, 2**31, -2**31 - 1, 2**32, 2**32 + 5, -2**32, 10**12 + 7,
             2**62, -2**62, LMAX, LMIN, LMAX - 1, LMIN + 1],
    ("sub", -100, 100): [-100, -99, -7, -1, 0, 1, 2, 3, 10, 99, 100],
    ("sub", 0, 255): [0, 1, 2, 3, 15, 16, 127, 128, 200, 254, 255],
    ("sub", 1, 10): [1, 2, 3, 5, 9, 10],
    ("sub", -5, 70000): [-5, -4, -1, 0, 1, 2, 17, 255, 256, 32768, 65535, 65536, 69999, 70000],
    "char": [0, 1, 9, 10, 32, 48, 57, 65, 90, 97, 122, 127, 128, 200, 254, 255],
    "bool": [0, 1],
    "enum": [0, 1, 2, 3, 4],
}
SUBS = [t for t in VALS if isinstance(t, tuple)]
SHORT = {  # for deeper shapes
    "int": [0, 1, -1, 2, -3, 7, -8, 100, 65537, INTMAX, INTMIN],
    "long": [0, 1, -1, 2, -3, 9, 2**31, -2**31 - 1, 2**33 + 1, LMAX, LMIN],
    "bool": [0, 1], "char": [0, 65, 128, 255], "enum": [0, 1, 3, 4],
}
for t in SUBS:
    SHORT[t] = sorted(set([t[1], t[1] + 1, 1, 2, 3, t[2] // 2, t[2]]))

NAMES = {"int": "integer", "long": "longint", "char": "char", "bool": "boolean", "enum": "en"}
for i, t in enumerate(SUBS):
    NAMES[t] = "sr%d" % i

HEADER = "type en = (e0, e1, e2, e3, e4);\n" + "".join("sr%d = %d..%d;\n" % (i, t[1], t[2]) for i, t in enumerate(SUBS)) + """
  rec = record pad: char; i: integer; l: longint; c: char; b: boolean; e: en; """ + \
    " ".join("s%d: sr%d;" % (i, i) for i in range(len(SUBS))) + """ end;
var ge: array [0..4] of en; gri: integer; grl: longint;
procedure showb(b: boolean); begin if b then write('T ') else write('F ') end;
procedure showi(i: integer); begin write(i:1, ' ') end;
procedure showl(l: longint); begin write(l:1, ' ') end;
procedure geninit; begin ge[0] := e0; ge[1] := e1; ge[2] := e2; ge[3] := e3; ge[4] := e4 end;
"""


def field(t):
    return {"int": "i", "long": "l", "char": "c", "bool": "b", "enum": "e"}.get(t) or "s" + NAMES[t][2:]


def readto(var, t):
    if t == "long":
        return "read(grl); %s := grl; " % var
    if t == "char":
        return "read(gri); %s := chr(gri); " % var
    if t == "bool":
        return "read(gri); %s := gri <> 0; " % var
    if t == "enum":
        return "read(gri); %s := ge[gri]; " % var
    return "read(gri); %s := gri; " % var


def emit(e, sink):
    """Pascal statement(s) showing expression text e of type t, and the formatter of the expected value"""
    txt, t = e
    b = base(t)
    if b == "bool":
        if sink == "cond":
            return "if %s then write('T ') else write('F ')" % txt
        if sink == "assign":
            return "rb := %s; if rb then write('T ') else write('F ')" % txt
        if sink == "arg":
            return "showb(%s)" % txt
        if sink == "ord":
            return "if ord(%s) = 1 then write('T ') else write('F ')" % txt
        return "while %s do begin write('T '); goto 1 end; write('F '); 1:;" % txt
    if b == "char":
        if sink == "assign":
            return "rc := %s; write(ord(rc):1, ' ')" % txt
        return "write(ord(%s):1, ' ')" % txt
    if b == "enum":
        if sink == "assign":
            return "re := %s; write(ord(re):1, ' ')" % txt
        return "write(ord(%s):1, ' ')" % txt
    if sink == "assign":
        return "%s := %s; write(%s:1, ' ')" % (("rl", txt, "rl") if b == "long" else ("ri", txt, "ri"))
    if sink == "arg":
        return "show%s(%s)" % ("l" if b == "long" else "i", txt)
    if sink == "cond":  # int to long widening on assignment
        return "rl := %s; write(rl:1, ' ')" % txt
    return "write(%s:1, ' ')" % txt


def fmt(v, t):
    return ("T " if v else "F ") if base(t) == "bool" else "%d " % v


class Gen:
    def __init__(self):
        self.rows = 0
        self.dist = set()
        self.n = 0

    def case(self, key, leaves, exprs, vals, sink="write", forms=None, maxrows=700):
        """leaves: types of operands a,b,c..; exprs: list of (text, tree); vals: per-operand value lists"""
        names = []
        decl = ["var n, k, ri: integer; rl: longint; rb: boolean; rc: char; re: en;\n"]
        pre, glob, setup, wrap = [], [], [], None
        for i, t in enumerate(leaves):
            nm = "abcd"[i]
            f = (forms or {}).get(i, "local")
            tn = NAMES[t]
            if f == "local":
                decl.append("%s: %s;\n" % (nm, tn)); setup.append(readto(nm, t))
            elif f == "global":
                glob.append("var g%s@N: %s;" % (nm, tn)); setup.append(readto("g%s@N" % nm, t))
            elif f == "arr":
                decl.append("%s: array [3..5] of %s; j%s: integer;\n" % (nm, tn, nm))
                setup.append("j%s := 4; " % nm + readto("%s[j%s]" % (nm, nm), t))
            elif f == "rec":
                decl.append("%s: rec;\n" % nm); setup.append(readto("%s.%s" % (nm, field(t)), t))
            elif f == "ptr":
                decl.append("%s: ^%s;\n" % (nm, tn)); setup.append("new(%s); " % nm + readto(nm + "^", t))
            elif f == "func":
                glob.append("var g%s@N: %s; function f%s@N: %s; begin f%s@N := g%s@N end;" % (nm, tn, nm, tn, nm, nm))
                setup.append(readto("g%s@N" % nm, t))
            elif f == "funcarg":
                glob.append("function f%s@N(x: %s): %s; begin f%s@N := x end;" % (nm, tn, tn, nm))
                decl.append("%s: %s;\n" % (nm, tn)); setup.append(readto(nm, t))
            elif f in ("param", "varparam", "nested"):
                decl.append("%s: %s;\n" % (nm, tn)); setup.append(readto(nm, t))
        ref = {"local": "%s", "global": "g%s@N", "arr": "%s[j%s]", "rec": "%s.F", "ptr": "%s^", "func": "f%s@N", "funcarg": "f%s@N(%s)",
               "param": "p%s", "varparam": "v%s", "nested": "%s"}

        def name(i, t):
            f = (forms or {}).get(i, "local")
            s = ref[f]
            s = s.replace("%s", "abcd"[i])
            return s.replace(".F", "." + field(t))
        self.sub = {"abcd"[i]: name(i, t) for i, t in enumerate(leaves)}
        rows = []
        for row in itertools.product(*vals):
            r = [e.eval(row) for _, e in exprs]
            if all(x is not None for x in r):
                rows.append((row, r))
        if not rows:
            return None
        if len(rows) > maxrows:
            step = len(rows) / maxrows
            rows = [rows[int(i * step)] for i in range(maxrows)]
        self.rows += len(rows) * len(exprs)
        self.n += 1
        stm = "; ".join(emit((txt, e.t), sink) for txt, e in exprs)
        fl = {(forms or {}).get(i, "local") for i in range(len(leaves))}
        inner = ""
        call = stm
        if fl & {"param", "varparam", "nested"}:
            ps, as_ = [], []
            for i, t in enumerate(leaves):
                f = (forms or {}).get(i, "local")
                nm = "abcd"[i]
                if f == "param":
                    ps.append("p%s: %s" % (nm, NAMES[t])); as_.append(nm)
                elif f == "varparam":
                    ps.append("var v%s: %s" % (nm, NAMES[t])); as_.append(nm)
            inner = "procedure inner%s;\nlabel 1;\nbegin %s end;\n" % ("(" + "; ".join(ps) + ")" if ps else "", stm)
            call = "inner" + ("(" + ", ".join(as_) + ")" if as_ else "")
        body = "geninit; read(n);\nfor k := 1 to n do begin\n%s\n%s;\nwriteln end" % (
            "".join(setup), call)
        stdin = "%d\n" % len(rows) + "".join(" ".join(map(str, row)) + "\n" for row, _ in rows)
        expect = "".join("".join(fmt(v, e.t) for v, (_, e) in zip(r, exprs)) + "\n" for row, r in rows)
        return Case(key, body, expect, decl="label 1;\n" + "".join(decl) + inner, glob="\n".join(glob), stdin=stdin)

    def leaf(self, i, t):
        return Leaf(self.names[i], t, idx=i)


def tname(t):
    return NAMES[t] if isinstance(t, str) else "%d..%d" % t[1:]


def leafs(types, forms=None):
    out = []
    for i, t in enumerate(types):
        f = (forms or {}).get(i, "local")
        nm = "abcd"[i]
        txt = {"local": nm, "global": "g%s@N" % nm, "arr": "%s[j%s]" % (nm, nm), "rec": "%s.%s" % (nm, field(t)), "ptr": nm + "^",
               "func": "f%s@N" % nm, "funcarg": "f%s@N(%s)" % (nm, nm), "param": "p" + nm, "varparam": "v" + nm, "nested": nm}[f]
        out.append(Leaf(txt, t, idx=i))
    return out


INTLIKE = ["int", "long"] + SUBS
SINKS = ["write", "assign", "cond", "arg"]
BSINKS = ["cond", "assign", "arg", "ord", "while"]


def cases(g):
    # A: every operator x every pair of operand types x every pair of boundary values, both sinks
    for ta, tb in itertools.product(INTLIKE, INTLIKE):
        a, b = leafs([ta, tb])
        for n, op in enumerate(ARITH + CMP):
            e = Bin(op, a, b)
            # overflowing rows are dropped per expression, so one expression per case
            for sink in (("write", "assign") if op not in CMP else (BSINKS[n % 5], BSINKS[(n + 2) % 5])):
                vb = VALS[tb] if op not in ("shl", "shr", "pow") else [v for v in range(-3, 64) if fit(v, tb) is not None]
                yield g.case("A %s %s %s sink=%s" % (tname(ta), op, tname(tb), sink), [ta, tb], [(e.show(0), e)], [VALS[ta], vb], sink)
    # B: literal operands
    lits = [0, 1, 2, 3, 7, 10, 100, -1, -7, 255, 65536, INTMAX, INTMIN + 1, 2**31, 2**40 + 1, -2**33]
    for t in INTLIKE:
        for n, op in enumerate(ARITH + CMP):
            for v in lits:
                if op in ("shl", "shr", "pow"):
                    if not 0 <= v <= 10: continue
                if 2**31 <= abs(v) < 2**32 or v in (INTMIN, LMIN):
                    continue  # decimal literals of that size are 32-bit patterns in lacsap
                (a,) = leafs([t])
                ex = Bin(op, a, lit(v))
                yield g.case("B %s %s lit %d" % (tname(t), op, v), [t], [(ex.show(0), ex)], [VALS[t]], SINKS[n % 2] if op not in CMP else "cond")
                vs = VALS[t] if op not in ("shl", "shr", "pow") else [x for x in range(0, 64) if fit(x, t) is not None]
                ex = Bin(op, lit(v), a)
                yield g.case("B lit %d %s %s" % (v, op, tname(t)), [t], [(ex.show(0), ex)], [vs], SINKS[n % 2] if op not in CMP else "cond")
    # C: comparisons of the other ordinal types
    for t in ("char", "bool", "enum"):
        a, b = leafs([t, t])
        for op in CMP:
            e = Bin(op, a, b)
            for sink in BSINKS:
                yield g.case("C %s %s sink=%s" % (t, op, sink), [t, t], [(e.show(0), e)], [VALS[t]] * 2, sink)
    # D: where the operands live
    forms = ["local", "global", "arr", "rec", "ptr", "func", "funcarg", "param", "varparam", "nested"]
    for fa, fb in itertools.product(forms, forms):
        for (ta, tb), ops in ((("int", "int"), ("-", "<", "div")), (("long", "int"), ("-", "<=")), (("int", "long"), ("*", ">")),
                              (("char", "char"), ("<",)), (("bool", "bool"), ("and", "<=")), (("enum", "enum"), (">=",)),
                              ((SUBS[0], SUBS[3]), ("-", "<")), (("long", "long"), ("mod",))):
            fm = {0: fa, 1: fb}
            a, b = leafs([ta, tb], fm)
            es = [Bin(o, a, b) for o in ops]
            for e in es:
                yield g.case("D %s:%s %s %s:%s" % (fa, tname(ta), e.op, fb, tname(tb)), [ta, tb], [(e.show(0), e)], [SHORT[ta], SHORT[tb]],
                             "cond" if e.t == "bool" else "write", fm)
    # E: unary operators and built-in functions
    for t in INTLIKE + ["char", "bool", "enum"]:
        fs = ["abs", "sqr", "odd", "-", "sign", "not", "succ", "pred", "ord"] if t in INTLIKE else \
            ["ord", "succ", "pred"] + (["not"] if t == "bool" else [])
        for fa in forms:
            for op in fs:
                if op == "ord" and t == "long":
                    continue
                (a,) = leafs([t], {0: fa})
                e = Un(op, a)
                for sink in (("cond",) if e.t == "bool" else ("write", "assign")):
                    if isinstance(t, tuple) and op in ("succ", "pred"):
                        vs = [v for v in VALS[t] if fit(v + (1 if op == "succ" else -1), t) is not None]
                    elif op in ("succ", "pred") and t in ("bool", "enum"):
                        vs = VALS[t][:-1] if op == "succ" else VALS[t][1:]
                    else:
                        vs = VALS[t]
                    yield g.case("E %s %s %s sink=%s" % (op, fa, tname(t), sink), [t], [(e.show(0), e)], [vs], sink, {0: fa})
    for t in INTLIKE + ["char", "enum"]:
        for op in ("succ", "pred"):
            a, b = leafs([t, "int"])
            e = Fn2(op, a, b)
            vs = [-3, -1, 0, 1, 2, 4, 5, 60]
            rng = (lambda v: True)
            ex = Fn2(op, a, b)
            if t == "enum":
                ok = [(x, y) for x in VALS[t] for y in vs if 0 <= (x + y if op == "succ" else x - y) <= 4]
                for y in vs:
                    xs = [x for x, yy in ok if yy == y]
                    if xs:
                        yield g.case("E2 %s enum by %d" % (op, y), [t, "int"], [(e.show(0), e)], [xs, [y]], "write")
            else:
                yield g.case("E2 %s %s" % (op, tname(t)), [t, "int"], [(e.show(0), e)], [VALS[t], vs], "assign")
            for y in (1, 2, 3):
                e = Fn2(op, a, lit(y))
                vals = [v for v in VALS[t] if t != "enum" or 0 <= (v + y if op == "succ" else v - y) <= 4]
                yield g.case("E2 %s %s lit %d" % (op, tname(t), y), [t], [(e.show(0), e)], [vals], "write")
    for ta, tb in itertools.product(INTLIKE, INTLIKE):
        for op in ("min", "max"):
            a, b = leafs([ta, tb])
            e = Fn2(op, a, b)
            yield g.case("E3 %s %s %s" % (op, tname(ta), tname(tb)), [ta, tb], [(e.show(0), e)], [VALS[ta], VALS[tb]], "write")
    # chr/ord round trip, inc and dec
    yield raw(g, "F chr/ord", "var i: integer; begin for i := 0 to 255 do if (ord(chr(i)) <> i) or (chr(ord(chr(i))) <> chr(i)) "
              "then write(i:1, ' ') end;", "")
    for t in INTLIKE + ["char", "enum"]:
        for fa in forms:
            if fa in ("func", "funcarg"): continue
            for op, d in (("inc", 1), ("dec", -1)):
                (a,) = leafs([t], {0: fa})
                e = Fn2("succ", a, lit(d))
                vs = [v for v in VALS[t] if fit(v + d, t) is not None and (t != "enum" or 0 <= v + d <= 4)]
                c = g.case("F %s %s %s" % (op, fa, tname(t)), [t], [(a.text, e)], [vs], "write", {0: fa})
                show = emit((a.text, t), "write")
                c.body = c.body.replace(show, "%s(%s); %s" % (op, a.text, show))
                c.decl = c.decl.replace(show, "%s(%s); %s" % (op, a.text, show))
                yield c
    # G: two operators: every pair, every tree shape, minimal and full parentheses
    ops = ARITH
    mixes = [("int", "int", "int"), ("long", "int", "int"), ("int", "int", "long"), (SUBS[0], "int", "int"), ("int", SUBS[3], "long"), ("int", "long", SUBS[1])]
    for o1, o2 in itertools.product(ops, ops):
        for mi, mix in enumerate(mixes):
            a, b, c = leafs(mix)
            for shape in (0, 1):
                e = Bin(o2, Bin(o1, a, b), c) if shape == 0 else Bin(o1, a, Bin(o2, b, c))
                vals = [SHORT[t] for t in mix]
                if o1 in ("shl", "shr", "pow"): vals[1] = [v for v in (0, 1, 2, 5) if fit(v, mix[1]) is not None]
                if o2 in ("shl", "shr", "pow"): vals[2] = [v for v in (0, 1, 2, 5) if fit(v, mix[2]) is not None]
                texts = sorted(set((e.show(0), e.show(1))))
                yield g.case("G %s [%s]" % (e.show(1), ",".join(map(tname, mix))), mix, [(x, e) for x in texts], vals, "write", maxrows=120)
    for u in ("-", "abs", "sqr", "not"):
        for o in ops:
            for mix in (("int", "int"), ("long", "int"), (SUBS[0], "int"), ("int", "long"), (SUBS[3], "long")):
                a, b = leafs(mix)
                vals = [SHORT[t] for t in mix]
                if o in ("shl", "shr", "pow"): vals[1] = [0, 1, 2, 5]
                for e in (Bin(o, Un(u, a), b), Bin(o, a, Un(u, b)), Un(u, Bin(o, a, b))):
                    if u == "-" and o == "pow" and e.t == e.ct if hasattr(e, "ct") else False:
                        continue
                    txt = sorted(set((e.show(0), e.show(1))))
                    if o in ("pow", "shl", "shr") and u == "-":
                        txt = [e.show(1)] if isinstance(e, Un) else [Bin(o, Par(e.l), Par(e.r)).show(0)]
                    yield g.case("G1 %s [%s]" % (e.show(1), ",".join(map(tname, mix))), mix, [(x, e) for x in txt], vals, "write", maxrows=120)
    for u in ("succ", "pred", "odd", "sign"):
        for o in ops:
            for mix in (("int", "int"), ("int", "long"), ("long", "int"), (SUBS[0], SUBS[3]), (SUBS[3], "long")):
                a, b = leafs(mix)
                vals = [SHORT[t] for t in mix]
                if o in ("shl", "shr", "pow"): vals[1] = [v for v in (0, 1, 2, 5) if fit(v, mix[1]) is not None]
                e = Un(u, Bin(o, a, b))
                yield g.case("G2 %s [%s]" % (e.show(0), ",".join(map(tname, mix))), mix, [(e.show(0), e)], vals, "cond" if u == "odd" else "write", maxrows=120)
    # H: relations over arithmetic on both sides, combined by logic
    for rel in CMP:
        for o1, o2 in itertools.product(("+", "-", "*", "div", "mod"), repeat=2):
            mix = ("int", "int", "int", "int")
            a, b, c, d = leafs(mix)
            e = Bin(rel, Bin(o1, a, b), Bin(o2, c, d))
            yield g.case("H %s" % e.show(1), mix, [(e.show(0), e), (e.show(1), e)], [[0, 1, -3, 7], [2, -3, 5], [1, -8, 100], [1, 4, -2]], "cond")
    # I: boolean expressions up to three operators over p, q, r
    bops = ("and", "or", "xor", "and_then", "or_else", "=", "<>", "<", "<=", ">", ">=")
    p, q, r = leafs(["bool"] * 3)

    def nots(x):
        return (x, Un("not", x))
    i = 0
    for o1, o2 in itertools.product(bops, bops):
        for shape in (0, 1):
            for np_, nq, nr, nm in itertools.product((0, 1), repeat=4):
                P, Q, R = nots(p)[np_], nots(q)[nq], nots(r)[nr]
                if shape == 0:
                    e = Bin(o2, nots(Bin(o1, P, Q))[nm], R)
                else:
                    e = Bin(o1, P, nots(Bin(o2, Q, R))[nm])
                i += 1
                txt = sorted(set((e.show(0), e.show(1))))
                yield g.case("I %s" % e.show(1), ["bool"] * 3, [(x, e) for x in txt], [[0, 1]] * 3, BSINKS[i % 5] if len(txt) == 1 else BSINKS[i % 4])
    # J: short circuit with observable calls: every tree of two or three operators
    yield from shortcircuit(g)
    # K: depth three integer trees
    trip = ["+", "-", "*", "div", "mod", "and", "or"] if THOROUGH else ["+", "-", "*", "div", "and"]
    a, b, c, d = leafs(["int"] * 4)
    for o1, o2, o3 in itertools.product(trip, repeat=3):
        for n, e in enumerate((Bin(o3, Bin(o2, Bin(o1, a, b), c), d), Bin(o2, Bin(o1, a, b), Bin(o3, c, d)), Bin(o1, a, Bin(o2, b, Bin(o3, c, d))),
                               Bin(o3, Bin(o1, a, Bin(o2, b, c)), d), Bin(o1, a, Bin(o3, Bin(o2, b, c), d)))):
            txt = sorted(set((e.show(0), e.show(1))))
            yield g.case("K %s" % e.show(1), ["int"] * 4, [(x, e) for x in txt], [[1, -3, 100], [2, -7], [3, 0, -1], [5, -2]], "write")
    # L: sinks that are typed: constants of every width assigned
    for t in INTLIKE:
        for v in VALS[t]:
            if 2**31 <= abs(v) < 2**32: continue
            yield raw(g, "L const %d to %s" % (v, tname(t)), "var x: %s; begin x := %d; write(x:1) end;" % (NAMES[t], v) if v != LMIN and v != INTMIN else
                      "var x: %s; begin x := %d; x := x - 1; write(x:1) end;" % (NAMES[t], v + 1), "%d" % v)


class Par:
    """forces parentheses"""
    prec = 0

    def __init__(self, e):
        self.e, self.t = e, e.t
        if e.prec == 100:
            self.prec = 100

    def show(self, full):
        return self.e.show(1)

    def eval(self, env):
        return self.e.eval(env)


def raw(g, key, proc, expect):
    g.n += 1
    g.rows += 1
    return Case(key, "inner", expect, decl="procedure inner;\n" + proc)


def shortcircuit(g):
    ops = ("and_then", "or_else")
    leaves = "abcd"

    class L:
        def __init__(self, i): self.i = i
        def txt(self): return "t%s" % self.i

    def trees(lo, hi):
        if hi - lo == 1:
            yield ("leaf", lo)
            yield ("not", ("leaf", lo))
            return
        for m in range(lo + 1, hi):
            for l in trees(lo, m):
                for r in trees(m, hi):
                    for o in ops:
                        yield (o, l, r)

    def show(t):
        if t[0] == "leaf": return "f@N(%d)" % t[1]
        if t[0] == "not": return "not " + show(t[1])
        return "(%s) %s (%s)" % (show(t[1]), t[0], show(t[2]))

    def ev(t, env, log):
        if t[0] == "leaf":
            log.append(t[1])
            return env[t[1]]
        if t[0] == "not": return not ev(t[1], env, log)
        a = ev(t[1], env, log)
        if t[0] == "and_then": return ev(t[2], env, log) if a else False
        return True if a else ev(t[2], env, log)
    n = 4 if THOROUGH else 3
    for size in range(2, n + 1):
        for t in trees(0, size):
            if size == 4 and "not" in repr(t): continue
            rows = list(itertools.product((0, 1), repeat=size))
            exp = ""
            for row in rows:
                log = []
                v = ev(t, row, log)
                exp += "".join(map(str, log)) + ("T" if v else "F") + "\n"
            stdin = "%d\n" % len(rows) + "".join(" ".join(map(str, r)) + "\n" for r in rows)
            glob = "var v@N: array [0..3] of integer; function f@N(i: integer): boolean; begin write(i:1); f@N := v@N[i] = 1 end;"
            body = "read(n); for k := 1 to n do begin %s if %s then writeln('T') else writeln('F') end" % (
                " ".join("read(v@N[%d]);" % i for i in range(size)), show(t))
            g.n += 1
            g.rows += len(rows)
            yield Case("J " + show(t).replace("@N", ""), body, exp, decl="var n, k: integer;", glob=glob, stdin=stdin)


def main():
    chk = Check("C01", "exploration")
    g = Gen()
    cfgs = [("-O0",), ("-O2",), ("-m32", "-O1")]
    if THOROUGH:
        cfgs += [("-O1",), ("-O3",), ("-O1", "-g"), ("-m32", "-O0"), ("-m32", "-O2"), ("-no-memcpy", "-O1")]
    keys = set()

    def gen():
        for c in cases(g):
            if c is not None:
                if c.key in keys:
                    raise AssertionError("duplicate key " + c.key)
                keys.add(c.key)
                if g.n % 997 == 1:
                    chk.samples.append({"case": c.key, "body": c.body[:300], "expected": c.expect[:80]})
                yield c
    ev = run_cases(chk, gen(), cfgs, batch=50, header=HEADER)
    chk.finish(evaluations=ev, distinct_nontrivial=len(keys), exhaustive=True, operand_rows=g.rows,
               rule="a case is one expression shape (operators, operand types, operand storage, parenthesisation, sink) evaluated by the compiled program "
               "for every combination of boundary operand values on which the reference defines a result; distinct by shape; non-trivial: at least one defined row",
               configurations=[" ".join(c) for c in cfgs])
