"""C05: for statements visit exactly the values their bounds, set or array define, in order (bounds enumerated exhaustively around the extremes)."""
import itertools
from core import *

IMAX, IMIN = 2**31 - 1, -2**31
LMAX, LMIN = 2**63 - 1, -2**63
EN = ["e0", "e1", "e2", "e3", "e4", "e5"]
# name -> (pascal type, lo, hi, interesting values, ord text, read text, host lo, host hi)
T = {
    "int": ("integer", IMIN, IMAX, [IMIN, IMIN + 1, IMIN + 2, -2, -1, 0, 1, 2, 5, 255, 256, 258, IMAX - 2, IMAX - 1, IMAX]),
    "long": ("longint", LMIN, LMAX, [LMIN, LMIN + 1, -2, -1, 0, 1, 3, 2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**32 + 2, LMAX - 1, LMAX]),
    "sub": ("-5..5", -5, 5, [-5, -4, -1, 0, 1, 4, 5]),
    "pos": ("0..255", 0, 255, [0, 1, 2, 127, 128, 129, 254, 255]),
    "far": ("100000..100007", 100000, 100007, [100000, 100001, 100003, 100006, 100007]),
    "char": ("char", 0, 255, [0, 1, 2, 65, 67, 126, 127, 128, 129, 253, 254, 255]),
    "csub": ("'a'..'h'", 97, 104, [97, 98, 100, 103, 104]),
    "bool": ("boolean", 0, 1, [0, 1]),
    "enum": ("en", 0, 5, [0, 1, 2, 4, 5]),
    "esub": ("e1..e4", 1, 4, [1, 2, 3, 4]),
}
LIMIT = 40


def lit(t, v):
    if t in ("char", "csub"):
        return "'%s'" % chr(v) if 33 <= v < 127 and v != 39 else "chr(%d)" % v
    if t == "bool": return ("false", "true")[v]
    if t in ("enum", "esub"): return EN[v]
    return str(v)


def wr(t, v):
    return "write(%s:1, ' ')" % (v if t in ("int", "long", "sub", "pos", "far") else "ord(%s)" % v)


def rd(t, var):
    if t in ("char", "csub"): return "read(n); %s := chr(n); " % var
    if t == "bool": return "read(n); %s := n = 1; " % var
    if t in ("enum", "esub"): return "read(n); %s := ge[n]; " % var
    return ("read(l); %s := l; " if t == "long" else "read(n); %s := n; ") % var


HEADER = """type en = (%s);
var ge: array [0..5] of en; cnt: integer;
procedure geninit; begin ge[0] := e0; ge[1] := e1; ge[2] := e2; ge[3] := e3; ge[4] := e4; ge[5] := e5 end;
""" % ", ".join(EN)


def visits(a, b, down):
    return list(range(a, b - 1, -1)) if down else list(range(a, b + 1))


def pairs(t):
    vs = T[t][3]
    for a, b in itertools.product(vs, repeat=2):
        if abs(a - b) <= LIMIT or True:
            yield a, b


BODIES = {  # statement text with %W for showing the variable %V; model: list of strings per visit
    "plain": ("%W", lambda vs, o: [o(v) for v in vs]),
    "if": ("begin if odd(ord(%V)) then %W else begin write('-'); %W end end", lambda vs, o: [o(v) if v & 1 else "-" + o(v) for v in vs]),
    "while": ("begin k := 0; while k < 2 do begin k := k + 1; write(k:1) end; %W end", lambda vs, o: ["12" + o(v) for v in vs]),
    "nest": ("for k := 3 downto 2 do begin write(k:1); if k = 2 then %W end", lambda vs, o: ["32" + o(v) for v in vs]),
    "case": ("case ord(%V) and 3 of 0: write('z'); 1, 2: begin write('m'); %W end; otherwise %W end",
             lambda vs, o: ["z" if v & 3 == 0 else "m" + o(v) if v & 3 in (1, 2) else o(v) for v in vs]),
    "break": ("begin cnt := cnt + 1; %W; if cnt = 3 then goto 9 end", lambda vs, o: [o(v) for v in vs[:3]]),
    "cont": ("begin if odd(ord(%V)) then goto 8; %W; 8: write('.') end", lambda vs, o: ["." if v & 1 else o(v) + "." for v in vs]),
    "bounds": ("begin %W; a := b; b := a end", lambda vs, o: [o(v) for v in vs]),
    "andthen": ("begin if (ord(%V) > 1) and_then (ord(%V) < 4) then write('!'); %W end", lambda vs, o: [("!" if 1 < v < 4 else "") + o(v) for v in vs]),
}


class G:
    n = rows = 0


def boundcase(t, down, form, var, body, pick=1):
    pt = T[t][0]
    bt, bm = BODIES[body]
    if t == "long" and body in ("case", "cont", "if", "andthen"):
        bt = bt.replace("ord(%V)", "(%V)").replace("case (%V) and 3", "case k0(%V)")
    V = {"local": "i", "global": "gi@N", "outer": "i", "param": "i"}[var]
    W = wr(t, V)
    bt = bt.replace("%V", V).replace("%W", W)
    rows = []
    for i, (a, b) in enumerate(pairs(t)):
        n = (a - b if down else b - a) + 1
        if n > LIMIT and body != "break": continue
        rows.append((a, b))
    rows = rows[::pick]
    lo, hi = {"var": ("a", "b"), "expr": ("%s(%s(a))" % (("pred", "succ") if 0 else ("same@N", "same@N")), "same@N(b)"), "func": ("fa@N", "fb@N"),
              "mixed": ("same@N(a)", "b")}[form]
    glob = "var gi@N: %s; ga@N, gb@N: %s; function same@N(x: %s): %s; begin same@N := x end; " % (pt, pt, "ty@N", "ty@N")
    glob = "type ty@N = %s; var gi@N, ga@N, gb@N: ty@N; function same@N(x: ty@N): ty@N; begin same@N := x end; " % pt
    glob += "function fa@N: ty@N; begin write('A'); fa@N := ga@N end; function fb@N: ty@N; begin write('B'); fb@N := gb@N end; "
    loop = "for %s := %s %s %s do %s" % (V, lo, "downto" if down else "to", hi, bt)
    stm = "cnt := 0; ga@N := a; gb@N := b; %s; 9: writeln" % loop
    labs = "label 9%s; " % (", 8" if body == "cont" else "")
    d = "rows, n, k: integer; l: longint; "
    if var == "local":
        decl = "procedure inner; %s var %s a, b, i: ty@N; begin read(rows); while rows > 0 do begin rows := rows - 1; %s %s %s end end;" % (labs, d, rd(t, "a"), rd(t, "b"), stm)
        body_ = "inner"
    elif var == "global":
        decl = "procedure inner; %s var %s a, b: ty@N; begin read(rows); while rows > 0 do begin rows := rows - 1; %s %s %s end end;" % (labs, d, rd(t, "a"), rd(t, "b"), stm)
        body_ = "inner"
    elif var == "param":
        decl = "procedure inner(a, b: ty@N; i: ty@N); %s var k: integer; begin %s end;\nprocedure outer; var %s a, b: ty@N; begin read(rows); while rows > 0 do begin rows := rows - 1; %s %s inner(a, b, a) end end;" % (
            labs, stm, d, rd(t, "a"), rd(t, "b"))
        body_ = "outer"
    else:  # bounds in an enclosing procedure
        decl = "procedure outer; var %s a, b: ty@N; procedure inner; %s var k: integer; i: ty@N; begin %s end; begin read(rows); while rows > 0 do begin rows := rows - 1; %s %s inner end end;" % (
            d, labs, stm, rd(t, "a"), rd(t, "b"))
        body_ = "outer"
    if body == "case" and t == "long":
        glob += "function k0@N(x: longint): integer; begin if x mod 4 = 0 then k0@N := 0 else if (x and 3) = 3 then k0@N := 3 else k0@N := 1 end;"
        decl = decl.replace("k0(", "k0@N(")
    exp = ""
    for a, b in rows:
        vs = visits(a, b, down) if body != "break" else visits(a, min(b, a + 5) if not down else max(b, a - 5), down)
        pre = "AB" if form == "func" else ""
        exp += pre + "".join(bm(vs, lambda v: "%d " % v)) + "\n"
    G.rows += len(rows)
    return Case("A %s %s %s %s %s" % (t, "downto" if down else "to", form, var, body), "geninit; " + body_, exp, decl=decl, glob=glob,
                stdin="%d\n" % len(rows) + "".join("%d %d\n" % r for r in rows))


def constcase(t):
    """constant bounds, every pair"""
    pt = T[t][0]
    stm, exp = "", ""
    for a, b in pairs(t):
        for down in (0, 1):
            if (a - b if down else b - a) + 1 > LIMIT: continue
            if t == "long" or LMIN in (a, b) or IMIN in (a, b): continue
            if t in ("int",) and (a < -2 or b < -2): continue
            stm += "for i := %s %s %s do %s; writeln;\n" % (lit(t, a), "downto" if down else "to", lit(t, b), wr(t, "i"))
            exp += "".join("%d " % v for v in visits(a, b, down)) + "\n"
            G.rows += 1
    return Case("K %s constants" % t, stm, exp, decl="var i: %s;" % pt)


def typebounds(t):
    """literal type extremes mixed with variables of the type"""
    pt, lo, hi, vs = T[t]
    stm, exp = "", ""
    for v in vs:
        if t == "long": continue
        if hi - v + 1 <= LIMIT:
            stm += "a := %s; for i := a to %s do %s; writeln;\n" % (lit(t, v) if v != IMIN else "-2147483647 - 1", lit(t, hi), wr(t, "i"))
            exp += "".join("%d " % x for x in range(v, hi + 1)) + "\n"
        if v - lo + 1 <= LIMIT:
            stm += "a := %s; for i := a downto %s do %s; writeln;\n" % (lit(t, v) if v != IMIN else "-2147483647 - 1", lit(t, lo) if lo != IMIN else "-2147483647 - 1", wr(t, "i"))
            exp += "".join("%d " % x for x in range(v, lo - 1, -1)) + "\n"
    if stm:
        return Case("X %s extremes" % t, stm, exp, decl="var i, a: %s;" % pt)


SETS = {"int": ("0..9", [0, 1, 4, 8, 9]), "wide": ("0..99", [0, 31, 32, 63, 64, 99]), "off": ("40..110", [40, 71, 72, 103, 104, 110]), "neg": ("-3..3", [-3, -1, 0, 2, 3]),
        "char": ("char", [33, 65, 97, 122, 126]), "bool": ("boolean", [0, 1]), "enum": ("en", [0, 1, 2, 4, 5]), "csub": ("'a'..'h'", [97, 98, 104])}
INBODY = {
    "plain": ("%W", lambda vs: ["%d " % v for v in vs]),
    "if": ("begin if odd(ord(%V)) then write('o') else write('e'); %W end", lambda vs: ["%s%d " % ("eo"[v & 1], v) for v in vs]),
    "ifonly": ("if odd(ord(%V)) then %W", lambda vs: ["%d " % v if v & 1 else "" for v in vs]),
    "while": ("begin k := 0; while k < 2 do begin k := k + 1; write(k:1) end; %W end", lambda vs: ["12%d " % v for v in vs]),
    "nest": ("for y in s do begin %W2; if ord(y) > ord(%V) then write('>') end", lambda vs: ["%d%s" % (w, ">" if w > v else "") for v in vs for w in vs]),
    "change": ("begin s := s - [%V]; %W end", lambda vs: ["%d " % v for v in vs]),
    "clear": ("begin s := []; %W end", lambda vs: ["%d " % v for v in vs]),
    "break": ("begin %W; cnt := cnt + 1; if cnt = 2 then goto 9 end", lambda vs: ["%d " % v for v in vs[:2]]),
    "call": ("begin show@N(%V); %W end", lambda vs: ["<%d>%d " % (v, v) for v in vs]),
    "case": ("case ord(%V) and 3 of 0: write('z'); 1: %W; otherwise begin write('o'); %W end end",
             lambda vs: ["z" if v & 3 == 0 else "%d " % v if v & 3 == 1 else "o%d " % v for v in vs]),
}


def incase(st, body, form):
    base, probes = SETS[st]
    host = "integer" if st in ("int", "wide", "off", "neg") else {"char": "char", "csub": "char", "bool": "boolean", "enum": "en"}[st]
    kt = "int" if host == "integer" else st
    bt, bm = INBODY[body]
    bt = bt.replace("%W2", "write(%s:1)" % ("y" if host == "integer" else "ord(y)")).replace("%W", wr(kt, "x")).replace("%V", "x")
    glob = "type ts@N = set of %s; var gs@N: ts@N; function fs@N(s: ts@N): ts@N; begin fs@N := s end; procedure show@N(v: %s); begin write('<', %s:1, '>') end;" % (
        base, host, "v" if host == "integer" else "ord(v)")
    src = {"var": "s", "expr": "s * s", "func": "fs@N(s)", "sum": "(s + [])", "global": "gs@N"}[form]
    decl = "procedure inner; label 9; var m, i, k: integer; x, y: %s; s: ts@N; p: array [0..9] of %s;\nbegin %s for m := 0 to %d do begin s := []; " \
        "for i := 0 to %d do if odd(m shr i) then s := s + [p[i]]; cnt := 0; gs@N := s; for x in %s do %s; 9: writeln end end;" % (
            host, host, "".join("p[%d] := %s; " % (i, lit(kt, p)) for i, p in enumerate(probes)), (1 << len(probes)) - 1, len(probes) - 1, src, bt)
    exp = ""
    for m in range(1 << len(probes)):
        vs = [p for i, p in enumerate(probes) if m >> i & 1]
        exp += "".join(bm(vs)) + "\n"
    G.rows += 1 << len(probes)
    return Case("S %s %s %s" % (st, body, form), "inner", exp, decl=decl, glob=glob)


def litin(st):
    base, probes = SETS[st]
    host = "integer" if st in ("int", "wide", "off") else {"char": "char", "csub": "char", "bool": "boolean", "enum": "en"}[st]
    kt = "int" if host == "integer" else st
    stm, exp = "", ""
    for m in range(1, 1 << len(probes)):
        vs = [p for i, p in enumerate(probes) if m >> i & 1]
        stm += "for x in [%s] do %s; writeln;\n" % (", ".join(lit(kt, v) for v in reversed(vs)), wr(kt, "x"))
        exp += "".join("%d " % v for v in vs) + "\n"
    a, b = probes[0], probes[min(2, len(probes) - 1)]
    if b - a < 70:
        stm += "y := %s; for x in [%s..y] do %s; writeln;\n" % (lit(kt, b), lit(kt, a), wr(kt, "x"))
        exp += "".join("%d " % v for v in range(a, b + 1)) + "\n"
    return Case("L %s literal sets" % st, stm, exp, decl="var x, y: %s;" % host)


ARR = {"0..3": 4, "1..1": 1, "-2..2": 5, "5..9": 5, "'a'..'d'": 4, "boolean": 2, "en": 6}
ELEM = {"integer": (lambda i: i * 1000 - 1500, "x:1"), "char": (lambda i: 65 + i * 7, "ord(x):1"), "boolean": (lambda i: i & 1, "ord(x):1"),
        "en": (lambda i: (i * 5) % 6, "ord(x):1"), "longint": (lambda i: i * 10**10 - 5, "x:1"), "sr": (lambda i: 3 + i, "x:1")}


def arrcases():
    for ix, n in ARR.items():
        for el, (f, show) in ELEM.items():
            for body in ("plain", "if", "nest", "break"):
                et = "0..20" if el == "sr" else el
                stm, vals = "", [f(i) for i in range(n)]
                w = "write(%s, ' ')" % show
                if body == "plain": b, exp = w, "".join("%d " % v for v in vals)
                elif body == "if":
                    b, exp = "begin cnt := cnt + 1; if odd(cnt) then %s else write('-') end" % w, "".join("%d " % v if i % 2 == 0 else "-" for i, v in enumerate(vals))
                elif body == "nest":
                    b, exp = "for k := 1 to 2 do begin %s end" % w, "".join("%d %d " % (v, v) for v in vals)
                else:
                    b, exp = "begin cnt := cnt + 1; %s; if cnt = 2 then goto 9 end" % w, "".join("%d " % v for v in vals[:2])
                setv = {"integer": "i * 1000 - 1500", "char": "chr(65 + i * 7)", "boolean": "odd(i)", "en": "ge[(i * 5) mod 6]", "longint": "10000000000 * i - 5", "sr": "3 + i"}[el]
                idx = {"0..3": "i", "1..1": "i + 1", "-2..2": "i - 2", "5..9": "i + 5", "'a'..'d'": "chr(i + 97)", "boolean": "i = 1", "en": "ge[i]"}[ix]
                decl = "procedure inner; label 9; var i, k: integer; x: %s; a: array [%s] of %s;\nbegin geninit; cnt := 0; for i := 0 to %d do a[%s] := %s; for x in a do %s; 9: end;" % (
                    et, ix, et, n - 1, idx, setv, b)
                yield Case("R array [%s] of %s %s" % (ix, el, body), "inner", exp, decl=decl)


def extra():
    """Mixed types, empty sets, subrange and longint variables: one case each, all values of the small universe."""
    yield Case("E empty sets", "".join("for v%d in [] do write('!'); " % i for i in range(6)) + "write('done')", "done",
               decl="var v0: integer; v1: char; v2: boolean; v3: en; v4: longint; v5: 1..5;")
    st, exp = "", ""
    for vt in ("longint", "integer", "0..9", "2..7"):
        pass
    for a, b in itertools.product(range(2, 7), repeat=2):
        for down in (0, 1):
            exp += "".join("%d " % v for v in visits(a, b, down)) + "\n"
    for vt in ("longint", "integer", "0..9", "2..6", "pos"):
        for at, bt in itertools.product(("integer", "0..9", "2..6", "longint"), repeat=2):
            if vt != "longint" and "longint" in (at, bt): continue
            yield Case("M %s from %s to %s" % (vt, at, bt), "for a := 2 to 6 do for b := 2 to 6 do begin ta := a; tb := b; for v := ta to tb do write(v:1, ' '); writeln; "
                       "for v := ta downto tb do write(v:1, ' '); writeln end;", exp, decl="type pos = 1..maxint; var a, b: integer; ta: %s; tb: %s; v: %s;" % (at, bt, vt))
    for host, vt, base in (("char", "'b'..'d'", 97), ("en", "e1..e3", 0)):
        exp = ""
        for a, b in itertools.product((1, 2, 3), repeat=2):
            for down in (0, 1):
                exp += "".join("%d " % (v + base) for v in visits(a, b, down)) + "\n"
        for v_, a_, b_ in itertools.product((host, vt), repeat=3):
            conv = "chr(%s + 97)" if host == "char" else "ge[%s]"
            yield Case("M %s from %s to %s" % (v_, a_, b_), "geninit; for a := 1 to 3 do for b := 1 to 3 do begin ta := %s; tb := %s; for v := ta to tb do write(ord(v):1, ' '); writeln; "
                       "for v := ta downto tb do write(ord(v):1, ' '); writeln end;" % (conv % "a", conv % "b"), exp, decl="var a, b: integer; ta: %s; tb: %s; v: %s;" % (a_, b_, v_))
    # for-in over sets with a variable of another width than the members
    for st, (base, probes) in SETS.items():
        if st in ("char", "bool", "enum", "csub"): continue
        for vt in ("longint", "-200..200"):
            body = "for m := 0 to %d do begin s := []; for i := 0 to %d do if odd(m shr i) then s := s + [p[i]]; for x in s do write(x:1, ' '); writeln end" % ((1 << len(probes)) - 1, len(probes) - 1)
            yield Case("W %s into %s" % (st, vt), "".join("p[%d] := %d; " % (i, p) for i, p in enumerate(probes)) + body,
                       "".join("".join("%d " % p for i, p in enumerate(probes) if m >> i & 1) + "\n" for m in range(1 << len(probes))),
                       decl="var x: %s; m, i: integer; p: array [0..9] of integer; s: set of %s;" % (vt, base))
    for el, vt, fm in (("integer", "longint", "%d "), ("-9..9", "longint", "%d "), ("-9..9", "integer", "%d "), ("integer", "-9..9", "%d "), ("integer", "real", "%d.0 "), ("longint", "real", "%d.0 ")):
        yield Case("W array of %s into %s" % (el, vt), "a[1] := -7; a[2] := 0; a[3] := 5; for x in a do write(x:1%s, ' ')" % (":1" if vt == "real" else ""),
                   "".join(fm % v for v in (-7, 0, 5)), decl="var a: array [1..3] of %s; x: %s;" % (el, vt))
    # the bounds are evaluated once, before the variable changes; the loop does not run at all for empty ranges
    for a, b in itertools.product(range(-2, 3), repeat=2):
        for down in (0, 1):
            vs = visits(a, b, down)
            yield Case("Z %d %s %d own variable in bounds" % (a, "downto" if down else "to", b),
                       "i := %d; for i := i %s i + (%d) do write(i:1, ' ')" % (a, "downto" if down else "to", b - a), "".join("%d " % v for v in vs), decl="var i: integer;")


def cases():
    yield from extra()
    for t in T:
        yield constcase(t)
        c = typebounds(t)
        if c: yield c
        for down in (0, 1):
            for body in BODIES:
                if body == "case" and t == "long": pass
                yield boundcase(t, down, "var", "local", body)
            for form, var in itertools.product(("var", "expr", "func", "mixed"), ("local", "global", "outer", "param")):
                if (form, var) == ("var", "local"): continue
                if not THOROUGH and form != "func" and var in ("param",): continue
                yield boundcase(t, down, form, var, "plain")
                if THOROUGH:
                    for body in BODIES:
                        if body not in ("plain", "bounds"): yield boundcase(t, down, form, var, body)
    for st in SETS:
        if st != "neg":
            yield litin(st)
        for body in INBODY:
            yield incase(st, body, "var")
        for form in ("expr", "func", "sum", "global"):
            yield incase(st, "plain", form)
            yield incase(st, "change", form)
            yield incase(st, "if", form)
    yield from arrcases()


def main():
    standard("C05", cases, G, HEADER, [("-O0",), ("-O2",), ("-m32", "-O1")],
             "a case is one loop shape (variable type and place, direction, bound form, body shape) run for every pair of boundary values, or one for-in shape run for "
             "every subset of the probe elements; distinct by shape")
