"""C15: formatted output. Every value of each type's probe set x every expression form x every field width (and number of
decimals) x every destination (output, output named, a text file, writestr into strings), all pairs (and triples) of
differently typed items in one statement, and the reading back of what was written."""
import itertools
from core import Case, standard, THOROUGH


class G:
    fields = tuples = roundtrips = 0


ENUMS = {
    "one": ["Solo"],
    "few": ["red", "Green", "bLUE", "vi", "a_b", "Q9"],
    "many": ["m%d" % i if i % 3 else "LongerName%d_with_more" % i for i in range(40)],
    "long": ["v" * 60, "Veryverylong" * 8, "wlast"],
}
HEADER = "type en_one = (Solo); en_few = (red, Green, bLUE, vi, a_b, Q9); en_many = (%s); en_long = (%s);\n" % (
    ", ".join(ENUMS["many"]), ", ".join(ENUMS["long"])) + """
tlong = longint; tsub = -100..100; tbyte = 0..255; sfew = Green..a_b; tstr = string[10]; tst80 = string[80]; tstd = string;
p1 = packed array [1..1] of char; p2 = packed array [1..2] of char; p4 = packed array [0..3] of char; p10 = packed array [1..10] of char;
p60 = packed array [-3..56] of char; csub = 'a'..'z'; u4 = array [1..4] of char;
var zf: text; zs: tstd; zt: tst80;
procedure opf; begin assign(zf, 'c15.txt'); rewrite(zf) end;
procedure clf; var c: char; begin close(zf); reset(zf); while not eof(zf) do if eoln(zf) then begin readln(zf); writeln end else begin read(zf, c); write(c) end; close(zf) end;
procedure shs(s: tstd); var i: integer; begin write(length(s):1, ':'); for i := 1 to length(s) do write(s[i]) end;
procedure sht(s: tst80); var i: integer; begin write(length(s):1, ':'); for i := 1 to length(s) do write(s[i]) end;
"""
DESTS = ["out", "outx", "file", "wstr", "wst80"]


def q(s): return "'" + s.replace("'", "''") + "'"


def emit(dest, items, ln=False):
    a = ", ".join(items)
    n = "writeln" if ln else "write"
    return {"out": "%s(%s)" % (n, a), "outx": "%s(output, %s)" % (n, a), "file": "%s(zf, %s)" % (n, a),
            "wstr": "writestr(zs, %s); shs(zs)" % a + ("; writeln" if ln else ""), "wst80": "writestr(zt, %s); sht(zt)" % a + ("; writeln" if ln else "")}[dest]


def around(dest, stmts):
    return "opf; %s; clf" % stmts if dest == "file" else stmts


def expect(dest, text):
    return "%d:%s" % (len(text), text) if dest in ("wstr", "wst80") else text


def width(s, w): return s if w is None else s.rjust(w)


def cut(s, w): return s if w is None else s[:w].rjust(w)


# name -> (pascal type, [(pascal literal, text)], truncates)
def I(v): return ("(-2147483647-1)" if v == -2147483648 else str(v), str(v))


INTS = [0, 1, -1, 9, 10, -10, 99, 100, 12345, -12345, 999999999, 1000000000, 2147483647, -2147483648]
LONGS = [0, 7, -7, 4294967296, -4294967297, 999999999999, 9223372036854775807, -9223372036854775807]
CHARS = "aZ0 '~!"
ESC = [0, 1, 9, 13, 127, 128, 200, 255]
TYPES = {
    "int": ("integer", [I(v) for v in INTS]),
    "long": ("tlong", [I(v) for v in LONGS]),
    "sub": ("tsub", [I(v) for v in (-100, -99, -1, 0, 5, 100)]),
    "byte": ("tbyte", [I(v) for v in (0, 7, 128, 255)]),
    "char": ("char", [(q(c), c) for c in CHARS.replace("~", "^")]),
    "chre": ("char", [("chr(%d)" % c, chr(c)) for c in ESC]),
    "csub": ("csub", [(q(c), c) for c in "amz"]),
    "bool": ("boolean", [("true", "TRUE"), ("false", "FALSE")]),
    "sfew": ("sfew", [(n, n) for n in ENUMS["few"][1:5]]),
    "p1": ("p1", [(q(c), c) for c in ("a", " ")]),
    "p2": ("p2", [(q(c), c) for c in ("ab", "  ", "'x")]),
    "p4": ("p4", [(q(c), c) for c in ("abcd", "a  d", "    ")]),
    "p10": ("p10", [(q(c), c) for c in ("abcdefghij", " b       z")]),
    "p60": ("p60", [(q(c), c) for c in ("x" * 30 + "y" * 30, "0123456789" * 6)]),
    "u4": ("u4", [(q(c), c) for c in ("abcd", "%d%s")]),
    "str": ("tstr", [(q(c), c) for c in ("", "a", "two", "0123456789", "%d %s %%", "  x  ")]),
    "std": ("tstd", [(q(c), c) for c in ("", "b", "h" * 50, "\\n%n")]),
}
for e, names in ENUMS.items():
    TYPES["en_" + e] = ("en_" + e, [(n, n) for n in names])
CUT = {"p1", "p2", "p4", "p10", "p60", "u4"}
NUM = {"int", "long", "sub", "byte"}
STR = {"str", "std"}
REALS = ["0.0", "1.0", "-1.0", "0.5", "-0.25", "2.5", "3.5", "0.125", "9.995", "99.5", "123456.789", "-123456.789", "1e10", "1.5e-5", "9.9999999e9", "1e100", "-2.5e-100", "0.1", "1e15", "123456789.0", "4.0e-7"]
WIDTHS = [None, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 33]


def fits(dest, text):
    return not (dest == "wst80" and len(text) > 80)


def cases():
    # one item
    for t, (ty, vals) in TYPES.items():
        for dest in DESTS:
            for form in ("var", "lit", "func", "elem", "field", "par", "wvar", "wsub", "wexpr"):
                if form == "lit" and t in ("sub", "byte", "csub", "sfew", "p1", "p2", "p4", "p10", "p60", "u4", "str", "std"):
                    if t not in ("p4", "str"): continue
                decl = "var a: array [1..%d] of %s; i, k: integer; w: 1..200; x: %s; r: record c: char; f: %s end;\n" % (len(vals), ty, ty, ty)
                ws = WIDTHS if form in ("var", "lit") else WIDTHS[1:] if form[0] == "w" else [None, 1, 7, 15]
                if t in CUT or t.startswith("en_") or t == "sfew": ws = ws + [len(vals[0][1]), len(vals[0][1]) + 1]
                init = "; ".join("a[%d] := %s" % (i + 1, l) for i, (l, _) in enumerate(vals))
                if t == "p1": init = "; ".join("a[%d][1] := %s" % (i + 1, l) for i, (l, _) in enumerate(vals))
                if t == "u4": init = "; ".join("a[%d, %d] := %s" % (i + 1, j + 1, q(c)) for i, (_, s) in enumerate(vals) for j, c in enumerate(s))
                out, stm = "", []

                def one(val, s, w, wtext):
                    f = (cut if t in CUT or (t == "str" and form == "lit") else width)(s, w)
                    return f
                dw = max([12] + [len(n) for _, n in vals])
                if form == "par" and dest == "wst80" and dw > 40: continue
                if form == "func":
                    decl += "function f(i: integer): %s; begin f := a[i] end;\n" % ty
                if form == "par":
                    decl += "procedure f(p: %s; var q: %s; w: integer); begin %s end;\n" % (ty, ty, "; ".join([emit(dest, ["p"] + ["q:w"] * (t not in STR)), emit(dest, ["'|'"])]))
                if form in ("var", "func", "elem", "field", "par", "wvar", "wsub", "wexpr"):
                    for w in sorted(set(x for x in ws if x)) + ([None] if None in ws else []):
                        if t in STR and w is not None:
                            if form[0] == "w" or w > 1: continue
                            w = None
                        if (t.startswith("en_") or t == "sfew") and w and w < max(len(n) for _, n in vals): continue
                        ok = all(fits(dest, one(0, s, w, 0)) for _, s in vals)
                        if not ok: continue
                        item = {"var": "a[i]", "func": "f(i)", "elem": "a[i]", "field": "r.f", "par": "x"}.get(form, "a[i]")
                        wt = "" if w is None else ":%d" % w
                        if form == "wvar": wt = ":k"
                        if form == "wsub": wt = ":w"
                        if form == "wexpr": wt = ":k * 2 - w"
                        pre = "" if w is None else "k := %d; w := %d; " % (w, w)
                        if form == "field": pre += "r.f := a[i]; "
                        if form == "var": pre += "x := a[i]; "; item = "x"
                        if form == "par":
                            stm.append("k := %d; for i := 1 to %d do begin x := a[i]; f(a[i], x, k) end" % (w or dw, len(vals)))
                            for _, s in vals:
                                y = one(0, s, w or dw, 0)
                                out += expect(dest, s + (y if t not in STR else "")) + expect(dest, "|")
                        else:
                            stm.append("for i := 1 to %d do begin %s%s end" % (len(vals), pre, emit(dest, [item + wt, "'|'"])))
                            for _, s in vals: out += expect(dest, one(0, s, w, 0) + "|")
                else:
                    for l, s in vals:
                        for w in sorted(set(x for x in ws if x)) + [None]:
                            if t in ("long",) and form == "lit" and abs(int(s)) > 4294967296 * 10 and "-" in l: continue
                            f = one(0, s, w, 0)
                            if not fits(dest, f) or t.startswith("en_") and w and w < len(s): continue
                            if t == "str" and len(s) < 2: continue
                            stm.append(emit(dest, [l + ("" if w is None else ":%d" % w), "'|'"]))
                            out += expect(dest, f + "|")
                if not stm: continue
                if "\n" in out or "~" in out: raise AssertionError
                G.fields += len(stm) * len(vals)
                yield Case("F %s %s %s" % (t, dest, form), init + ";\n" + around(dest, ";\n".join(stm)), out, decl=decl)
    # string variables in wider fields
    for t in ("str", "std"):
        ty, vals = TYPES[t]
        for dest in DESTS:
            for form in ("var", "func"):
                decl = "var a: array [1..%d] of %s; i: integer; function f(i: integer): %s; begin f := a[i] end;\n" % (len(vals), ty, ty)
                init = "; ".join("a[%d] := %s" % (i + 1, l) for i, (l, _) in enumerate(vals))
                out = "".join(expect(dest, s.rjust(60) + "|") for _, s in vals)
                yield Case("W %s %s %s" % (t, dest, form), init + "; " + around(dest, "for i := 1 to %d do begin %s end" % (len(vals), emit(dest, ["%s:60" % ("a[i]" if form == "var" else "f(i)"), "'|'"]))), out, decl=decl)
    # reals
    for dest in DESTS:
        for form in ("var", "lit", "wvar", "func", "elem"):
            for v in REALS:
                x = float(v)
                stm, out = [], ""
                for w in ([None, 1, 5, 8, 9, 10, 13, 14, 20, 30] if form in ("var", "lit") else [3, 11, 22]):
                    for d in ([None, 0, 1, 2, 3, 7, 15] if form in ("var", "lit") else [None, 2, 6]):
                        if w is None and d is not None: continue
                        if d is None:
                            ww = w or 13
                            f = "% *.*E" % (ww, ww - 7 if ww > 8 else 1, x)
                        else: f = "%*.*f" % (w, d, x)
                        if not fits(dest, f + "|") or (abs(x) > 1e20 and d is not None): continue
                        it = {"var": "x", "lit": v if v[0] != "-" else "(%s)" % v, "wvar": "x", "func": "f(3)", "elem": "a[k]"}[form]
                        if w is not None: it += ":k" if form == "wvar" else ":%d" % w
                        if d is not None: it += ":i" if form == "wvar" else ":%d" % d
                        pre = "k := %d; i := %d; " % (w or 0, d or 0) if form == "wvar" else "k := 2; " if form == "elem" else ""
                        stm.append(pre + emit(dest, [it, "'|'"]))
                        out += expect(dest, f + "|")
                if not stm: continue
                G.fields += len(stm)
                yield Case("R %s %s %s" % (dest, form, v), "x := %s; a[1] := 1.0; a[2] := x; a[3] := 7.0;\n" % v + around(dest, ";\n".join(stm)), out,
                           decl="var x: real; k, i: integer; a: array [1..3] of real; function f(n: integer): real; begin f := x end;\n")
    # several items in one statement
    items = [("i", "42"), ("i:6", "    42"), ("l", "5000000000"), ("l:12", "  5000000000"), ("c", "c"), ("c:3", "  c"), ("b", "TRUE"), ("b:7", "   TRUE"),
             ("e", "Green"), ("e:8", "   Green"), ("s", "str"), ("pa", "pack"), ("pa:2", "pa"), ("'lit'", "lit"), ("'lit':5", "  lit"), ("r:6:2", "  3.50"),
             ("r", " 3.500000E+00"), ("1 + 2", "3"), ("s + 'x'", "strx"), ("'y'", "y"), ("not b", "FALSE"), ("f(2)", "2"), ("r * 2:1:1", "7.0")]
    decl = "var i: integer; l: longint; c: char; b: boolean; e: en_few; s: tstr; pa: p4; r: real; function f(n: integer): integer; begin i := i + 1; f := n * (i - 42) end;\n"
    init = "i := 42; l := 5000000000; c := 'c'; b := true; e := Green; s := 'str'; pa := 'pack'; r := 3.5;\n"
    for dest in DESTS:
        for ln in (False, True):
            for n, pool in ((2, items), (3, items[::2] if not THOROUGH else items)):
                for first in pool:
                    stm, out = [], ""
                    for rest in itertools.product(pool, repeat=n - 1):
                        tup = (first,) + rest
                        if any("f(2)" in x[0] for x in tup): continue
                        if sum(len(x[1]) for x in tup) > 79: continue
                        stm.append(emit(dest, [x[0] for x in tup], ln))
                        out += expect(dest, "".join(x[1] for x in tup)) + ("\n" if ln else "")
                        if n == 2:
                            stm.append(emit(dest, ["'<'"], True))
                            out += expect(dest, "<") + "\n"
                    if not stm: continue
                    G.tuples += len(stm)
                    yield Case("T %s %s %d %s" % (dest, ln, n, first[0]), init + around(dest, ";\n".join(stm)), out, decl=decl)
    # arguments are evaluated once, in order
    for dest in DESTS:
        yield Case("O %s" % dest, init + around(dest, emit(dest, ["f(1)", "','", "7:f(3)", "','", "i", "','", "r + 1:1:f(1)", "','", "f(1):4", "','", "i"])), expect(dest, "1,     7,44,4.500,   4,46"), decl=decl)
    # empty lines and mixtures of write and writeln on output and on a file
    st = [("write('a')", "a"), ("writeln", "\n"), ("writeln('b')", "b\n"), ("write('c', 'd')", "cd"), ("writeln('', 'e')", "e\n")]
    for n in range(1, 6 if THOROUGH else 5):
        for seq in itertools.product(range(len(st)), repeat=n):
            if n > 2 and seq[0] > seq[-1]: continue
            yield Case("L %s" % "".join(map(str, seq)), "; ".join(st[i][0] for i in seq), "".join(st[i][1] for i in seq))
            f = "; ".join("writeln(zf)" if i == 1 else st[i][0].replace("(", "(zf, ") for i in seq)
            text = "".join(st[i][1] for i in seq)
            yield Case("LF %s" % "".join(map(str, seq)), "opf; %s; clf" % f, text if text.endswith("\n") else text)
    # reading back
    for t, vals in (("int", INTS), ("long", LONGS), ("sub", [-100, 0, 100]), ("byte", [0, 255])):
        ty = TYPES[t][0]
        n = len(vals)
        init = "; ".join("a[%d] := %s" % (i + 1, I(v)[0]) for i, v in enumerate(vals))
        ok = "".join(" ok" for _ in vals)
        loop = "for i := 1 to %d do begin %%s; if x = a[i] then write(' ok') else write(' bad', x:1) end" % n
        decl = "var a: array [1..%d] of %s; x: %s; i: integer; c: char;\n" % (n, ty, ty)
        for w in ("", ":1", ":25"):
            G.roundtrips += 4 * n
            yield Case("B %s readstr%s" % (t, w), init + "; " + loop % ("writestr(zs, a[i]%s); x := 0; readstr(zs, x)" % w), ok, decl=decl)
            if t in ("int", "long"):
                yield Case("B %s val%s" % (t, w), init + "; " + loop % ("writestr(zs, a[i]%s); x := 0; val(zs, x)" % w), ok, decl=decl)
            yield Case("B %s file%s" % (t, w), init + "; opf; for i := 1 to %d do write(zf, a[i]%s, ' '); close(zf); reset(zf); %s; close(zf)" % (n, w, loop % "read(zf, x)"), ok, decl=decl)
            yield Case("B %s lines%s" % (t, w), init + "; opf; for i := 1 to %d do writeln(zf, a[i]%s); close(zf); reset(zf); %s; if eof(zf) then write(' eof'); close(zf)" % (n, w, loop % "readln(zf, x)"), ok + " eof", decl=decl)
    init = "; ".join("a[%d] := %s" % (i + 1, v) for i, v in enumerate(REALS))
    decl = "var a: array [1..%d] of real; x: real; i: integer;\n" % len(REALS)
    loop = "for i := 1 to %d do begin %%s; if x = a[i] then write(' ok') else write(' bad', x:1:20) end" % len(REALS)
    ok = " ok" * len(REALS)
    for w in (":24", ":27", ":40"):
        G.roundtrips += 4 * len(REALS)
        yield Case("B real readstr%s" % w, init + "; " + loop % ("writestr(zs, a[i]%s); x := 0; readstr(zs, x)" % w), ok, decl=decl)
        yield Case("B real val%s" % w, init + "; " + loop % ("writestr(zs, a[i]%s); x := 0; val(zs, x)" % w), ok, decl=decl)
        yield Case("B real file%s" % w, init + "; opf; for i := 1 to %d do write(zf, a[i]%s, ' '); close(zf); reset(zf); %s; close(zf)" % (len(REALS), w, loop % "read(zf, x)"), ok, decl=decl)
        yield Case("B real lines%s" % w, init + "; opf; for i := 1 to %d do writeln(zf, a[i]%s); close(zf); reset(zf); %s; close(zf)" % (len(REALS), w, loop % "readln(zf, x)"), ok, decl=decl)


def main():
    standard("C15", cases, G, HEADER, [("-O0",), ("-O2",)],
             "a case is one type, form and destination with all its values and widths, one first item with all continuations, or one sequence of write statements",
             more=(("-O1",), ("-m32", "-O1")), batch=25)
