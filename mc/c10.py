"""C10: strings. Every pair of operand forms x every pair of probe values x every operator; every unary use; and every
sequence of string statements up to a depth over variables of several capacities with guards between them."""
import itertools
from core import Case, Check, run_cases, run_tapes, THOROUGH


class G:
    pairs = unary = sequences = 0


def q(s):
    """A Pascal literal expression without control characters."""
    return "'" + s.replace("'", "''") + "'"


VALS = [""] + ["".join(x) for n in (1, 2, 3) for x in itertools.product("ab", repeat=n)] + \
    [" ", "a ", " a", "\xc8", "a\xc8", "Z", "'", "ababababab", "ab" * 40, "b" + "a" * 253, "ab" * 127 + "c"]
NV = len(VALS)


def lit(s): return q(s)


def dig(s):
    h = 0
    for c in s: h = (h * 31 + ord(c) + 1) % 9973
    return "%d:%d" % (len(s), h)


HEADER = """type tstd = string; ts1 = string[1]; ts3 = string[3]; ts10 = string[10]; tp1 = array [1..1] of char; tp2 = packed array [1..2] of char; tp3 = packed array [5..7] of char;
tp10 = packed array [0..9] of char; trec = record c: char; f: tstd; g: ts10 end; pstr = ^tstd;
const kab = 'ab'; kob = 'b'; kl = 'aab'; ke = '';
var zv: array [1..NV] of tstd;
procedure dg(s: tstd); var i, h: integer; begin h := 0; for i := 1 to length(s) do h := (h * 31 + ord(s[i]) + 1) mod 9973; write(length(s):1, ':', h:1, ' ') end;
function fv(i: integer): tstd; begin fv := zv[i] end;
function f10(i: integer): ts10; begin f10 := zv[i] end;
function fch(i: integer): char; begin fch := zv[i][1] end;
procedure sz1; begin INIT1 end;
procedure sz2; begin INIT2 end;
""".replace("NV", str(NV)).replace("INIT1", "; ".join("zv[%d] := %s" % (i + 1, lit(v)) for i, v in enumerate(VALS) if i % 2)).replace(
    "INIT2", "; ".join("zv[%d] := %s" % (i + 1, lit(v)) for i, v in enumerate(VALS) if not i % 2))

# kind -> (which values, declarations, set-up from zv[#], expression)
KINDS = {
    "std": (lambda s: True, "x@: tstd;", "x@ := zv[#]", "x@"),
    "s10": (lambda s: len(s) <= 10, "x@: ts10;", "x@ := zv[#]", "x@"),
    "s3": (lambda s: len(s) <= 3, "x@: ts3;", "x@ := zv[#]", "x@"),
    "s1": (lambda s: len(s) <= 1, "x@: ts1;", "x@ := zv[#]", "x@"),
    "chr": (lambda s: len(s) == 1, "x@: char;", "x@ := zv[#][1]", "x@"),
    "chc": (lambda s: len(s) == 1, "", "", "fch(#)"),
    "p1": (lambda s: len(s) == 1, "x@: tp1;", "x@[1] := zv[#][1]", "x@"),
    "p2": (lambda s: len(s) == 2, "x@: tp2;", "x@[1] := zv[#][1]; x@[2] := zv[#][2]", "x@"),
    "p3": (lambda s: len(s) == 3, "x@: tp3;", "x@[5] := zv[#][1]; x@[6] := zv[#][2]; x@[7] := zv[#][3]", "x@"),
    "p10": (lambda s: len(s) == 10, "x@: tp10; k@: integer;", "for k@ := 0 to 9 do x@[k@] := zv[#][k@ + 1]", "x@"),
    "fld": (lambda s: True, "x@: trec;", "x@.f := zv[#]", "x@.f"),
    "fl10": (lambda s: len(s) <= 10, "x@: array [2..3] of trec;", "x@[3].g := zv[#]", "x@[3].g"),
    "elem": (lambda s: True, "", "", "zv[#]"),
    "ptr": (lambda s: True, "x@: pstr;", "new(x@); x@^ := zv[#]", "x@^"),
    "fun": (lambda s: True, "", "", "fv(#)"),
    "fn10": (lambda s: len(s) <= 10, "", "", "f10(#)"),
    "cat": (lambda s: True, "x@, y@: tstd; c@: char;", "if length(zv[#]) > 0 then c@ := zv[#][length(zv[#])]; x@ := zv[#]; y@ := copy(x@, 1, length(x@) - ord(length(x@) > 0)); x@ := copy(x@, length(x@), ord(length(x@) > 0))".replace(
        "copy(x@, length(x@), ", "copy(x@, length(x@) + ord(length(x@) = 0), "), "(y@ + x@)"),
    "cpy": (lambda s: True, "x@: tstd;", "x@ := zv[#]", "copy(x@, 1, length(x@))"),
    "litcat": (lambda s: len(s) < 256, "x@: tstd;", "x@ := zv[#]", "('' + x@)"),
}
LITS = {"lit": VALS[1:12] + ["Z"] + ["''"[:1], "ababababab"], "lite": [""], "con": ["ab", "b", "aab"]}
CONN = {"ab": "kab", "b": "kob", "aab": "kl"}
CMP = ["=", "<>", "<", "<=", ">", ">="]
FN = ["EQ", "NE", "LT", "LE", "GT", "GE"]


def cmpbits(a, b): return [a == b, a != b, a < b, a <= b, a > b, a >= b]


def is_arr(k): return k in ("p1", "p2", "p3", "p10")


def is_char(k): return k in ("chr", "chc")


def legal_cmp(a, b, va, vb):
    """Operands that relational operators accept: at least one string, or both chars, or arrays of the same length."""
    def cls(k, v):
        if is_char(k): return "c"
        if is_arr(k): return "a"
        if k in ("lit", "con"): return "c" if len(v) == 1 else "l"
        if k == "lite": return "e"
        return "s"
    x, y = cls(a, va), cls(b, vb)
    if "s" in (x, y): return True
    if x == y == "c": return True
    if x in "al" and y in "al": return len(va) == len(vb)
    return False


def loop(kind, var):
    """for var over the admissible indexes; (text, list of values)"""
    adm = [i for i, v in enumerate(VALS) if KINDS[kind][0](v)]
    return adm


def pair_cases():
    kinds = list(KINDS)
    for a in kinds:
        for b in kinds:
            if is_char(a) and is_char(b) and a > b: continue
            A, B = [v for v in VALS if KINDS[a][0](v)], [v for v in VALS if KINDS[b][0](v)]
            if len(A) * len(B) > 400 and not THOROUGH:
                A = [v for v in A if len(v) < 3 or len(v) > 8 or v in ("aab", "aba", "bbb")]
                B = [v for v in B if len(v) < 3 or len(v) > 8 or v in ("aab", "aba", "bbb")]
            decl = "var i, j, w: integer; r: tstd; %s %s\n" % (KINDS[a][1].replace("@", "a"), KINDS[b][1].replace("@", "b"))
            ea, eb = KINDS[a][3].replace("@", "a").replace("#", "i"), KINDS[b][3].replace("@", "b").replace("#", "j")
            seta = KINDS[a][2].replace("@", "a").replace("#", "i") or "w := 0"
            setb = KINDS[b][2].replace("@", "b").replace("#", "j") or "w := 0"

            def body(inner):
                n = []
                ia = "[%s]" % ", ".join(str(VALS.index(v) + 1) for v in A)
                ib = "[%s]" % ", ".join(str(VALS.index(v) + 1) for v in B)
                return "for i := 1 to %d do if i in %s then begin %s; for j := 1 to %d do if j in %s then begin %s; %s end end" % (NV, ia, seta, NV, ib, setb, inner)
            A = sorted(A, key=VALS.index); B = sorted(B, key=VALS.index)
            G.pairs += len(A) * len(B)
            cmps = [legal_cmp(a, b, va, vb) for va in A for vb in B]
            if all(cmps) or (is_arr(a) and is_arr(b) and a == b):
                out = "".join("".join("%d" % sum(1 << i for i, x in enumerate(cmpbits(va, vb)) if x) + "," for vb in B) for va in A)
                inner = "w := 0; " + "; ".join("if %s %s %s then w := w + %d" % (ea, o, eb, 1 << i) for i, o in enumerate(CMP)) + "; write(w:1, ',')"
                yield Case("P cmp %s %s" % (a, b), body(inner), out, decl=decl)
            out = "".join("".join("%d" % sum(1 << i for i, x in enumerate(cmpbits(va, vb)) if x) + "," for vb in B) for va in A)
            inner = "w := 0; " + "; ".join("if %s(%s, %s) then w := w + %d" % (o, ea, eb, 1 << i) for i, o in enumerate(FN)) + "; write(w:1, ',')"
            yield Case("P fun %s %s" % (a, b), body(inner), out, decl=decl)
            out = "".join("".join(dig((va + vb)[:255]) + " " for vb in B) for va in A)
            yield Case("P cat %s %s" % (a, b), body("r := %s + %s; dg(r)" % (ea, eb)), out, decl=decl)
            yield Case("P catpar %s %s" % (a, b), body("dg(%s + %s)" % (ea, eb)), out, decl=decl)
            out = "".join("".join("%d %d " % (len((va + vb)[:255]), va.find(vb) + 1) for vb in B) for va in A)
            yield Case("P idx %s %s" % (a, b), body("write(length(%s + %s):1, ' ', index(%s, %s):1, ' ')" % (ea, eb, ea, eb)), out, decl=decl)
    # literals and constants
    for lk, ls in LITS.items():
        for b in kinds + ["lit", "con", "lite"]:
            B = [v for v in VALS if b in KINDS and KINDS[b][0](v)]
            for v in ls:
                e = CONN[v] if lk == "con" else lit(v)
                for swap in (False, True):
                    if b in KINDS:
                        decl = "var j, w: integer; r: tstd; %s\n" % KINDS[b][1].replace("@", "b")
                        eb = KINDS[b][3].replace("@", "b").replace("#", "j")
                        setb = KINDS[b][2].replace("@", "b").replace("#", "j") or "w := 0"
                        sets = [(eb, B)]
                        wrap = "for j := 1 to %d do if j in [%s] then begin %s; %%s end" % (NV, ", ".join(str(VALS.index(x) + 1) for x in B), setb)
                    else:
                        if swap: continue
                        decl = "var w: integer; r: tstd;\n"
                        sets = [(CONN[x] if b == "con" else lit(x), [x]) for x in LITS[b]]
                        wrap = "%s"
                    body, out = [], ""
                    for x, vals in sets:
                        if all(legal_cmp(lk, b, v, y) for y in vals):
                            l, r_ = (x, e) if swap else (e, x)
                            body.append(wrap % ("w := 0; " + "; ".join("if %s %s %s then w := w + %d" % (l, o, r_, 1 << i) for i, o in enumerate(CMP)) + "; write(w:1, ',')"))
                            for y in vals: out += "%d," % sum(1 << i for i, t in enumerate(cmpbits(y, v) if swap else cmpbits(v, y)) if t)
                        l, r_ = (x, e) if swap else (e, x)
                        body.append(wrap % ("r := %s + %s; dg(r); w := 0; %s; write(w:1, ' ', index(%s, %s):1, ';')" % (
                            l, r_, "; ".join("if %s(%s, %s) then w := w + %d" % (o, l, r_, 1 << i) for i, o in enumerate(FN)), l, r_)))
                        for y in vals:
                            p, s = (y, v) if swap else (v, y)
                            out += "%s %d %d;" % (dig((p + s)[:255]), sum(1 << i for i, t in enumerate(cmpbits(p, s)) if t), p.find(s) + 1)
                            G.pairs += 1
                    yield Case("L %s %r %s %s" % (lk, v, b, swap), "; ".join(body), out, decl=decl)


def trim(s):
    i, j = 0, len(s)
    while i < j and s[i] <= " ": i += 1
    while j > i and s[j - 1] <= " ": j -= 1
    return s[i:j]


def unary_cases():
    dests = {"tstd": 255, "ts10": 10, "ts3": 3, "ts1": 1}
    for a in KINDS:
        A = [v for v in VALS if KINDS[a][0](v)]
        decl = "var i, j, k, g1: integer; "
        ea = KINDS[a][3].replace("@", "a").replace("#", "i")
        seta = KINDS[a][2].replace("@", "a").replace("#", "i") or "k := 0"
        vd = KINDS[a][1].replace("@", "a")

        def body(inner): return "for i := 1 to %d do if i in [%s] then begin %s; %s end" % (NV, ", ".join(str(VALS.index(v) + 1) for v in A), seta, inner)
        for d, cap in dests.items():
            out = "".join("77 " + dig(v[:cap]) + " 88 " for v in A)
            yield Case("U asg %s %s" % (a, d), "g1 := 77; g2 := 88; " + body("s := %s; write(g1:1, ' '); dg(s); write(g2:1, ' ')" % ea), out, decl=decl + vd + " s: %s; g2: integer;\n" % d)
            yield Case("U asgr %s %s" % (a, d), body("r.g1 := 77; r.g2 := 88; r.h := 'h'; r.s := %s; write(r.g1:1, ' '); dg(r.s); write(r.g2:1, r.h, ' ')" % ea),
                       "".join("77 " + dig(v[:cap]) + " 88h " for v in A), decl=decl + vd + " r: record g1: integer; s: %s; h: char; g2: 0..255 end;\n" % d)
            yield Case("U asga %s %s" % (a, d), "for k := 1 to 3 do r[k] := 'x'; " + body("for j := 1 to 3 do begin r[j] := %s; for k := 1 to 3 do dg(r[k]); r[j] := 'x' end" % ea).replace("k := 0; ", "") if "k@" not in KINDS[a][1] else "write('-')",
                       "".join("".join((dig(v[:cap]) if k == j else dig("x")) + " " for k in range(3)) for v in A for j in range(3)) if "k@" not in KINDS[a][1] else "-", decl=decl + vd + " r: array [1..3] of %s;\n" % d)
            yield Case("U par %s %s" % (a, d), body("p(%s); f(%s, i)" % (ea, ea)), "".join(dig(v[:cap]) + " " + dig((v[:cap] + "!")[:cap]) + " " + "%d" % (VALS.index(v) + 1) + dig(v[:cap]) + " " for v in A),
                       decl=decl + vd + "\nprocedure p(s: %s); begin dg(s); s := s + '!'; dg(s) end; procedure f(s: %s; n: integer); procedure q; begin write(n:1); dg(s) end; begin q end;\n" % (d, d))
            yield Case("U res %s %s" % (a, d), body("dg(f(i)); s := f(i); dg(s); dg(f(i) + f(i))"), "".join(dig(v[:cap]) + " " + dig(v[:cap]) + " " + dig((v[:cap] * 2)[:255]) + " " for v in A),
                       decl=decl + vd + " s: tstd;\nfunction f(n: integer): %s; begin f := %s end;\n" % (d, ea))
        out = "".join(dig(trim(v)) + " " + "%d " % len(trim(v)) for v in A)
        yield Case("U trim %s" % a, body("dg(trim(%s)); write(length(trim(%s)):1, ' ')" % (ea, ea)), out, decl=decl + vd + "\n")
        out = ""
        for v in A:
            for st in range(1, 6):
                out += dig(v[st - 1:]) + " "
                for n in (0, 1, 2, 3, 11, 255, 2147483647): out += dig(v[st - 1:st - 1 + n]) + " "
        cn = "for j := 1 to 5 do begin dg(copy(%s, j)); %s end" % (ea, "; ".join("dg(%s(%s, j, %s))" % ("copy" if n != 2 else "substr", ea, "maxint" if n > 255 else n) for n in (0, 1, 2, 3, 11, 255, 2147483647)))
        yield Case("U copy %s" % a, body(cn), out, decl=decl + vd + "\n")
        G.unary += len(A) * 60
        if not is_char(a):
            base = {"p3": 4, "p10": -1}.get(a, 0)
            if a not in ("fun", "fn10", "cat", "cpy", "litcat"):
                out = "".join("".join(c for c in v if c != "'") + "," for v in A if len(v) < 20)
                yield Case("U idx %s" % a, body("if length(zv[i]) < 20 then begin for j := 1 to length(zv[i]) do if %s[j + %d] <> '''' then write(%s[j + %d]); write(',') end" % (ea, base, ea, base)), out, decl=decl + vd + "\n")
            if a not in ("fun", "fn10", "cat", "cpy", "litcat", "elem"):
                # every single character replaced in turn
                B = [v for v in A if 0 < len(v) < 12]
                out = ""
                for v in B:
                    for j in range(len(v)): out += dig(v[:j] + "#" + v[j + 1:]) + " "
                yield Case("U set %s" % a, "for i := 1 to %d do if (length(zv[i]) < 12) and (i in [%s]) then for j := 1 to length(zv[i]) do begin %s; %s[j + %d] := '#'; dg('' + %s) end" % (
                    NV, ", ".join(str(VALS.index(v) + 1) for v in B), seta, ea, base, ea), out, decl=decl + vd + "\n")
        if True:
            out = "".join("%d " % len(v) for v in A)
            yield Case("U len %s" % a, body("write(length(%s):1, ' ')" % ea), out, decl=decl + vd + "\n")
    # comparing, searching and joining whole loops of strings
    yield Case("U sort", "for i := 1 to %d do t[i] := zv[i]; for i := 1 to %d do for j := %d downto i + 1 do if t[j] < t[j - 1] then begin s := t[j]; t[j] := t[j - 1]; t[j - 1] := s end; for i := 1 to %d do dg(t[i])" % ((NV,) * 4),
               "".join(dig(v) + " " for v in sorted(VALS)), decl="var t: array [1..%d] of tstd; s: tstd; i, j: integer;\n" % NV)
    # every string over two letters up to a length, made at run time: searching, comparing, taking and joining parts
    import itertools as it
    L = 7 if THOROUGH else 6
    def words(al, n): return ["".join(x) for k in range(n + 1) for x in it.product(al, repeat=k)]
    mk = "function w(n, k: integer; x, y: char): tstd; var r: tstd; begin r := ''; while k > 0 do begin if odd(n) then r := y + r else r := x + r; n := n div 2; k := k - 1 end; w := r end;\n"
    loops = "for k := 0 to %d do for n := 0 to 1 shl k - 1 do begin s := w(n, k, %s, %s); "
    for t in ("tstd", "ts10"):
        hay, nee = words("ab", L), words("ab", L - 2)
        d = "var k, n, kk, m, h: integer; s: %s; u: %s;\n" % (t, t) + mk
        inner = "for kk := 0 to %d do for m := 0 to 1 shl kk - 1 do begin u := w(m, kk, 'a', 'b'); %%s end end" % (L - 2)
        G.unary += 2 * len(hay) * len(nee)
        yield Case("A index %s" % t, loops % (L, "'a'", "'b'") + inner % "write(index(s, u):1)", "".join("%d" % (x.find(y) + 1) for x in hay for y in nee), decl=d)
        yield Case("A compare %s" % t, loops % (L, "'a'", "'b'") + inner % ("h := ord(s = u) + 2 * ord(s < u) + 4 * ord(s > u); write(h:1)"), "".join("%d" % ((x == y) + 2 * (x < y) + 4 * (x > y)) for x in hay for y in nee), decl=d)
        yield Case("A copy %s" % t, loops % (L, "'a'", "'b'") + "for kk := 1 to k do for m := 0 to k + 1 do begin u := copy(s, kk, m); write(length(u):1, u) end end",
                   "".join("%d%s" % (len(x[i:i + m]), x[i:i + m]) for x in hay for i in range(len(x)) for m in range(len(x) + 2)), decl=d)
        for sp, name in (("chr(32)", " "), ("chr(9)", "\t"), ("chr(33)", "!")):
            yield Case("A trim %s %r" % (t, name), loops % (L, "'a'", sp) + "u := trim(s); write(length(u):1, u) end", "".join("%d%s" % (len(trim(x)), trim(x)) for x in words("a" + name, L)), decl=d)
        yield Case("A join %s" % t, loops % (4, "'a'", "'b'") + inner.replace("to %d" % (L - 2), "to 4") % "s := w(n, k, 'a', 'b'); s := s + u; u := u + s; write(length(u):1, u)",
                   "".join((lambda s, u: "%d%s" % (len((u + s)[:10] if t == "ts10" else u + s), (u + s)[:10] if t == "ts10" else u + s))(x + y, y) for x in words("ab", 4) for y in words("ab", 4)), decl=d)
    # val on strings of every form
    nums = ["0", "7", "-7", "+12", "007", "-010", "2147483647", "-2147483648", "99", "08"]
    for t, w in (("integer", ""), ("longint", ""), ("real", ":3:1")):
        for d in dests:
            ns = [n for n in nums if len(n) <= dests[d]]
            body = "".join("s := %s; x := 55; val(s, x); write(x%s, ' '); x := 55; val(s + '', x); write(x%s, ' '); val(%s, x); write(x%s, ' '); " % (q(n), w, w, q(n), w) for n in ns)
            yield Case("U val %s %s" % (t, d), body + "dg(s)", "".join(("%.1f " % int(n) if w else "%d " % int(n)).rjust(4 if w else 0) * 3 for n in ns) + dig(ns[-1]) + " ", decl="var s: %s; x: %s;\n" % (d, t))
    long = ["9223372036854775807", "-9223372036854775808", "4294967296"]
    yield Case("U val long", "".join("val(%s, x); write(x:1, ' '); " % q(n) for n in long), " ".join(long) + " ", decl="var x: longint;\n")
    reals = ["0.5", "-1.25", "1e3", "2.5E-1", "+4", "  8.75"]
    yield Case("U val real", "".join("val(%s, x); write(x:1:3, ' '); " % q(n) for n in reals), "".join("%.3f " % float(n) for n in reals), decl="var x: real;\n")


def cases():
    yield from pair_cases()
    yield from unary_cases()


# ---------------------------------------------------------------- sequences
VARS = [("s", 3), ("t", 5), ("u", 255), ("ra", 2), ("rb", 4), ("a1", 2), ("a2", 2)]
PLACES = {
    "global": ("var g1: integer; s: ts3; g2: integer; t: ts5; g3: integer; u: tstd; g4: integer; r: tr; a: ta; g5: integer; c: char;", "", ""),
    "local": ("", "var g1: integer; s: ts3; g2: integer; t: ts5; g3: integer; u: tstd; g4: integer; r: tr; a: ta; g5: integer; c: char;", ""),
    "heap": ("type all = record g1: integer; s: ts3; g2: integer; t: ts5; g3: integer; u: tstd; g4: integer; r: tr; a: ta; g5: integer; c: char end; pall = ^all; var pp: pall;", "", "with pp^ do "),
    "nested": ("", "", ""),
}


def driver(place):
    glob, loc, wth = PLACES[place]
    o = ["program p(input, output);\ntype ts1 = string[1]; ts2 = string[2]; ts3 = string[3]; ts4 = string[4]; ts5 = string[5]; tstd = string; tr = record a: ts2; b: ts4 end; ta = array [1..2] of ts2;\n"]
    o.append(glob + "\nvar op: char;\n")
    o.append("procedure app(var x: ts3); begin x := x + '!' end;\nprocedure val2(x: ts2); begin x := x + 'Q'; write('') end;\n")
    o.append("procedure sh(x: tstd); begin write(length(x):1, x, ' ') end;\nfunction rev(x: tstd): tstd; var i: integer; y: tstd; begin y := ''; for i := length(x) downto 1 do y := y + x[i]; rev := y end;\n")
    if place == "nested":
        o.append("procedure outer; var g1: integer; s: ts3; g2: integer; t: ts5; g3: integer; u: tstd; g4: integer; r: tr; a: ta; g5: integer; c: char;\n")
    o.append("procedure run; %s begin %s begin\n" % (loc, wth))
    o.append("g1 := 11; g2 := 22; g3 := 33; g4 := 44; g5 := 55; c := 'k'; s := ''; t := 'ab '; u := ' x'; r.a := 'm'; r.b := 'nop'; a[1] := ''; a[2] := 'z';\n")
    o.append("while not eoln do begin read(op); case op of\n")
    for k, (st, _) in OPS.items():
        o.append("'%s': begin %s end;\n" % (k, st))
    o.append("end end; sh(s); sh(t); sh(u); sh(r.a); sh(r.b); sh(a[1]); sh(a[2]); write(c, g1:1, g2:1, g3:1, g4:1, g5:1) end end;\n")
    if place == "nested": o.append("begin run end;\n")
    o.append("begin %swhile not eof do begin %s; readln; writeln end end.\n" % ("new(pp); " if place == "heap" else "", "outer" if place == "nested" else "run"))
    return "".join(o)


def setch(s, i, c): return s[:i] + c + s[i + 1:] if i < len(s) else s


OPS = {
    "a": ("s := t", lambda m: m.__setitem__("s", m["t"])),
    "b": ("t := s + t", lambda m: m.__setitem__("t", m["s"] + m["t"])),
    "c": ("u := u + s + u", lambda m: m.__setitem__("u", m["u"] + m["s"] + m["u"])),
    "d": ("s := copy(u, 2, 3)", lambda m: m.__setitem__("s", m["u"][1:4])),
    "e": ("u := trim(t)", lambda m: m.__setitem__("u", trim(m["t"]))),
    "f": ("if length(s) >= 2 then s[2] := 'y'", lambda m: m.__setitem__("s", setch(m["s"], 1, "y"))),
    "g": ("t := 'fghij'", lambda m: m.__setitem__("t", "fghij")),
    "h": ("s := ''", lambda m: m.__setitem__("s", "")),
    "i": ("u := c + u", lambda m: m.__setitem__("u", m["c"] + m["u"])),
    "j": ("if t <> '' then c := t[length(t)]", lambda m: m.__setitem__("c", m["t"][-1] if m["t"] else m["c"])),
    "k": ("r.a := t; r.b := r.a + r.a", lambda m: (m.__setitem__("ra", m["t"]), m.__setitem__("rb", m["ra"] + m["ra"]))),
    "l": ("s := r.b + s", lambda m: m.__setitem__("s", m["rb"] + m["s"])),
    "m": ("a[1] := s; a[2] := c", lambda m: (m.__setitem__("a1", m["s"]), m.__setitem__("a2", m["c"]))),
    "n": ("t := a[2] + a[1] + r.a", lambda m: m.__setitem__("t", m["a2"] + m["a1"] + m["ra"])),
    "o": ("app(s)", lambda m: m.__setitem__("s", m["s"] + "!")),
    "p": ("val2(t); val2(u)", lambda m: None),
    "q": ("u := rev(u)", lambda m: m.__setitem__("u", m["u"][::-1])),
    "r": ("s := s; u := u; t := copy(t, 1)", lambda m: None),
    "s": ("a[1] := a[2]; r.b := t", lambda m: (m.__setitem__("a1", m["a2"]), m.__setitem__("rb", m["t"]))),
    "t": ("if s < t then u := s else u := t", lambda m: m.__setitem__("u", min(m["s"], m["t"]))),
    "u": ("t := copy(t, index(t, 'b') + 1) + c", lambda m: m.__setitem__("t", m["t"][m["t"].find("b") + 1:] + m["c"])),
}
CAP = dict(VARS, c=1)


class M(dict):
    def __setitem__(self, k, v): dict.__setitem__(self, k, v[:CAP[k]])


def tapes(depth, ops):
    ops = list(ops)
    init = dict(s="", t="ab ", u=" x", ra="m", rb="nop", a1="", a2="z", c="k")
    states = set()
    out = []

    def rec(prefix, m, d):
        states.add(tuple(m.values()))
        out.append((prefix, "".join("%d%s " % (len(m[k]), m[k]) for k, _ in VARS) + m["c"] + "1122334455"))
        if d == 0: return
        for o in ops:
            n = M(m)
            OPS[o][1](n)
            rec(prefix + o, n, d - 1)
    rec("", M(init), depth)
    G.sequences += len(out)
    return out, len(states)


def jobs(st):
    def mk():
        plan = [("global", 4 if THOROUGH else 3, OPS, ("-O0",)), ("global", 4 if THOROUGH else 3, OPS, ("-O2",)), ("local", 3, OPS, ("-O1",)), ("heap", 3, OPS, ("-O0",)), ("nested", 3, OPS, ("-O2",)), ("local", 3, OPS, ("-O0",)),
                ("global", 5 if THOROUGH else 4, "abcdgklmno", ("-O0",)), ("local", 5 if THOROUGH else 4, "abcejnstqu", ("-O2",))]
        if THOROUGH: plan += [("local", 3, OPS, ("-m32", "-O1")), ("heap", 3, OPS, ("-O3",)), ("nested", 3, OPS, ("-O1", "-g"))]
        for place, depth, ops, cfg in plan:
            t, n = tapes(depth, ops)
            st[0] = max(st[0], n)
            src = driver(place)
            step = 12000
            for i in range(0, len(t), step):
                yield "S " + place, src, cfg, t[i:i + step]
    return mk()


def main():
    chk = Check("C10", "exploration")
    cfgs = [("-O0",), ("-O2",)]
    if THOROUGH: cfgs += [("-O1",), ("-O3",), ("-m32", "-O1"), ("-no-memcpy", "-O1"), ("-g", "-O0")]
    keys = set()

    def gen():
        for c in cases():
            if c.key in keys: raise AssertionError("duplicate key " + c.key)
            c.body = "sz1; sz2;\n" + c.body
            keys.add(c.key)
            if len(keys) % 211 == 1: chk.samples.append({"case": c.key, "body": (c.decl + c.body)[-300:], "expected": c.expect[:80]})
            yield c
    ev = run_cases(chk, gen(), cfgs, batch=20, header=HEADER)
    st = [0]
    seqs = run_tapes(chk, jobs(st))
    chk.finish(evaluations=ev + seqs, distinct_nontrivial=len(keys) + seqs, exhaustive=True, operand_pairs=G.pairs, unary_evaluations=G.unary, sequences=seqs, model_states=st[0],
               rule="a case is one pair of operand forms and operation over all pairs of probe values, or one use of one form; a sequence is one list of string statements, its final state compared with the model",
               configurations=[" ".join(c) for c in cfgs])
