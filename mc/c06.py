"""C06: a case statement runs exactly the branch whose labels contain the selector, or otherwise, or nothing.
For each selector type and window position, every assignment of the window's values to {branch a, branch b, no label},
spelled in several ways (singles, ranges, lists, reversed, named constants), with and without otherwise/else, run for
every value in and around the window and the extremes of the type."""
import itertools
from core import Case, standard, THOROUGH
from c05 import lit, EN as EN5

IMIN, IMAX, LMIN, LMAX = -2**31, 2**31 - 1, -2**63, 2**63 - 1
NEN = 40
EN = ["e%d" % i for i in range(NEN)]


class G:
    case_statements = selectors = 0


# name -> (pascal type, type lo, hi, windows (start))
T = {
    "int": ("integer", IMIN, IMAX, [0, -2, 97, IMIN + 1, IMAX - 4, 65533]),
    "long": ("longint", LMIN, LMAX, [0, -2, 97, IMAX - 6, IMIN + 2]),
    "sub": ("-5..300", -5, 300, [-5, -2, 126, 253, 296]),
    "char": ("char", 0, 255, [33, 97, 125, 126, 250, 36]),
    "csub": ("'a'..'m'", 97, 109, [97, 105]),
    "enum": ("en", 0, NEN - 1, [0, 17, NEN - 5]),
    "esub": ("es", 2, 9, [2, 5]),
}
HEADER = "type en = (%s); es = e2..e9;\nvar ge: array [0..%d] of en;\nprocedure geninit; var q: en; begin for q := e0 to e%d do ge[ord(q)] := q end;\n" % (", ".join(EN), NEN - 1, NEN - 1)


def L(t, v):
    if t in ("enum", "esub"): return EN[v]
    if t in ("char", "csub"): return "'%s'" % (chr(v) if v != 39 else "''")
    return str(v)


def pieces(t, vals, style):
    """Label texts for a set of values."""
    vals = sorted(vals)
    if style == "single": return [L(t, v) for v in vals]
    if style == "reversed": return [L(t, v) for v in reversed(vals)]
    out, i = [], 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1: j += 1
        out.append(L(t, vals[i]) if i == j else "%s..%s" % (L(t, vals[i]), L(t, vals[j])))
        i = j + 1
    return out if style == "range" else out[::-1]


def ok(v):
    """decimal literals from 2^31 to 2^32-1 are 32-bit patterns in lacsap (see the C01 finding)"""
    return not 2**31 <= abs(v) < 2**32


def probes(t, w0, n):
    lo, hi = T[t][1], T[t][2]
    ps = [v for v in range(w0 - 2, w0 + n + 2) if lo <= v <= hi]
    for v in (lo, hi, 0, -1, 1, 255, 256, w0 + 256, w0 - 256, w0 + 2**32, w0 - 2**32, w0 + 128):
        if lo <= v <= hi and v not in ps: ps.append(v)
    return [v for v in ps if ok(v)]


def setval(t, v, var):
    if t in ("enum", "esub"): return "%s := ge[%d]" % (var, v)
    if t in ("char", "csub"): return "%s := chr(%d)" % (var, v)
    if v == IMIN and t != "long": return "%s := -2147483647 - 1" % var
    if v < LMIN + 1: return "%s := -9223372036854775807 - 1" % var
    return "%s := %d" % (var, v)


def other_text(other, i):
    return {"no": "", "otherwise": "; otherwise write('o')", "else": "; else write('o')", "block": "; otherwise begin write('o'); write('') end"}[other]


def stmts(t, w0, n, style, other, sel):
    """All assignments for one window: yields (key, statement text, dict value->letter)."""
    for asg in itertools.product("ab.", repeat=n):
        br = {b: [w0 + i for i, x in enumerate(asg) if x == b] for b in "ab"}
        if not br["a"] and not br["b"]: continue
        order = "ba" if style in ("reversed", "rangeback") else "ab"
        txt = "; ".join("%s: write('%s')" % (", ".join(pieces(t, br[b], style)), b) for b in order if br[b])
        yield "".join(asg), "case %s of %s%s end" % (sel, txt, other_text(other, 0)), {w0 + i: x for i, x in enumerate(asg)}


def bundle(t, w0, n, style, other, selform):
    pt = T[t][0]
    sel = {"var": "v", "expr": "same@N(v)", "field": "r.f", "elem": "a[1]", "ptr": "p^"}[selform]
    ps = probes(t, w0, n)
    allst = list(stmts(t, w0, n, style, other, sel))
    per = 26
    for b in range(0, len(allst), per):
        part = allst[b:b + per]
        decl = "type ty = %s; var v: ty; r: record g: char; f: ty end; a: array [0..2] of ty; p: ^ty;\nprocedure show;\nbegin r.f := v; a[1] := v; p^ := v;\n" % pt
        exp = ""
        for _, s, _ in part:
            decl += s + "; write('|');\n"
        decl += "writeln end;"
        body = "new(p); geninit; " + "".join("%s; show; " % setval(t, v, "v") for v in ps)
        glob = "type ty@N = %s; function same@N(x: ty@N): ty@N; begin same@N := x end;" % pt
        for v in ps:
            for _, _, m in part:
                x = m.get(v, ".")
                exp += ("o" if other != "no" else "") if x == "." else x
                exp += "|"
            exp += "\n"
        G.case_statements += len(part)
        G.selectors += len(part) * len(ps)
        yield Case("B %s at %d width %d %s other=%s selector=%s #%d" % (t, w0, n, style, other, selform, b // per), body, exp, decl=decl, glob=glob)


def wide():
    """Ranges around the limit of 32 values and up to the whole type, next to singles and other ranges."""
    for t, (pt, lo, hi, _) in T.items():
        if t == "esub": continue
        spans = []
        ls = {"int": [(0, n) for n in (30, 31, 32, 33, 34, 100, 1000)] + [(-40, 40), (-100, -50), (IMIN + 1, -1), (0, IMAX), (1, 10**9), (IMIN + 1, IMAX - 1), (IMAX - 40, IMAX), (IMAX - 1, IMAX)],
              "long": [(0, n) for n in (31, 32, 33, 100)] + [(-40, 40), (-100, -50), (1, 10**9), (-10**9, -5), (0, IMAX)],
              "sub": [(-5, 28), (-5, 300), (0, 255), (100, 140), (-3, 40)],
              "char": [(33, 64), (33, 65), (33, 66), (33, 67), (97, 125), (40, 126), (126, 160), (100, 200), (32, 255), (32, 127), (128, 255), (14, 126), (127, 255), (200, 255)],
              "csub": [(97, 108), (97, 109)],
              "enum": [(0, 31), (0, 32), (0, 33), (0, NEN - 1), (3, 38), (7, 39)]}[t]
        for a, b in ls:
            for kind in ("alone", "gap", "two", "other"):
                m = {}
                def span(x, y, c):
                    m[(x, y)] = c
                labels = []
                if kind == "alone": spans = [(a, b, "r")]
                elif kind == "other": spans = [(a, b, "r")]
                elif kind == "gap":  # two ranges in one label list with singles between
                    if b - a < 4: continue
                    mid = (a + b) // 2
                    spans = [(a, mid - 1, "r"), (mid + 1, b, "r"), (mid, mid, "s")]
                else:
                    if b - a < 4: continue
                    mid = (a + b) // 2
                    spans = [(mid + 1, b, "x"), (a, mid - 1, "r")]
                by = {}
                for x, y, c in spans:
                    by.setdefault(c, []).append((x, y))
                txt = "; ".join("%s: write('%s')" % (", ".join(L(t, x) if x == y else "%s..%s" % (L(t, x), L(t, y)) for x, y in l), c) for c, l in by.items())
                other = kind in ("other", "two")
                ps = sorted({v for x, y, _ in spans for v in (x - 1, x, x + 1, (x + y) // 2, y - 1, y, y + 1, x + 256, y - 256, x + 2**32, y - 2**32)} | {lo, hi, 0})
                ps = [v for v in ps if lo <= v <= hi and ok(v)]
                exp = ""
                for v in ps:
                    c = next((c for x, y, c in spans if x <= v <= y), "o" if other else "")
                    exp += c + "."
                G.case_statements += 1
                G.selectors += len(ps)
                yield Case("W %s %d..%d %s" % (t, a, b, kind), "geninit; " + "".join("%s; show; " % setval(t, v, "v") for v in ps), exp,
                           decl="type ty = %s; var v: ty;\nprocedure show; begin case v of %s%s end; write('.') end;" % (pt, txt, "; otherwise write('o')" if other else ""))


BOD = {  # branch bodies with control flow; model returns text for branch a
    "if": ("if x > 1 then write('>') else write('<')", lambda x: ">" if x > 1 else "<"),
    "for": ("for k := 1 to x do write(k:1)", lambda x: "".join(str(k) for k in range(1, x + 1))),
    "while": ("begin k := x; while k > 0 do begin write(k:1); k := k - 1 end end", lambda x: "".join(str(k) for k in range(x, 0, -1))),
    "repeat": ("begin k := 0; repeat k := k + 1; write(k:1) until k >= x end", lambda x: "".join(str(k) for k in range(1, max(x, 1) + 1))),
    "case": ("case x of 0: write('z'); 1, 3: write('t'); otherwise write('n') end", lambda x: "z" if x == 0 else "t" if x in (1, 3) else "n"),
    "casenone": ("case x of 0: write('z'); 1..2: write('t') end", lambda x: "z" if x == 0 else "t" if x in (1, 2) else ""),
    "empty": ("", lambda x: ""),
    "call": ("pr(x)", lambda x: "[%d]" % x),
    "rec": ("self(x - 1)", None),
    "andthen": ("if (x > 0) and_then (10 div x > 4) then write('&') else write('!')", lambda x: "&" if x > 0 and 10 // x > 4 else "!"),
    "goto": ("begin if x = 2 then goto 7; write('n'); 7: write('l') end", lambda x: "l" if x == 2 else "nl"),
    "with": ("with r do begin f := x; write(f:1) end", lambda x: str(x)),
}


def nested():
    for (ka, (ta, fa)), (kb, (tb, fb)), other in itertools.product(BOD.items(), BOD.items(), ("no", "otherwise", "place")):
        if ka == "rec" or kb == "rec": continue
        if ka == "goto" and kb == "goto": tb, goto2 = tb.replace("7", "8"), True
        kc = "if" if kb != "if" else "for"
        tc, fc = BOD[kc]
        if other == "place":  # otherwise branch with body b
            txt = "case s of 1: %s; 2, 4: %s; otherwise %s end" % (ta, tc, tb)
            f = lambda s, x: fa(x) if s == 1 else fc(x) if s in (2, 4) else fb(x)
        elif other == "otherwise":
            txt = "case s of 1: %s; 2, 4: %s; otherwise write('o') end" % (ta, tb)
            f = lambda s, x: fa(x) if s == 1 else fb(x) if s in (2, 4) else "o"
        else:
            txt = "case s of 2..4: %s; 1: %s end" % (ta, tb)
            f = lambda s, x: fa(x) if s in (2, 3, 4) else fb(x) if s == 1 else ""
        exp = "".join("%s," % f(s, x) for s in range(0, 6) for x in range(0, 4))
        G.case_statements += 1
        G.selectors += 24
        yield Case("N %s / %s other=%s" % (ka, kb, other), "for s0 := 0 to 5 do for x0 := 0 to 3 do show(s0, x0)", exp,
                   decl="var s0, x0: integer; r: record f: integer end;\nprocedure pr(i: integer); begin write('[', i:1, ']') end;\n"
                   "procedure show(s, x: integer); label 7, 8; var k: integer; begin %s; write(',') end;" % txt)


def consts():
    """Labels that are named or computed constants."""
    forms = {"named": ("const c1 = 3; c2 = 5;", "c1", "c2"), "neg": ("const c1 = 3; c2 = -3;", "c1", "c2"), "expr": ("const c1 = 3; c2 = c1 + 4;", "c1", "c2"), "signed": ("", "-1", "+1"),
             "negname": ("const c1 = 3; c2 = 5;", "-c1", "-c2"), "inline": ("const c1 = 3; c2 = 5;", "c1 * 2", "c2 - 1")}
    for k, (d, a, b) in forms.items():
        c1, c2 = 3, (5 if k != "neg" else -3) if k != "expr" else 7
        va, vb = eval(a, {"c1": c1, "c2": c2}), eval(b, {"c1": c1, "c2": c2})
        exp = "".join("a" if v == va else "b" if v == vb else "o" for v in range(-9, 10))
        yield Case("C %s" % k, "for i := -9 to 9 do case i of %s: write('a'); %s: write('b'); otherwise write('o') end" % (a, b), exp, decl=d + " var i: integer;")
    yield Case("C char const", "for c := 'a' to 'f' do case c of k1: write('1'); k2..'e': write('2'); otherwise write('o') end", "o122" + "2o",
               decl="const k1 = 'b'; k2 = 'c'; var c: char;")
    yield Case("C enum const", "for c := e0 to e5 do case c of k1: write('1'); k2..e4: write('2'); otherwise write('o') end", "o1222o", decl="const k1 = e1; k2 = e2; var c: en;")
    yield Case("C single range", "for i := 0 to 3 do case i of 1..1: write('1'); 2: write('2') end; ", "12", decl="var i: integer;")
    yield Case("C trailing semicolon", "for i := 0 to 3 do case i of 1: write('1'); 2: write('2'); end; ", "12", decl="var i: integer;")
    yield Case("C selector evaluated once", "n := 0; for i := 0 to 5 do case f(i) of 1, 3: write('1'); 2: write('2'); 40..90: write('w'); otherwise write('o') end; write(n:1)", "o121oo6",
               decl="var i, n: integer; function f(i: integer): integer; begin n := n + 1; f := i end;")
    yield Case("C many branches", "for i := -1 to 100 do case i of %s otherwise write('o ') end" % "".join("%d: write('%d ');" % (v, v) for v in range(0, 99, 2)),
               "".join("%d " % v if 0 <= v < 99 and v % 2 == 0 else "o " for v in range(-1, 101)), decl="var i: integer;")
    for a, b in itertools.product((0, 1), repeat=2):
        for o in (0, 1):
            labs = ["%s: write('%s')" % (v, v[0]) for v, u in (("true", a), ("false", b)) if u]
            if not labs: continue
            yield Case("C boolean true=%d false=%d other=%d" % (a, b, o), "for i := 0 to 3 do case odd(i) of %s%s end" % ("; ".join(labs), "; otherwise write('o')" if o else ""),
                       "".join(("f" if b else "o" * o) if v % 2 == 0 else ("t" if a else "o" * o) for v in range(4)), decl="var i: integer;")


def cases():
    yield from consts()
    yield from wide()
    yield from nested()
    for t, (pt, lo, hi, ws) in T.items():
        for wi, w0 in enumerate(ws):
            n = 5 if THOROUGH else 4
            for si, style in enumerate(("single", "reversed", "range", "rangeback")):
                for oi, other in enumerate(("no", "otherwise", "else", "block")):
                    if not THOROUGH and (si + oi + wi) % 2: continue
                    if t == "int" and w0 < -2**30 and 0: continue
                    yield from bundle(t, w0, n, style, other, ("var", "expr", "field", "elem", "ptr")[(wi + si + oi) % 5])


def main():
    standard("C06", cases, G, HEADER, [("-O0",), ("-O2",), ("-m32", "-O1")],
             "a case is one selector type, window, spelling and otherwise form with 26 of the label assignments; or one wide-range, nested-body or constant-label shape; distinct by these",
             batch=30)
