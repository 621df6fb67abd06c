"""C09: set values and operators are the mathematical sets (exhaustive over all subsets of the probe elements of every base type)."""
import itertools
from core import *

# name -> (pascal type, lo, hi, probe ordinals, literal(ordinal), host type, extra type text)
ENUM5 = ["c%d" % i for i in range(5)]
ENUM40 = ["w%d" % i for i in range(40)]


def ilit(k): return str(k)
def clit(k): return "'%s'" % chr(k) if 32 <= k < 127 and k != 39 else "chr(%d)" % k
def blit(k): return ("false", "true")[k]


TYPES = {}


def ty(name, text, lo, hi, probes, lit=ilit, host="integer"):
    TYPES[name] = dict(name=name, text=text, lo=lo, hi=hi, probes=probes, lit=lit, host=host)


ty("s0", "0..3", 0, 3, [0, 1, 2, 3])
ty("s1", "1..5", 1, 5, [1, 2, 3, 4, 5])
ty("s2", "5..8", 5, 8, [5, 6, 7, 8])
ty("s3", "0..31", 0, 31, [0, 1, 15, 30, 31])
ty("s4", "0..32", 0, 32, [0, 1, 30, 31, 32])
ty("s5", "30..65", 30, 65, [30, 31, 32, 61, 62, 65])
ty("s6", "0..255", 0, 255, [0, 31, 32, 128, 224, 255])
ty("s7", "0..511", 0, 511, [0, 63, 64, 256, 480, 511])
ty("s8", "100..140", 100, 140, [100, 127, 128, 131, 132, 140])
ty("s9", "-2..2", -2, 2, [-2, -1, 0, 1, 2])
ty("s10", "-40..40", -40, 40, [-40, -9, -8, -1, 0, 40])
ty("ch", "char", 0, 255, [48, 65, 97, 122, 95, 126], clit, "char")
ty("cs", "'a'..'z'", 97, 122, [97, 98, 109, 121, 122], clit, "char")
ty("bo", "boolean", 0, 1, [0, 1], blit, "boolean")
ty("en", "en5", 0, 4, [0, 1, 2, 3, 4], lambda k: ENUM5[k], "en5")
ty("ew", "en40", 0, 39, [0, 1, 31, 32, 38, 39], lambda k: ENUM40[k], "en40")
ty("es", "c1..c3", 1, 3, [1, 2, 3], lambda k: ENUM5[k], "en5")



def header(cases):
    """declarations for the base types this batch uses"""
    names = {c.tag for c in cases}
    ts = [t for t in TYPES.values() if t["name"] in names]
    h = "type en5 = (%s);\n en40 = (%s);\n" % (", ".join(ENUM5), ", ".join(ENUM40))
    for t in ts:
        n, k = t["name"], len(t["probes"])
        h += " t{n} = set of {x}; r{n} = record g1: integer; s: t{n}; g2: integer end; a{n} = array [0..2] of t{n}; p{n} = ^t{n};\n".format(n=n, x=t["text"])
    h += "var gg: integer;\n"
    for t in ts:
        h += " q{n}: array [0..{k}] of {h}; f{n}, gl{n}: t{n}; gr{n}: r{n}; ga{n}: a{n}; gp{n}: p{n}; fr{n}: t{n};\n".format(
            n=t["name"], h=t["host"], k=len(t["probes"]) - 1)
    h += "procedure wb(b: boolean); begin if b then write('1') else write('0') end;\n"
    for t in ts:
        n, k = t["name"], len(t["probes"])
        h += """procedure mk{n}(m: integer; var s: t{n}); var i: integer;
begin s := []; for i := 0 to {k} do if odd(m shr i) then s := s + [q{n}[i]]; s := s + f{n} end;
procedure sh{n}(s: t{n}); var i, m: integer;
begin m := 0; for i := 0 to {k} do if q{n}[i] in s then m := m + (1 shl i); write(m:1, '.', popcnt(s):1, ' ') end;
procedure vp{n}(s: t{n}); begin s := s + [q{n}[0]]; s := s - [q{n}[1]]; fr{n} := s end;
function fn{n}(s: t{n}): t{n}; begin fn{n} := s end;
function fm{n}(m: integer): t{n}; var s: t{n}; begin mk{n}(m, s); fm{n} := s end;
""".format(n=n, k=k - 1)
    return h


for t in TYPES.values():
    t["init"] = "".join("q%s[%d] := %s; " % (t["name"], i, t["lit"](p)) for i, p in enumerate(t["probes"]))


def init(t, filler):
    s = t["init"]
    n = t["name"]
    s += "f%s := []; " % n
    if filler:
        # a constant complement of the probes
        s += "f%s := %s; " % (n, fill_lit(t))
    return s


def fill_set(t):
    return [k for k in range(t["lo"], t["hi"] + 1) if k not in t["probes"]]


def fill_lit(t):
    parts, run = [], []
    for k in fill_set(t):
        if run and k == run[-1] + 1:
            run.append(k)
        else:
            if run: parts.append(run)
            run = [k]
    if run: parts.append(run)
    return "[" + ", ".join(t["lit"](r[0]) if len(r) == 1 else "%s..%s" % (t["lit"](r[0]), t["lit"](r[-1])) for r in parts) + "]"


OPS = {"+": lambda a, b: a | b, "-": lambda a, b: a & ~b, "*": lambda a, b: a & b, "><": lambda a, b: a ^ b}
RELS = {"=": lambda a, b: a == b, "<>": lambda a, b: a != b, "<=": lambda a, b: a & ~b == 0, ">=": lambda a, b: b & ~a == 0,
        "<": lambda a, b: a != b and a & ~b == 0, ">": lambda a, b: a != b and b & ~a == 0}


class G:
    pairs = 0


def shown(t, m, fill):
    """m: mask over probes; fill: number of filler elements present"""
    return "%d.%d " % (m, bin(m).count("1") + fill)


def fillcount(t, op, fa, fb):
    n = len(fill_set(t))
    f = {"+": fa | fb, "-": fa & ~fb & 1, "*": fa & fb, "><": fa ^ fb}[op]
    return n * f


FORMS = {  # name -> (declaration, setup from mask variable %m, reference)
    "local": ("%v: t{n};", "mk{n}(%m, %v); ", "%v"),
    "global": ("", "mk{n}(%m, gl{n}); ", "gl{n}"),
    "field": ("%v: r{n};", "mk{n}(%m, %v.s); ", "%v.s"),
    "elem": ("%v: a{n}; j%v: integer;", "j%v := 1; mk{n}(%m, %v[j%v]); ", "%v[j%v]"),
    "ptr": ("%v: p{n};", "new(%v); mk{n}(%m, %v^); ", "%v^"),
    "func": ("%v: t{n};", "mk{n}(%m, %v); ", "fn{n}(%v)"),
    "func2": ("", "", "fm{n}(%m)"),
    "paren": ("%v: t{n};", "mk{n}(%m, %v); ", "(%v * %v)"),
    "sum": ("%v: t{n};", "mk{n}(%m, %v); ", "([] + %v)"),
}


def form(f, v, m, n):
    return tuple(x.replace("%v", v).replace("%m", m).replace("{n}", n) for x in FORMS[f])


def opcase(t, fa, fb, masks, filler, nm):
    n = t["name"]
    da, sa, ra = form(fa, "a", "i", n)
    db, sb, rb = form(fb, "b", "j", n)
    body = init(t, filler) + "for i := 0 to %d do for j := 0 to %d do if odd((i + j) div %d) or (i < %d) then begin %s%s\n" % (
        masks - 1, masks - 1, 1, masks, sa, sb)
    exp = []
    for op in OPS:
        body += "r := %s %s %s; sh%s(r); " % (ra, op, rb, n)
    for op in RELS:
        body += "wb(%s %s %s); " % (ra, op, rb)
    # the operands are unchanged
    body += "sh%s(%s); sh%s(%s); " % (n, ra, n, rb)
    body += "if g <> 7777 then write('guard');\nwriteln end"
    nf = len(fill_set(t)) * filler
    for i in range(masks):
        for j in range(masks):
            line = ""
            for op, f in OPS.items():
                line += shown(t, f(i, j), fillcount(t, op, filler, filler))
            for op, f in RELS.items():
                line += "1" if f(i, j) else "0"
            line += shown(t, i, nf) + shown(t, j, nf)
            exp.append(line)
    G.pairs += masks * masks
    return Case("A %s %s/%s fill%d" % (n, fa, fb, filler), "g := 7777; " + body, "\n".join(exp) + "\n",
                decl="var i, j: integer; h: integer; r: t%s; g: integer; %s %s" % (n, da, db))


def subsets(xs):
    for k in range(len(xs) + 1):
        yield from itertools.combinations(xs, k)


def outside(t):
    """integers outside the base range, to be tested with in"""
    if t["host"] != "integer":
        return []
    return [x for x in (t["lo"] - 1, t["hi"] + 1, t["lo"] - 32, t["hi"] + 32, t["hi"] + 33, -1, -33, 600, 1000000, -1000000) if not t["lo"] <= x <= t["hi"]]


def spell(t, sub, style):
    """the text of a constant set expression"""
    sub = sorted(sub)
    if style == 0:
        return "[" + ", ".join(t["lit"](k) for k in sub) + "]"
    parts, run = [], []
    for k in sub:
        if run and k == run[-1] + 1:
            run.append(k)
        else:
            if run: parts.append(run)
            run = [k]
    if run: parts.append(run)
    if style == 2:
        parts.reverse()
    return "[" + ", ".join(t["lit"](r[0]) if len(r) == 1 and style == 1 else "%s..%s" % (t["lit"](r[0]), t["lit"](r[-1])) for r in parts) + "]"


def litcases(t):
    n = t["name"]
    pr = t["probes"]
    if pr[0] == t["lo"] and t["hi"] - t["lo"] < 6:
        pass
    ps = pr if len(pr) <= 5 else pr[:2] + pr[3:4] + pr[-2:]
    for sub in subsets(ps):
        if not sub and n != "s0":
            continue
        m = sum(1 << pr.index(k) for k in sub)
        for style in (0, 1, 2):
            txt = spell(t, sub, style)
            if style and txt == spell(t, sub, style - 1):
                continue
            body = init(t, 0) + "s := %s; sh%s(s); " % (txt, n)
            exp = shown(t, m, 0)
            body += "s := [%s]; s := s + %s; sh%s(s); " % (t["lit"](pr[0]), txt, n)
            exp += shown(t, m | 1, 0)
            body += "s := %s - s; sh%s(s); " % (txt, n)
            exp += shown(t, m & ~(m | 1), 0)
            body += "gl%s := %s; vp%s(%s); sh%s(fr%s); sh%s(fn%s(%s)); " % (n, txt, n, txt, n, n, n, n, txt)
            exp += shown(t, (m | 1) & ~2, 0) + shown(t, m, 0)
            body += "for i := 0 to %d do wb(q%s[i] in %s); " % (len(pr) - 1, n, txt)
            exp += "".join("1" if k in sub else "0" for k in pr)
            for k in pr:
                body += "wb(%s in %s); " % (t["lit"](k), txt)
                exp += "1" if k in sub else "0"
            body += "wb(gl%s = %s); wb(%s <> gl%s); wb(%s <= gl%s); wb(gl%s >= %s); wb(gl%s < %s); " % (n, txt, txt, n, txt, n, n, txt, n, txt)
            exp += "10110"
            if sub:
                body += "write(' ', popcnt(gl%s * %s):1); " % (n, txt)
                exp += " %d" % len(sub)
            if outside(t) and sub:
                for x in outside(t):
                    body += "x := %d; wb(x in %s); wb(x in gl%s); " % (x, txt, n)
                    exp += "00"
            G.pairs += 1
            yield Case("B %s %s" % (n, txt), body, exp, decl="var s: t%s; i, x: integer;" % n)
            # a named constant
            glob = "const k@N = %s;" % txt
            body = init(t, 0) + "s := k@N; sh%s(s); s := [%s]; s := s + k@N; sh%s(s); for i := 0 to %d do wb(q%s[i] in k@N); gl%s := k@N; wb(gl%s = k@N)" % (
                n, t["lit"](pr[0]), n, len(pr) - 1, n, n, n)
            exp = shown(t, m, 0) + shown(t, m | 1, 0) + "".join("1" if k in sub else "0" for k in pr) + "1"
            if sub:
                yield Case("Bc %s %s" % (n, txt), body, exp, decl="var s: t%s; i, x: integer;" % n, glob=glob)


def rangecases(t):
    """constructors with ranges whose ends are constants, variables or expressions, empty ranges included"""
    n, pr = t["name"], t["probes"]
    h = t["host"]
    for e1, e2 in itertools.product(("c", "v", "e"), repeat=2):
        def end(e, i, k):
            if e == "c": return t["lit"](k)
            if e == "v": return "x" if i == 0 else "y"
            return ("q%s[%d]" % (n, pr.index(k)))
        body = init(t, 0)
        exp = ""
        for a, b in itertools.product(pr, repeat=2):
            if e1 == e2 == "c" and False: continue
            mem = [k for k in range(a, b + 1)]
            m = sum(1 << i for i, k in enumerate(pr) if a <= k <= b)
            body += "x := %s; y := %s; s := [%s..%s]; sh%s(s); " % (t["lit"](a), t["lit"](b), end(e1, 0, a), end(e2, 1, b), n)
            exp += shown(t, m, bin(0).count("1") + len([k for k in mem if k not in pr]))
            z = pr[len(pr) // 2]
            m2 = m | 1 << pr.index(z)
            body += "s := [%s, %s..%s]; sh%s(s); " % ("z" if e1 == "v" else t["lit"](z), end(e1, 0, a), end(e2, 1, b), n)
            exp += shown(t, m2, len([k for k in mem if k not in pr]))
            if t["lo"] >= 0 or e1 == e2 == "c":  # an integer constructor with run-time members and no typed operand is a set of 0..511
                body += "wb(z in [%s..%s]); " % (end(e1, 0, a), end(e2, 1, b))
                exp += "1" if a <= z <= b else "0"
            body += "\n"
            G.pairs += 3
        yield Case("C %s [%s..%s]" % (n, e1, e2), "z := %s; %s" % (t["lit"](pr[len(pr) // 2]), body), exp,
                   decl="var s: t%s; x, y, z: %s;" % (n, h))
    # members from variables, all pairs and triples
    neg = t["lo"] < 0
    body = init(t, 0) + "for i := 0 to {k} do for j := 0 to {k} do begin x := q{n}[i]; y := q{n}[j]; s := [x, y]; sh{n}(s); s := [x, {c}, y]; sh{n}(s); " \
        "s := [x]; sh{n}(s); %s writeln end".replace("%s", "" if neg else "for l := 0 to {k} do begin wb(q{n}[l] in [x, y]); wb(q{n}[l] in [x]); wb(q{n}[l] in [{c}, y]) end;").format(
            k=len(pr) - 1, n=n, c=t["lit"](pr[-1]))
    exp = ""
    for i in range(len(pr)):
        for j in range(len(pr)):
            exp += shown(t, 1 << i | 1 << j, 0) + shown(t, 1 << i | 1 << j | 1 << len(pr) - 1, 0) + shown(t, 1 << i, 0)
            for l in range(len(pr) if not neg else 0):
                exp += "%d%d%d" % (l in (i, j), l == i, l in (len(pr) - 1, j))
            exp += "\n"
    for xt in sorted({h, t["text"]}):
        yield Case("D %s members %s" % (n, xt), body, exp, decl="var s: t%s; x: %s; y: %s; i, j, l: integer;" % (n, xt, h))

    # sweep: every element of the base type
    if t["host"] != "en40" and t["host"] != "en5" and h != "boolean":
        conv = "k" if h == "integer" else "chr(k)"
        lo, hi = t["lo"], t["hi"]
        body = init(t, 0) + "for k := %d to %d do begin s := [%s]; c := 0; for l := %d to %d do if %s in s then begin c := c + 1; if l <> k then write('bad ', k:1, ' ', l:1) end; " \
            "if (c <> 1) or (popcnt(s) <> 1) then write('cnt ', k:1, ' ', c:1, ' ', popcnt(s):1); gl%s := gl%s + s end; write(popcnt(gl%s):1); " \
            "gl%s := gl%s - [%s..%s]; write(' ', popcnt(gl%s):1)" % (lo, hi, conv, lo, hi, conv.replace("k", "l"), n, n, n, n, n, t["lit"](t["probes"][1]), t["lit"](t["probes"][-2]), n)
        cnt = hi - lo + 1
        yield Case("E %s sweep" % n, "gl%s := []; " % n + body, "%d %d" % (cnt, cnt - (t["probes"][-2] - t["probes"][1] + 1)),
                   decl="var s: t%s; k, l, c: integer;" % n)


MIXED = [("0..40", 0, 40), ("20..70", 20, 70), ("5..36", 5, 36), ("0..31", 0, 31), ("0..32", 0, 32), ("0..63", 0, 63), ("0..64", 0, 64), ("33..60", 33, 60), ("1..33", 1, 33),
         ("-5..30", -5, 30), ("-33..33", -33, 33), ("32..64", 32, 64), ("31..95", 31, 95), ("64..96", 64, 96)]


def mixedcases():
    """operands whose base types are different subranges of one host type"""
    for (ta, la, ha), (tb, lb, hb) in itertools.product(MIXED, repeat=2):
        if ta == tb: continue
        lo, hi = max(la, lb), min(ha, hb)
        pts = sorted({la, ha, lb, hb, lo, hi, 0, 31, 32, 33, 63, 64})
        univ = [p for p in pts if la <= p <= ha or lb <= p <= hb]
        pa = [p for p in univ if la <= p <= ha]
        pb = [p for p in univ if lb <= p <= hb]
        pa, pb = pick(pa, lo, hi), pick(pb, lo, hi)
        ul = min(la, lb), max(ha, hb)
        body = "".join("pa[%d] := %d; " % x for x in enumerate(pa)) + "".join("pb[%d] := %d; " % x for x in enumerate(pb)) + \
            "".join("pu[%d] := %d; " % x for x in enumerate(univ))
        decl = "type ta = set of %s; tb = set of %s; var a, a2: ta; b, b2: tb; u: set of %d..%d; i, j, k: integer; pa, pb: array [0..9] of integer; " \
            "pu: array [0..29] of integer;\n" % (ta, tb, ul[0], ul[1])
        decl += "procedure sh; var i, m: integer; begin m := 0; for i := 0 to %d do if pu[i] in u then m := m + (1 shl i); write(m:1, '.', popcnt(u):1, ' ') end;\n" % (len(univ) - 1)
        body += "for i := 0 to %d do for j := 0 to %d do begin a := []; b := []; for k := 0 to 9 do begin if odd(i shr k) then a := a + [pa[k]]; if odd(j shr k) then b := b + [pb[k]] end;\n" % (
            (1 << len(pa)) - 1, (1 << len(pb)) - 1)
        for op in OPS:
            body += "u := a %s b; sh; " % op
        for op in RELS:
            body += "wb(a %s b); " % op
        body += "a2 := a * b; wb(a2 = a * b); b2 := a2; u := b2; sh; b2 := b * a; u := b2; sh; wb(b2 <= b); u := a; sh; u := b; sh; wb([pa[0]] + b = a); writeln end"
        exp = []

        def m(s):
            return "%d.%d " % (sum(1 << i for i, x in enumerate(univ) if x in s), len(s))
        for A in masks(pa):
            for B in masks(pb):
                exp.append("".join(m(f) for f in (A | B, A - B, A & B, A ^ B)) + "".join("1" if f else "0" for f in (
                    A == B, A != B, A <= B, A >= B, A < B, A > B)) + "1" + m(A & B) * 2 + "1" + m(A) + m(B) + ("1" if {pa[0]} | B == A and lb <= pa[0] <= hb else "0"))
        G.pairs += len(exp)
        if not lb <= pa[0] <= hb:  # the constructor next to b is of b's type
            body = body.replace(" wb([pa[0]] + b = a);", "")
            exp = [x[:-1] for x in exp]
        yield Case("M %s with %s" % (ta, tb), "mix", "\n".join(exp) + "\n", decl="procedure mix; %sbegin %s end;\n" % (decl, body))


def masks(ps):
    return [{p for i, p in enumerate(ps) if m >> i & 1} for m in range(1 << len(ps))]


def pick(ps, lo, hi):
    ps = sorted(ps)
    if len(ps) <= 4: return ps
    keep = [p for p in ps if p in (lo, hi)] + [ps[0], ps[-1]]
    for p in ps:
        if len(set(keep)) >= 5: break
        keep.append(p)
    return sorted(set(keep))


def seqcase(depth):
    """every sequence of operations up to `depth` on two sets between guard variables: interpreted by the program, predicted by the model"""
    ops = ["a := []", "a := a + [x]", "a := a - [y]", "a := b", "b := a", "a := a + b", "b := a * b", "a := a - b", "b := b >< a", "vps1(a)", "addv(a, x)", "addv(b, y)",
           "a := fns1(b)", "r.s := a; b := r.s", "arr[k] := a; arr[k + 1] := b; a := arr[k + 1]; b := arr[k]", "if x in a then b := b + [z] else b := b - [z]",
           "if a <= b then a := b - a", "b := [x..z] - a"]
    X, Y, Z = 1, 3, 5

    def step(st, o):
        a, b = st
        e = lambda k: 1 << (k - 1)
        if o == 0: a = 0
        elif o == 1: a |= e(X)
        elif o == 2: a &= ~e(Y)
        elif o == 3: a = b
        elif o == 4: b = a
        elif o == 5: a |= b
        elif o == 6: b &= a
        elif o == 7: a &= ~b
        elif o == 8: b ^= a
        elif o == 9: pass
        elif o == 10: a |= e(X)
        elif o == 11: b |= e(Y)
        elif o == 12: a = b
        elif o == 13: b = a
        elif o == 14: a, b = b, a
        elif o == 15: b = b | e(Z) if a & e(X) else b & ~e(Z)
        elif o == 16:
            if a & ~b == 0: a = b & ~a
        elif o == 17: b = 31 & ~a
        return a, b
    lines, stdin = [], []
    cnt = 0
    for d in range(1, depth + 1):
        for seq in itertools.product(range(len(ops)), repeat=d):
            if d > 2 and any(seq[i] == seq[i + 1] for i in range(d - 1)): continue
            st = (0b00110, 0b11000)
            for o in seq:
                st = step(st, o)
            stdin.append("%d %s" % (d, " ".join(map(str, seq))))
            lines.append("%d %d" % st)
            cnt += d
    G.seqs = len(lines)
    G.trans = cnt
    t = TYPES["s1"]
    decl = """procedure inner;
var g1: integer; a: ts1; g2: integer; b: ts1; g3: integer; r: rs1; arr: as1; i, k, d, o, nseq, x, y, z, ma, mb: integer;
procedure addv(var s: ts1; e: integer); begin s := s + [e] end;
begin %s fs1 := []; x := 1; y := 3; z := 5; k := 1; g1 := 11; g2 := 22; g3 := 33; r.g1 := 44; r.g2 := 55;
read(nseq);
while nseq > 0 do begin nseq := nseq - 1; a := [2, 3]; b := [4, 5]; read(d);
 for i := 1 to d do begin read(o);
  case o of %s end end;
 ma := 0; mb := 0; for i := 1 to 5 do begin if i in a then ma := ma + (1 shl (i - 1)); if i in b then mb := mb + (1 shl (i - 1)) end;
 write(ma:1, ' ', mb:1);
 if (g1 <> 11) or (g2 <> 22) or (g3 <> 33) or (r.g1 <> 44) or (r.g2 <> 55) then write(' guard');
 writeln end end;
""" % (t["init"], "; ".join("%d: begin %s end" % (i, o) for i, o in enumerate(ops)))
    return Case("S sequences depth %d" % depth, "inner", "\n".join(lines) + "\n", decl=decl, stdin="%d\n%s\n" % (len(stdin), "\n".join(stdin)))


def cases():
    for t, c in tagged():
        c.tag = t
        yield c


def tagged():
    small = ["s0", "s2", "s5", "s9", "en", "ch"]
    for t in TYPES.values():
        for filler in (0, 1):
            if filler and not fill_set(t): continue
            yield t["name"], opcase(t, "local", "local", 1 << len(t["probes"]), filler, "")
        for fa, fb in itertools.product(FORMS, repeat=2):
            if (fa, fb) == ("local", "local"): continue
            if not THOROUGH and t["name"] not in small and fa != fb and "local" not in (fa, fb): continue
            if fa == fb == "global": continue
            yield t["name"], opcase(t, fa, fb, min(8, 1 << len(t["probes"])), 0, "")
        for c in litcases(t):
            yield t["name"], c
        for c in rangecases(t):
            yield t["name"], c
    for c in mixedcases():
        yield None, c
    yield "s1", seqcase(4 if THOROUGH else 3)


def main():
    chk = Check("C09", "exploration")
    cfgs = [("-O0",), ("-O1",), ("-m32", "-O2")]
    if THOROUGH:
        cfgs += [("-O2",), ("-O3",), ("-O1", "-g"), ("-m32", "-O0"), ("-no-memcpy", "-O1")]
    keys = set()

    def gen():
        for c in cases():
            assert c.key not in keys, c.key
            keys.add(c.key)
            if len(keys) % 397 == 1:
                chk.samples.append({"case": c.key, "body": c.body[:300], "expected": c.expect[:80]})
            yield c
    ev = run_cases(chk, gen(), cfgs, batch=30, header=header)
    chk.finish(evaluations=ev, distinct_nontrivial=len(keys), exhaustive=True, operand_pairs=G.pairs, sequences=getattr(G, "seqs", 0), transitions=getattr(G, "trans", 0),
               rule="a case is one base type x operand storage forms x operator set evaluated on every pair of subsets of the probe elements, one constant or "
               "run-time constructor shape on every member combination, or one operation sequence set; distinct by shape",
               configurations=[" ".join(c) for c in cfgs])
