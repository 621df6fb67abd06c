"""C24: conformant array parameters and schema types. Every index range x element type x kind of actual x var/value, every
chain of calls to the stated depth in which a conformant array is passed on (by another procedure, by itself, out of a
nested procedure, through a procedural parameter, from a slice), parameter lists that share bounds or alias; and every schema
form with every combination of actual discriminants, several instantiations in one program."""
import itertools, os
from core import Case, Check, run_cases, replay_files, THOROUGH

GEN = ["ga", "gb", "gc", "gd", "ge", "gf"]
I = str
CH = lambda k: "chr(%d)" % k
EN = lambda k: GEN[k]
BO = lambda k: "true" if k else "false"
# index types: name -> (type of the bounds, text of ordinal k, [(low, high)], how a bound is written, its text)
IDX = {
    "int": ("integer", I, [(1, 3), (0, 0), (0, 3), (-2, 1), (-5, -4), (250, 259), (2147483644, 2147483646), (-2147483647, -2147483645)], "%s:1", str),
    "sub": ("tsub", I, [(0, 3), (7, 9), (30, 30)], "%s:1", str),
    "by": ("tby", I, [(0, 2), (126, 129), (254, 255)], "%s:1", str),
    "sneg": ("tneg", I, [(-100, -98), (-1, 1), (99, 100)], "%s:1", str),
    "long": ("longint", I, [(1, 3), (-2, 0)], "%s:1", str),
    "char": ("char", CH, [(97, 99), (65, 65), (126, 130)], "ord(%s):1", str),
    "enum": ("tgen", EN, [(0, 5), (1, 3), (5, 5)], "ord(%s):1", str),
    "bool": ("boolean", BO, [(0, 1), (1, 1)], "%s", lambda k: "TRUE" if k else "FALSE"),
}
HEAD = """type tsub = 0..30; tby = 0..255; tneg = -100..100; tgen = (ga, gb, gc, gd, ge, gf); trec = record a: integer; b: char; c: longint end;
trow = array ['p'..'r'] of integer; tset = set of 0..40; tstr = string[10]; tnum = array [0..2] of trec; tptr = ^integer; tsm = 3..17;
var gg: integer; gl: longint;
"""


class El:
    def __init__(s, ty, assign, show, text): s.ty, s.assign, s.show, s.text = ty, assign, show, text


EL = {
    "int": El("integer", lambda v, k: "%s := %d" % (v, k * 7 - 3), lambda v: "write(' ', %s:1)" % v, lambda k: " %d" % (k * 7 - 3)),
    "char": El("char", lambda v, k: "%s := '%c'" % (v, 97 + k), lambda v: "write(' ', %s)" % v, lambda k: " %c" % (97 + k)),
    "small": El("tsm", lambda v, k: "%s := %d" % (v, 3 + k % 15), lambda v: "write(' ', %s:1)" % v, lambda k: " %d" % (3 + k % 15)),
    "bool": El("boolean", lambda v, k: "%s := %s" % (v, "odd(%d)" % k), lambda v: "write(' ', %s)" % v, lambda k: " TRUE" if k & 1 else " FALSE"),
    "long": El("longint", lambda v, k: "%s := %d" % (v, k * 10000000019 + 10000000000), lambda v: "write(' ', %s:1)" % v, lambda k: " %d" % (k * 10000000019 + 10000000000)),
    "real": El("real", lambda v, k: "%s := %d.25" % (v, k), lambda v: "write(' ', %s:1:2)" % v, lambda k: " %d.25" % k),
    "rec": El("trec", lambda v, k: "%s.a := %d; %s.b := '%c'; %s.c := %d" % (v, k, v, 97 + k, v, k + 10000000000),
              lambda v: "with %s do write(' ', a:1, b, c:1)" % v, lambda k: " %d%c%d" % (k, 97 + k, k + 10000000000)),
    "row": El("trow", lambda v, k: "%s['p'] := %d; %s['q'] := %d; %s['r'] := %d" % (v, k, v, k * 2, v, k * 3),
              lambda v: "write(' ', %s['p']:1, %s['q']:1, %s['r']:1)" % (v, v, v), lambda k: " %d%d%d" % (k, 2 * k, 3 * k)),
    "set": El("tset", lambda v, k: "%s := [%d, 40]" % (v, k), lambda v: "write(' '); for gg in %s do write(gg:1, ',')" % v, lambda k: " %d,40," % k),
    "str": El("tstr", lambda v, k: "%s := 's%s'" % (v, "x" * (k % 9)), lambda v: "write(' ', %s, '.')" % v, lambda k: " s%s." % ("x" * (k % 9))),
    "num": El("tnum", lambda v, k: "%s[0].a := %d; %s[2].c := %d" % (v, k, v, k + 5), lambda v: "write(' ', %s[0].a:1, '/', %s[2].c:1)" % (v, v), lambda k: " %d/%d" % (k, k + 5)),
}


def spread(lo, hi):
    """positions worth writing: ends and the middle"""
    return sorted({lo, hi, (lo + hi) // 2})


class Prog:
    """builds one case: a chain of procedures with conformant parameters, simulated alongside"""
    def __init__(s, ix, rng, el):
        s.bt, s.lit, _, s.bw, s.btext = IDX[ix]
        s.lo, s.hi = rng
        s.el = EL[el]
        s.arr = "array [%s..%s] of %s" % (s.lit(s.lo), s.lit(s.hi), s.el.ty)

    def par(s, name, lo, hi, var): return "%s%s: array [%s..%s: %s] of %s" % ("var " if var else "", name, lo, hi, s.bt, s.el.ty)

    def showall(s, a, l, h, i): return "write(' [', %s, '..', %s, ']'); for %s := %s to %s do begin %s end" % (s.bw % l, s.bw % h, i, l, h, s.el.show("%s[%s]" % (a, i)))

    def textall(s, st, lo=None, hi=None):
        lo, hi = s.lo if lo is None else lo, s.hi if hi is None else hi
        return " [%s..%s]" % (s.btext(lo), s.btext(hi)) + "".join(s.el.text(st[k]) for k in range(lo, hi + 1))


ACTUAL = {  # kind -> (declarations, the actual)
    "var": ("var x: %s;", "x"), "field": ("var q: record c: char; x: %s; d: char end;", "q.x"), "heap": ("var q: ^ta@N;", "q^"),
    "row": ("var q: array [1..3] of %s;", "q[2]"), "rowx": ("var q: array ['a'..'c', 0..1] of %s;", "q['b', 1]"), "hfield": ("var q: ^tr@N;", "q^.x"),
    "ctl": ("var x: %s;", "x"),
}


def fill(p, lv, base): return "; ".join(p.el.assign("%s[%s]" % (lv, p.lit(k)), base + k - p.lo) for k in range(p.lo, p.hi + 1))


def single(ix, rng, el, akind, var):
    p = Prog(ix, rng, el)
    glob = "type ta@N = %s; tr@N = record c: char; x: ta@N; d: char end;" % p.arr
    dcl, act = ACTUAL[akind]
    decl = dcl % "ta@N" if "%" in dcl else dcl
    st = {k: k - p.lo for k in range(p.lo, p.hi + 1)}
    st0 = dict(st)
    pos = spread(p.lo, p.hi)
    w = []
    for j, k in enumerate(pos):
        w.append(p.el.assign("a[%s]" % ("l" if k == p.lo else "h" if k == p.hi else p.lit(k)), 11 + j))
        st[k] = 11 + j
    decl += "\nprocedure f(%s); var i: %s; begin %s; %s; %s end;" % (p.par("a", "l", "h", var), p.bt, p.showall("a", "l", "h", "i"), "; ".join(w), p.showall("a", "l", "h", "i"))
    decl += "\nvar j: %s;" % p.bt
    body = ("new(q); " if akind in ("heap", "hfield") else "") + fill(p, act, 0) + "; f(%s); " % act
    show = p.showall(act, p.lit(p.lo), p.lit(p.hi), "j")
    exp = p.textall(st0) + p.textall(st) + p.textall(st if var else st0)
    return Case("single %s %d..%d %s %s %s" % (ix, p.lo, p.hi, el, akind, "var" if var else "value"), body + show, exp, decl=decl, glob=glob)


def chain(ix, rng, el, modes, links):
    """level j is entered with modes[j]; links[j] is how level j passes its array to level j+1"""
    p = Prog(ix, rng, el)
    glob = "type ta@N = %s;" % p.arr
    n = len(modes)
    pos = [p.lo, p.hi, (p.lo + p.hi) // 2, p.lo]
    out = []

    def sim(j, st):
        st = st if modes[j] else dict(st)
        out.append(p.textall(st))
        st[pos[j]] = 11 + j
        if j + 1 < n: sim(j + 1, st)
        out.append(p.textall(st))

    st = {k: k - p.lo for k in range(p.lo, p.hi + 1)}
    sim(0, st)
    out.append(p.textall(st))
    texts = []  # procedures, innermost level first
    for j in reversed(range(n)):
        a, l, h, i = "a%d" % j, "l%d" % j, "h%d" % j, "i%d" % j
        inner = ""
        act = "%s; " % p.el.assign("%s[%s]" % (a, p.lit(pos[j]) if pos[j] not in (p.lo, p.hi) else (l if pos[j] == p.lo else h)), 11 + j)
        if j + 1 < n:
            link = links[j]
            if link == "nest":   # a parameterless nested procedure does the call
                inner = "\nprocedure n%d; begin p%d(%s) end;" % (j, j + 1, a)
                call = "n%d" % j
            elif link == "nest2":  # ... and does it from one further level, having shown the array itself
                inner = "\nprocedure n%d; procedure m%d; var z: integer; begin z := 1; p%d(%s) end; begin m%d end;" % (j, j, j + 1, a, j)
                call = "n%d" % j
            elif link == "fp":   # through a procedural parameter
                inner = "\nprocedure n%d(procedure c(%s)); begin c(%s) end;" % (j, p.par("b", "bl", "bh", modes[j + 1]), a)
                call = "n%d(p%d)" % (j, j + 1)
            elif link == "inner":  # the called procedure itself is nested in this one
                inner = texts.pop()
                call = "p%d(%s)" % (j + 1, a)
            else:
                call = "p%d(%s)" % (j + 1, a)
            act += call + "; "
        texts.append("\nprocedure p%d(%s); var %s: %s;%s begin %s; %s%s end;" % (j, p.par(a, l, h, modes[j]), i, p.bt, inner, p.showall(a, l, h, i), act, p.showall(a, l, h, i)))
    decl = "var x: ta@N; j: %s;" % p.bt + "".join(texts)
    body = fill(p, "x", 0) + "; p0(x); " + p.showall("x", p.lit(p.lo), p.lit(p.hi), "j")
    key = "chain %s %d..%d %s %s %s" % (ix, p.lo, p.hi, el, "".join("rv"[not m] for m in modes), "-".join(links))
    return Case(key, body, "".join(out), decl=decl, glob=glob)


def recurse(ix, rng, el, modes, depth):
    """a procedure with one conformant parameter per mode calls itself, rotating its arrays"""
    p = Prog(ix, rng, el)
    m = len(modes)
    glob = "type ta@N = %s;" % p.arr
    names = ["abc"[k] for k in range(m)]
    pars = "; ".join(p.par(nm, "l" + nm, "h" + nm, v) for nm, v in zip(names, modes))
    shows = "; ".join(p.showall(nm, "l" + nm, "h" + nm, "i") for nm in names)
    rot = names[1:] + names[:1]
    pos = [p.lo, p.hi, (p.lo + p.hi) // 2]
    out = []

    def wr(j, nm): return p.el.assign("%s[%s]" % (nm, p.lit(pos[j % 3])), 0)

    def sim(n, sts):
        sts = [s if v else dict(s) for s, v in zip(sts, modes)]
        for s in sts: out.append(p.textall(s))
        for j, s in enumerate(sts): s[pos[j % 3]] = 11 + n + j
        if n: sim(n - 1, sts[1:] + sts[:1])
        for s in sts: out.append(p.textall(s))

    xs = [{k: 3 * j + k - p.lo for k in range(p.lo, p.hi + 1)} for j in range(m)]
    sim(depth, xs)
    for s in xs: out.append(p.textall(s))
    # elements assigned in the recursion depend on n: a case statement picks the constant
    asg = "case n of %s end" % "; ".join("%d: begin %s end" % (n, "; ".join(p.el.assign("%s[%s]" % (nm, p.lit(pos[j % 3])), 11 + n + j) for j, nm in enumerate(names))) for n in range(depth + 1))
    decl = "var %s: ta@N; i: %s;\nprocedure f(n: integer; %s); var i: %s; begin %s; %s; if n > 0 then f(n - 1, %s); %s end;" % (
        ", ".join("x" + nm for nm in names), p.bt, pars, p.bt, shows, asg, ", ".join(rot), shows)
    body = "; ".join(fill(p, "x" + nm, 3 * j) for j, nm in enumerate(names)) + "; f(%d, %s); " % (depth, ", ".join("x" + nm for nm in names))
    body += "; ".join(p.showall("x" + nm, p.lit(p.lo), p.lit(p.hi), "i") for nm in names)
    return Case("recurse %s %d..%d %s %s depth=%d" % (ix, p.lo, p.hi, el, "".join("rv"[not v] for v in modes), depth), body, "".join(out), decl=decl, glob=glob)


def alias(ix, rng, el, var, acts, shared):
    """two parameters, in one list (shared bounds) or two, given the same or different arrays"""
    p = Prog(ix, rng, el)
    glob = "type ta@N = %s;" % p.arr
    xs = {"x": {k: k - p.lo for k in range(p.lo, p.hi + 1)}, "y": {k: 5 + k - p.lo for k in range(p.lo, p.hi + 1)}}
    if shared:
        pars = "%sa, b: array [l..h: %s] of %s" % ("var " if var[0] else "", p.bt, p.el.ty)
        l2, h2 = "l", "h"
        var = (var[0], var[0])
    else:
        pars = p.par("a", "l", "h", var[0]) + "; " + p.par("b", "l2", "h2", var[1])
        l2, h2 = "l2", "h2"
    A = xs[acts[0]] if var[0] else dict(xs[acts[0]])
    B = xs[acts[1]] if var[1] else dict(xs[acts[1]])
    A[p.lo] = 11
    exp = p.textall(A) + p.textall(B)
    B[p.hi] = A[p.lo]
    exp += p.textall(A) + p.textall(B)
    if shared:
        t = dict(A)
        A.update(B)
        B.update(t)
        exp += p.textall(A) + p.textall(B)
    exp += p.textall(xs["x"]) + p.textall(xs["y"])
    swap = "for i := l to h do begin t := a[i]; a[i] := b[i]; b[i] := t end; " + p.showall("a", "l", "h", "i") + "; " + p.showall("b", l2, h2, "i") if shared else ""
    decl = "var x, y: ta@N; j: %s;\nprocedure f(%s); var i: %s; t: %s; begin %s; %s; %s; b[h] := a[l]; %s; %s; %s end;" % (
        p.bt, pars, p.bt, p.el.ty, p.el.assign("a[l]", 11), p.showall("a", "l", "h", "i"), p.showall("b", l2, h2, "i"), p.showall("a", "l", "h", "i"), p.showall("b", l2, h2, "i"), swap)
    body = fill(p, "x", 0) + "; " + fill(p, "y", 5) + "; f(%s, %s); " % acts + p.showall("x", p.lit(p.lo), p.lit(p.hi), "j") + "; " + p.showall("y", p.lit(p.lo), p.lit(p.hi), "j")
    return Case("alias %s %d..%d %s %s %s %s" % (ix, p.lo, p.hi, el, "".join("rv"[not v] for v in var), "".join(acts), "shared" if shared else "own"), body, exp, decl=decl, glob=glob)


def ranges(el, var, lo, hi, slices):
    """every (slice of an) array with bounds in a small square: bounds, contents, effect on the rest of the actual"""
    p = Prog("int", (lo, hi), el)
    glob = "type ta@N = %s;" % p.arr
    exp, calls = "", ""
    st = {k: k - lo for k in range(lo, hi + 1)}
    for a, b in slices:
        s = {k: st[k] for k in range(a, b + 1)}
        exp += p.textall(s, a, b)
        if var: st[a], st[b] = st[b], 12
        s[a] = s[b]
        s[b] = 12
        if var and a == b: st[a] = 12
        exp += p.textall(s, a, b) + p.textall(st)
        calls += "f(%s); %s; " % ("x" if (a, b) == (lo, hi) else "x[%d..%d]" % (a, b), p.showall("x", str(lo), str(hi), "j"))
    decl = "var x: ta@N; j: integer;\nprocedure f(%s); var i: integer; begin %s; a[l] := a[h]; %s; %s end;" % (
        p.par("a", "l", "h", var), p.showall("a", "l", "h", "i"), p.el.assign("a[h]", 12), p.showall("a", "l", "h", "i"))
    return Case("ranges %d..%d %s %s %s" % (lo, hi, el, "var" if var else "value", slices), fill(p, "x", 0) + "; " + calls, exp, decl=decl, glob=glob)


def conformant():
    small = {"int": [(-2, 1)], "char": [(97, 99)], "enum": [(1, 3)], "long": [(1, 3)], "by": [(126, 129)], "bool": [(0, 1)], "sub": [(7, 9)], "sneg": [(-1, 1)]}
    for ix in IDX:
        for rng in IDX[ix][2]:
            for el in EL:
                for var in (True, False):
                    for a in ACTUAL:
                        if a != "ctl": yield single(ix, rng, el, a, var)
    els3 = list(EL) if THOROUGH else ["int", "char", "rec", "long"]
    L = ["sep", "nest", "nest2", "fp", "inner"]
    for ix in small:
        for rng in (IDX[ix][2] if THOROUGH else small[ix]):
            for el in EL:
                for modes in itertools.product((True, False), repeat=2):
                    for link in L: yield chain(ix, rng, el, modes, (link,))
    for ix in (list(small) if THOROUGH else ["int", "char", "by"]):
        for el in els3:
            for modes in itertools.product((True, False), repeat=3):
                for links in itertools.product(L, repeat=2): yield chain(ix, small[ix][0], el, modes, links)
    if THOROUGH:
        for el in ("int", "rec"):
            for modes in itertools.product((True, False), repeat=4):
                for links in itertools.product(L, repeat=3): yield chain("int", (-2, 1), el, modes, links)
    for ix in small:
        for el in (list(EL) if THOROUGH or ix == "int" else els3):
            for n in (1, 2, 3):
                for modes in itertools.product((True, False), repeat=n):
                    for depth in ((0, 1, 2, 3) if THOROUGH else (1, 3)): yield recurse(ix, small[ix][0], el, modes, depth)
    for ix in small:
        for el in EL:
            for acts in (("x", "x"), ("x", "y"), ("y", "x")):
                for v in (True, False):
                    yield alias(ix, small[ix][0], el, (v, v), acts, True)
                    for w in (True, False): yield alias(ix, small[ix][0], el, (v, w), acts, False)
    R = 3 if not THOROUGH else 5
    for el in EL:
        for var in (True, False):
            for lo in range(-R, R + 1):
                for hi in range(lo, R + 1):
                    yield ranges(el, var, lo, hi, [(lo, hi)])
    for el in EL:
        for lo, hi in ((0, 3), (-2, 2), (5, 8)):
            sl = [(a, b) for a in range(lo, hi + 1) for b in range(a, hi + 1)]
            for s in sl: yield ranges(el, True, lo, hi, [s])
            yield ranges(el, True, lo, hi, sl)
            for s in itertools.product(sl[::2], repeat=2): yield ranges(el, True, lo, hi, list(s))


# ---------------------------------------------------------------- schemas
# form: (discriminants, Pascal text after '=', the same type written out for actual values, constraint)
def subr(lo, hi, lit=str): return "%s..%s" % (lit(lo), lit(hi))


FORMS = {
    "0..n": ("n: integer", "0..n", lambda n: "0..%d" % n, lambda n: n >= 0),
    "-2..n": ("n: integer", "-2..n", lambda n: "-2..%d" % n, lambda n: n >= -2),
    "m..n": ("m, n: integer", "m..n", lambda m, n: "%d..%d" % (m, n), lambda m, n: m <= n),
    "n..m": ("m, n: integer", "n..m", lambda m, n: "%d..%d" % (n, m), lambda m, n: n <= m),
    "sep": ("m: integer; n: integer", "m..n", lambda m, n: "%d..%d" % (m, n), lambda m, n: m <= n),
    "c..c": ("m, n: char", "m..n", lambda m, n: "'%c'..'%c'" % (m + 100, n + 100), lambda m, n: m <= n),
    "a..c": ("n: char", "'a'..n", lambda n: "'a'..'%c'" % (n + 100), lambda n: True),
    "e..e": ("m, n: tgen", "m..n", lambda m, n: "%s..%s" % (GEN[m], GEN[n]), lambda m, n: 0 <= m <= n),
    "b..b": ("n: boolean", "false..n", lambda n: "false..%s" % BO(n), lambda n: n in (0, 1)),
}
AFORMS = {  # array schemas: index part; the rest as above
    "a0n": ("n: integer", "0..n", lambda n: "0..%d" % n, lambda n: n >= 0),
    "amn": ("m, n: integer", "m..n", lambda m, n: "%d..%d" % (m, n), lambda m, n: m <= n),
    "anm": ("m, n: integer", "n..m", lambda m, n: "%d..%d" % (n, m), lambda m, n: n <= m),
    "acc": ("m, n: char", "m..n", lambda m, n: "'%c'..'%c'" % (m + 100, n + 100), lambda m, n: m <= n),
    "aee": ("m, n: tgen", "m..n", lambda m, n: "%s..%s" % (GEN[m], GEN[n]), lambda m, n: 0 <= m <= n),
    "a2": ("m, n: integer", "-1..m, 0..n", lambda m, n: "-1..%d, 0..%d" % (m, n), lambda m, n: m >= -1 and n >= 0),
    "a2x": ("m, n: integer", "0..n, boolean, -1..m", lambda m, n: "0..%d, boolean, -1..%d" % (n, m), lambda m, n: m >= -1 and n >= 0),
    "a2c": ("m, n: integer", "'a'..'c', m..n", lambda m, n: "'a'..'c', %d..%d" % (m, n), lambda m, n: m <= n),
}


def actual(form, v):
    d = form[0]
    if "char" in d: return ", ".join("'%c'" % (x + 100) for x in v)
    if "tgen" in d: return ", ".join(GEN[x] for x in v)
    if "boolean" in d: return ", ".join(BO(x) for x in v)
    return ", ".join(map(str, v))


def bounds(txt):
    """ordinals of each dimension of a written-out index list"""
    def o(t):
        t = t.strip()
        if t.startswith("'"): return ord(t[1])
        if t in GEN: return GEN.index(t)
        if t in ("false", "true"): return int(t == "true")
        return int(t)
    return [(0, 1) if d.strip() == "boolean" else tuple(o(x) for x in d.split("..")) for d in txt.split(",")]


def literal(txt, k):
    """text of ordinal k of the dimension written as txt"""
    txt = txt.strip()
    if "'" in txt: return "chr(%d)" % k
    if txt.startswith("g"): return GEN[k]
    if txt in ("boolean",) or txt.startswith(("true", "false")): return BO(k)
    return str(k)


def sub_case(name, form, vals):
    """subrange schema, instantiated with every tuple of vals in turn: as variable, index type, set base, record field, parameter"""
    glob = "type ts@N(%s) = %s;\n" % (form[0], form[1])
    decl, body, exp = "", "", ""
    n = len(vals)
    for j, v in enumerate(vals): glob += "ty@N_%d = ts@N(%s);\n" % (j, actual(form, v))
    decl = "type " + " ".join("ta%d = array [ts@N(%s)] of integer;" % (j, actual(form, v)) for j, v in enumerate(vals))
    decl += "\nvar k: longint; " + " ".join("v%d: ts@N(%s); a%d: ta%d; s%d: set of ty@N_%d; r%d: record c: char; f: ty@N_%d; d: char end; u%d: ty@N_%d;" % (j, actual(form, v), j, j, j, j, j, j, j, j) for j, v in enumerate(vals))
    for j, v in enumerate(vals):
        decl += "\nfunction f%d(x: ty@N_%d; var y: ty@N_%d): ty@N_%d; begin write(' ', ord(x):1, ord(y):1); y := x; f%d := x end;" % ((j,) * 5)
    for j, v in enumerate(vals):
        txt = form[2](*v)
        (lo, hi), = bounds(txt)
        L = lambda k: literal(txt, k)
        setok = lo >= 0
        for k in range(lo, hi + 1): body += "a%d[%s] := %d; " % (j, L(k), 100 * j + k - lo)
        body += "r%d.c := '%d'; r%d.d := 'z'; r%d.f := %s; " % (j, j, j, j, L(hi))
        body += "v%d := %s; u%d := v%d; " % (j, L(lo), j, j)
    for j, v in enumerate(vals):
        txt = form[2](*v)
        (lo, hi), = bounds(txt)
        L = lambda k: literal(txt, k)
        body += "for v%d := %s to %s do write(' ', a%d[v%d]:1); " % (j, L(lo), L(hi), j, j)
        exp += "".join(" %d" % (100 * j + k - lo) for k in range(lo, hi + 1))
        body += "write(' ', r%d.c, ord(r%d.f):1, r%d.d, ord(u%d):1, sizeof(a%d):1); " % (j, j, j, j, j)
        exp += " %d%dz%d%d" % (j, hi, lo, 4 * (hi - lo + 1))
        body += "v%d := f%d(%s, u%d); write(' ', ord(u%d):1, ord(v%d):1); " % (j, j, L(hi), j, j, j)
        exp += " %d%d %d%d" % (hi, lo, hi, hi)
        if lo >= 0:
            body += "s%d := [%s, %s]; for v%d in s%d do write(' ', ord(v%d):1); write(' ', %s in s%d); " % (j, L(lo), L(hi), j, j, j, L(lo), j)
            exp += "".join(" %d" % k for k in sorted({lo, hi})) + " TRUE"
    return Case("subrange schema %s %s" % (name, vals), body, exp, decl=decl, glob=glob)


def arr_case(name, form, vals, el):
    e = EL[el]
    glob = "type ts@N(%s) = array [%s] of %s;\n" % (form[0], form[1], e.ty)
    for j, v in enumerate(vals): glob += "ty@N_%d = ts@N(%s);\n" % (j, actual(form, v))
    decl = "var k: integer; " + " ".join("a%d: ts@N(%s); c%d, d%d: ty@N_%d; p%d: ^ty@N_%d; r%d: record x: char; f: ts@N(%s); y: char end;" % (j, actual(form, v), j, j, j, j, j, j, actual(form, v)) for j, v in enumerate(vals))
    body, exp = "", ""
    dims = []
    for j, v in enumerate(vals):
        txt = form[2](*v)
        ds = txt.split(",")
        cells = list(itertools.product(*[range(a, b + 1) for a, b in bounds(txt)]))
        dims.append((ds, cells))
        decl += "\nprocedure q%d(x: ty@N_%d; var y: ty@N_%d); begin y := x; %s end;" % (j, j, j, e.assign("x[%s]" % ", ".join(literal(t, k) for t, k in zip(ds, cells[0])), 3))
    if sum(len(c) for _, c in dims) > 40: return None
    ref = lambda nm, j, c: "%s[%s]" % (nm, ", ".join(literal(t, k) for t, k in zip(dims[j][0], c)))
    for j, v in enumerate(vals):
        body += "new(p%d); r%d.x := 'x'; r%d.y := 'y'; " % (j, j, j)
        for n, c in enumerate(dims[j][1]):
            body += e.assign(ref("a%d" % j, j, c), n % 20) + "; " + e.assign(ref("c%d" % j, j, c), (n + 1) % 20) + "; " + e.assign(ref("r%d.f" % j, j, c), (n + 2) % 20) + "; "
        body += "q%d(c%d, d%d); p%d^ := d%d; %s; " % (j, j, j, j, j, e.assign(ref("d%d" % j, j, dims[j][1][-1]), 4))
    for j, v in enumerate(vals):
        cells = dims[j][1]
        for nm, off in (("a%d", 0), ("c%d", 1), ("r%d.f", 2), ("p%d^", 1), ("d%d", 1)):
            for n, c in enumerate(cells):
                body += e.show(ref(nm % j, j, c)) + "; "
                exp += e.text(4 if nm == "d%d" and n == len(cells) - 1 else (n + off) % 20)
        body += "write(r%d.x, r%d.y, sizeof(a%d) div sizeof(%s):1); " % (j, j, j, ref("a%d" % j, j, cells[0]))
        exp += "xy%d" % len(cells)
        if len(dims[j][0]) == 1:
            pass
    return Case("array schema %s %s %s" % (name, vals, el), body, exp, decl=decl, glob=glob)


def set_case(m, n, frm, vals):
    txt = {"mn": "set of m..n", "0n": "set of 0..n"}[frm]
    glob = "type ts@N(%s: integer) = %s;\n" % ("m, n" if frm == "mn" else "n", txt)
    decl, body, exp = "var k: integer; ", "", ""
    for j, (a, b) in enumerate(vals):
        glob += "ty@N_%d = ts@N(%s);\n" % (j, "%d, %d" % (a, b) if frm == "mn" else b)
        lo = a if frm == "mn" else 0
        decl += "s%d, t%d: ty@N_%d; u%d: ts@N(%s); " % (j, j, j, j, "%d, %d" % (a, b) if frm == "mn" else b)
        el = sorted({lo, b, (lo + b) // 2})
        body += "s%d := [%s]; t%d := [%d..%d] - s%d; u%d := [%d]; for k in s%d do write(' ', k:1); write(';'); for k in t%d do write(' ', k:1); write(%d in s%d, %d in t%d, %d in u%d); s%d := s%d * t%d; write(s%d = []); " % (
            j, ", ".join(map(str, el)), j, lo, b, j, j, b, j, j, b, j, b, j, b, j, j, j, j, j)
        exp += "".join(" %d" % k for k in el) + ";" + "".join(" %d" % k for k in range(lo, b + 1) if k not in el) + "TRUEFALSETRUETRUE"
    return Case("set schema %s %s" % (frm, vals), body, exp, decl=decl, glob=glob)


def schemas():
    for name, form in FORMS.items():
        ar = form[3].__code__.co_argcount
        dom = range(-3, 6) if not THOROUGH else range(-3, 12)
        if "tgen" in form[0] or "boolean" in form[0]: dom = range(0, 6)
        tups = [v for v in itertools.product(dom, repeat=ar) if form[3](*v)]
        for v in tups: yield sub_case(name, form, [v])
        pick = tups if len(tups) <= 12 else tups[::4]
        for a in pick:
            for b in pick: yield sub_case(name, form, [a, b])
        for a, b in zip(pick, pick[1:]): yield sub_case(name, form, [a, b, a])
    for name, form in AFORMS.items():
        dom = range(-2, 4) if "tgen" not in form[0] else range(0, 6)
        tups = [v for v in itertools.product(dom, repeat=form[3].__code__.co_argcount) if form[3](*v)]
        for el in EL:
            for v in tups:
                c = arr_case(name, form, [v], el)
                if c: yield c
        pick = tups if len(tups) <= 8 else tups[::3]
        for el in ("int", "char", "rec"):
            for a, b in itertools.product(pick, repeat=2):
                c = arr_case(name, form, [a, b], el)
                if c: yield c
    for frm in ("mn", "0n"):
        vs = [(a, b) for a in range(0, 5) for b in range(a, 12)] + [(0, 63), (0, 64), (60, 70), (0, 255), (200, 255), (31, 33)]
        if frm == "0n": vs = sorted({(0, b) for _, b in vs})
        for v in vs: yield set_case(0, 0, frm, [v])
        for a, b in itertools.product(vs[::3], repeat=2): yield set_case(0, 0, frm, [a, b])


def main():
    chk = Check("C24", "exploration")
    chk.assumptions = ["conformant arrays of one dimension (the compiler rejects more); slices are passed to var parameters only; schemas: subranges, arrays and sets of the discriminants (the forms the compiler implements)"]
    pick = os.environ.get("MC_CASE")
    cfg = [("-O0",), ("-O2",)] if not THOROUGH else [("-O0",), ("-O1",), ("-O2",), ("-O3",), ("-O1", "-m32"), ("-O0", "-Cr"), ("-O1", "-no-memcpy"), ("-O0", "-g")]
    total = {"conformant": 0, "schemas": 0}
    n = 0
    for nm, gen in (("conformant", conformant), ("schemas", schemas)):
        def cases():
            for c in gen():
                if pick and pick not in c.key: continue
                total[nm] += 1
                if nm == "conformant" and total[nm] in (1, 500): chk.samples.append({"case": c.key, "predicted": c.expect[:300]})
                yield c
        n += run_cases(chk, cases(), cfg, batch=60, header=HEAD, cpu=20)
    # range checking on must change nothing for programs that stay in range
    chk.finish(distinct_nontrivial=sum(total.values()), rule="a case is one declaration of conformant parameters or schemas, its actuals and its calls, with the complete contents of all arrays printed before and after each", case_kinds=total, evaluations=n, configs=[" ".join(c) for c in cfg], exhaustive=not chk.full,
               bounds="index types/ranges %s x %d element types x 6 kinds of actual x var/value; call chains of depth 2-%d over 5 ways of passing on; recursion with 1-3 conformant parameters to depth 3; shared/own bounds with aliasing; all bounds in a square and all slices; schema forms %s with all discriminants in a small square, one to three instantiations" % (
                   {k: v[2] for k, v in IDX.items()}, len(EL), 4 if THOROUGH else 3, list(FORMS) + list(AFORMS)))


if __name__ == "__main__":
    main()
