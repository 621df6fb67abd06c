"""C17: a matrix of contexts x types (and kinds of names), judged by a reference type checker: ill-typed programs are rejected with a message and nothing is produced, well-typed ones are accepted."""
import itertools, os, re, shutil
from core import *

DECL = """program p(input, output);
type e1 = (aa, bb, cc); e2 = (dd, ee, ff); sub = 1..9; csub = 'a'..'f'; esub = aa..bb; st5 = string[5]; st9 = string[9];
ca3 = packed array [1..3] of char; ca4 = packed array [1..4] of char; ai = array [1..3] of integer; ai2 = array [1..3] of integer; ai4 = array [1..4] of integer; ar = array [1..3] of real;
r1 = record x, y: integer end; r2 = record x, y: integer end; pi = ^integer; pc = ^char; pr = ^r1; sc = set of char; si = set of 0..40; se = set of e1; fi = file of integer;
ob = object q: integer end; od = object(ob) z: integer end; oz = object q: integer end; sf = set of e2; pob = ^ob; pod = ^od;
"""
T = {"int": "integer", "long": "longint", "sub": "sub", "char": "char", "csub": "csub", "bool": "boolean", "e1": "e1", "esub": "esub", "e2": "e2", "real": "real", "cplx": "complex",
     "st5": "st5", "st9": "st9", "ca3": "ca3", "ca4": "ca4", "ai": "ai", "ai2": "ai2", "ai4": "ai4", "ar": "ar", "r1": "r1", "r2": "r2", "pi": "pi", "pc": "pc", "pr": "pr",
     "sc": "sc", "si": "si", "se": "se", "text": "text", "fi": "fi", "ob": "ob", "od": "od", "oz": "oz", "sf": "sf", "pob": "pob", "pod": "pod"}
HOST = {"sub": "int", "csub": "char", "esub": "e1"}
INTS, NUM, FILES = {"int", "long"}, {"int", "long", "real", "cplx"}, {"text", "fi"}
SETS = {"sc": "char", "si": "int", "se": "e1", "sf": "e2"}
PTRS = {"pi": "int", "pc": "char", "pr": "r1", "pob": "ob", "pod": "od"}
STRS = {"st5", "st9"}
CHARR = {"ca3", "ca4"}
ORD = {"int", "long", "char", "bool", "e1", "e2"}
ARR = {"ai": "int", "ai2": "int", "ai4": "int", "ar": "real", "ca3": "char", "ca4": "char"}
RECS = {"r1": "xy", "r2": "xy", "ob": "q", "od": "qz", "oz": "q"}
OPS = ["+", "-", "*", "/", "div", "mod", "and", "or", "=", "<>", "<", "<=", ">", ">=", "in", "><"]


def host(t): return HOST.get(t, t)


def strish(t): return host(t) == "char" or t in STRS or t in CHARR


def operator(op, a, b):
    """Does the operator take these operands (None: the statement says nothing)?"""
    a, b = host(a), host(b)
    if op in ("+", "-", "*"):
        return (a in NUM and b in NUM) or (a in SETS and a == b) or (op == "+" and strish(a) and strish(b))
    if op == "/": return a in NUM and b in NUM
    if op in ("div", "mod"): return a in INTS and b in INTS
    if op in ("and", "or"): return a == b == "bool" or (a in INTS and b in INTS)
    if op in ("=", "<>", "<", "<=", ">", ">="):
        if a in NUM and b in NUM: return op in ("=", "<>") or "cplx" not in (a, b)
        if strish(a) and strish(b):
            if a in CHARR and b in CHARR and a != b: return None
            if (a in CHARR and b == "char") or (b in CHARR and a == "char"): return None
            return True
        if a in SETS and a == b: return True
        if a == b and a in ORD: return True
        if {a, b} == {'pob', 'pod'}: return None if op in ('=', '<>') else False
        if a == b and a in PTRS: return op in ("=", "<>")
        return False
    if op == "in": return b in SETS and (a == SETS[b] if a != "long" else None)
    if op == "><": return a in SETS and a == b


def assign(d, s):
    if d in FILES: return False
    if d == s: return True
    hd, hs = host(d), host(s)
    if hd == hs and hd in ORD: return True
    if hd == "real": return hs in INTS
    if hd == "cplx": return hs in INTS or hs == "real"
    if hd == "long": return hs == "int"
    if hd == "int" and hs == "long": return None
    if d in STRS: return strish(s) if s not in CHARR else None
    if d in CHARR: return None if s in STRS or s in CHARR or hs == "char" else False
    if {d, s} <= {"ai", "ai2"} or {d, s} <= {"r1", "r2"} or {d, s} == {"ob", "oz"}: return None     # the same structure
    if (d, s) in (("ob", "od"), ("pob", "pod")): return True
    if d == "oz" and s == "od": return None
    return False


def varparm(f, a):
    """An argument of type a for 'var x: f'."""
    if f == a: return True
    if host(f) == host(a) and host(f) in ORD: return None
    if f in STRS and a in STRS: return None
    if {f, a} <= {"ai", "ai2"} or {f, a} <= {"r1", "r2"} or {f, a} == {"ob", "oz"}: return None
    if (f, a) in (("pob", "pod"), ("pod", "pob")): return None
    if f in ("ob", "oz") and a == "od": return None if f == "oz" else True
    return False


def P(body, decl="", glob=""): return DECL + glob + decl + "begin " + body + " end.\n"


def matrix():
    for s, d in itertools.product(T, T):
        v = "var s: %s; d: %s; " % (T[s], T[d])
        yield "assign %s := %s" % (d, s), P("d := s", v), assign(d, s)
        if d not in FILES:
            yield "value %s := %s" % (d, s), P("v(s)", v + "procedure v(x: %s); begin end; " % T[d]), assign(d, s)
        yield "var %s := %s" % (d, s), P("v(s)", v + "procedure v(var x: %s); begin end; " % T[d]), varparm(d, s)
        if d not in FILES and s not in FILES:
            yield "field %s := %s" % (d, s), P("r.d := a[1]", "var r: record n: integer; d: %s end; a: array [1..2] of %s; " % (T[d], T[s])), assign(d, s)
            yield "result %s := %s" % (d, s), P("d := f", v + "function f: %s; begin f := s end; " % T[s]), assign(d, s)
            yield "pointer %s := %s" % (d, s), P("d := s", "type pd = ^%s; ps = ^%s; var d: pd; s: ps; " % (T[d], T[s])), \
                True if d == s or (d, s) == ("ob", "od") else False if (d, s) == ("od", "ob") else None if host(d) == host(s) or assign(d, s) is not False or assign(s, d) is not False else False
        for op in OPS:
            yield "op %s %s %s" % (s, op, d), P("if (s %s d) = (s %s d) then" % (op, op), v), operator(op, s, d)


CMPX = ("=", "<>", "<", "<=", ">", ">=", "in", "and", "or")


def results():
    """The type of an operator's result, seen through an assignment."""
    for op, (a, b, r) in itertools.product(OPS, [("int", "int", "int"), ("real", "int", "real"), ("int", "real", "real"), ("long", "int", "long"), ("cplx", "real", "cplx"), ("char", "char", "st"), ("st5", "char", "st"),
                                                ("bool", "bool", "bool"), ("sc", "sc", "sc"), ("se", "se", "se"), ("char", "sc", ""), ("e1", "se", ""), ("e1", "e1", ""), ("pi", "pi", "")]):
        if not operator(op, a, b): continue
        if op in ("=", "<>", "<", "<=", ">", ">=", "in"): r = "bool"
        if op == "/" and r in INTS: r = "real"
        for d in T:
            if d in FILES: continue
            w = (d in STRS) if r == "st" else assign(d, r)
            if r == "st" and d in CHARR: w = None
            yield "result %s %s %s to %s" % (a, op, b, d), P("d := a %s b" % op, "var a: %s; b: %s; d: %s; " % (T[a], T[b], T[d])), w


def unary():
    for t in T:
        h = host(t)
        v = "var s: %s; i: integer; b: boolean; " % T[t]
        use = "if (%s s) = (%s s) then"
        yield "unary not " + t, P(use % ("not", "not"), v), h == "bool" or h in INTS
        yield "unary - " + t, P(use % ("-", "-"), v), h in NUM
        yield "unary + " + t, P(use % ("+", "+"), v), h in NUM
        for name, body in (("if", "if s then i := 1"), ("if else", "if s then i := 1 else i := 2"), ("while", "while s do i := 1"), ("repeat", "repeat i := 1 until s"),
                           ("and then", "if s and_then b then i := 1"), ("or else", "if b or_else s then i := 1"), ("if paren", "if (s) then i := 1")):
            yield "cond %s %s" % (name, t), P(body, v), h == "bool"
        yield "index by " + t, P("i := a[s]", v + "a: array [0..9] of integer; "), None if h == "long" else h == "int"
        yield "index char by " + t, P("i := a[s]", v + "a: array [char] of integer; "), h == "char"
        yield "index bool by " + t, P("i := a[s]", v + "a: array [boolean] of integer; "), h == "bool"
        yield "index enum by " + t, P("i := a[s]", v + "a: array [e1] of integer; "), h == "e1"
        yield "index string by " + t, P("c := a[s]", v + "a: string[4]; c: char; "), None if h == "long" else h == "int"
        yield "index second by " + t, P("i := a[1, s]", v + "a: array [0..9, 0..9] of integer; "), None if h == "long" else h == "int"
        yield "deref " + t, P("i := ord(s^ = s^)", v), t in ("pi", "pc") or t in FILES
        yield "element " + t, P("if s[1] = s[1] then i := 1", v), t in ARR or t in STRS
        yield "two elements " + t, P("if s[1, 1] = s[1, 1] then i := 1", v), False
        for f in "xqz":
            yield "field %s of %s" % (f, t), P("i := s.%s" % f, v), f in RECS.get(t, "")
        yield "field x of ^" + t, P("i := s^.x", v), t == "pr"
        yield "with " + t, P("with s do i := 1", v), True if t in ("r1", "r2") else None if t in RECS else False
        yield "call " + t, P("i := s(1)", v), False
        yield "call statement " + t, P("s(1)", v), False
        yield "statement " + t, P("s", v), False
        yield "case " + t, P("case s of 1: i := 1 end", v), True if h == "int" else None if h == "long" else False
        yield "case char " + t, P("case s of 'a': i := 1 end", v), h == "char"
        yield "case enum " + t, P("case s of aa: i := 1 end", v), h == "e1"
        yield "case bool " + t, P("case s of true: i := 1 end", v), h == "bool"
        yield "set of var in " + t, P("if s in [s] then i := 1", v), None if h == "long" else h in ORD
        for e, hh in (("1", "int"), ("'a'", "char"), ("aa", "e1"), ("true", "bool")):
            yield "in [%s] %s" % (e, t), P("if s in [%s] then i := 1" % e, v), None if h == "long" and hh == "int" else h == hh
            yield "%s in [%s]" % (e, t), P("if %s in [s] then i := 1" % e, v), None if h == "long" and hh == "int" else h == hh
            yield "for %s to %s" % (e, t), P("for s := %s to %s do i := 1" % (e, e), v), None if h == "long" and hh == "int" else h == hh and not (t in HOST and e not in ("1", "'a'", "aa"))
            yield "for to %s %s" % (e, t), P("for v := %s to s do i := 1" % e, v + "v: %s; " % T[hh]), None if h == "long" and hh == "int" else h == hh
            yield "for from %s %s" % (e, t), P("for v := s downto %s do i := 1" % e, v + "v: %s; " % T[hh]), None if h == "long" and hh == "int" else h == hh
        for d in T:
            dh = host(d)
            if d in FILES or t in FILES: continue
            if t in SETS: yield "for %s in %s" % (d, t), P("for d in s do i := 1", v + "d: %s; " % T[d]), None if SETS[t] == "int" and dh == "long" else dh == SETS[t]
            if t in SETS: continue
        if t not in SETS and t not in STRS and t not in ARR:
            yield "for in " + t, P("for i in s do b := true", v), False


def types():
    for t in T:
        h = host(t)
        yield "set of " + t, P("", "type tt = set of %s; var x: tt; " % T[t]), True if t in ("char", "csub", "bool", "e1", "esub", "e2", "sub") else None if h in INTS else False
        yield "array by " + t, P("", "type tt = array [%s] of integer; var x: tt; " % T[t]), True if t in ("char", "csub", "bool", "e1", "esub", "e2", "sub") else None if h in INTS else False
        yield "file of " + t, P("", "type tt = file of %s; var x: tt; " % T[t]), t not in FILES
        yield "function of " + t, P("", "function f: %s; begin end; " % T[t]), False if t in FILES else None
        yield "value parameter " + t, P("", "procedure f(x: %s); begin end; " % T[t]), t not in FILES
        yield "class of " + t, P("", "type tt = object(%s) k: integer end; var x: tt; " % T[t]), t in ("ob", "od", "oz")
        yield "variant on " + t, P("", "type tt = record case k: %s of %s: (j: integer) end; var x: tt; " % (T[t], {"char": "'a'", "bool": "true", "e1": "aa", "e2": "dd"}.get(h, "1"))), None if h == "long" else h in ORD
        yield "string of " + t, P("", "var s: %s; type tt = string[s]; " % T[t]), None
    for lo, hi, w in (("1", "9", True), ("9", "1", None), ("'a'", "'z'", True), ("aa", "cc", True), ("1", "'a'", False), ("aa", "dd", False), ("aa", "1", False), ("1.5", "2.5", False), ("'ab'", "'cd'", False),
                      ("true", "1", False), ("false", "true", True), ("zz", "9", False), ("1", "zz", False), ("v", "9", False), ("integer", "9", False)):
        yield "subrange %s..%s" % (lo, hi), P("", "var v: integer; type tt = %s..%s; var x: tt; " % (lo, hi)), w
        yield "array %s..%s" % (lo, hi), P("", "var v: integer; x: array [%s..%s] of integer; " % (lo, hi)), w if w is not True or lo == "1" else None if lo == "aa" and False else w


def calls():
    SIG = ["", "a: integer", "a: integer; b: char", "var a: integer", "var a, b: integer", "a: real; var b: char"]
    ARGS = {"int": ["1", "i"], "char": ["'c'", "c"], "real": ["1.5", "r"], "bool": ["true"]}
    TY = {x: k for k, l in ARGS.items() for x in l}
    VARS = {"i": "int", "c": "char", "r": "real"}
    for fn in (0, 1):
        for sig in SIG:
            parms = []
            for g in sig.split(";"):
                if not g.strip(): continue
                var = g.strip().startswith("var ")
                names, ty = g.replace("var ", "").split(":")
                for _ in names.split(","): parms.append((var, {"integer": "int"}.get(ty.strip(), ty.strip())))
            for n in range(0, 4):
                pool = sorted(TY) if n <= 2 or THOROUGH else ["1", "i", "c", "1.5"]
                for a in itertools.product(pool, repeat=n):
                    w = n == len(parms)
                    if w:
                        for (var, ty), x in zip(parms, a):
                            if var: w = w and VARS.get(x) == ty
                            else: w = w and assign(ty, TY[x])
                    call = "f" + ("(%s)" % ", ".join(a) if a else "")
                    d = "var i: integer; c: char; r: real; " + ("function f%s: integer; begin f := 1 end; " if fn else "procedure f%s; begin end; ") % ("(%s)" % sig if sig else "")
                    yield "call %d (%s) (%s)" % (fn, sig, ", ".join(a)), P(("i := " if fn else "") + call, d), bool(w)
    # what can be a var argument or the target of an assignment
    d = ("const k = 5; var i: integer; a: array [1..3] of integer; r: r1; p: pi; o: ob; ch: char; "
         "function f: integer; begin f := 1 end; procedure q; begin end; procedure v(var x: integer); begin end; procedure pp(protected x: integer); begin %s end; ")
    for e, w in (("i", 1), ("a[2]", 1), ("r.x", 1), ("p^", 1), ("o.q", 1), ("k", 0), ("5", 0), ("i + 1", 0), ("-i", 0), ("f", 0), ("q", 0), ("v", 0), ("integer", 0), ("aa", 0), ("nosuch", 0), ("a", 0), ("r", 0), ("p", 0),
                 ("(i + 1)", 0), ("ord(ch)", 0), ("true", 0), ("nil", 0), ("maxint", 0)):
        yield "var argument " + e, P("v(%s)" % e, d % ""), bool(w)
        if re.match(r"[a-z]", e): yield "assignment to " + e, P("%s := 5" % e, d % ""), bool(w)
        yield "read into " + e, P("read(%s)" % e, d % ""), bool(w)
        yield "inc of " + e, P("inc(%s)" % e, d % ""), None if e == "p" else bool(w)
        if re.match(r"[a-z][a-z0-9]*$", e): yield "for variable " + e, P("for %s := 1 to 2 do" % e, d % ""), e == "i"
    for n, (s, w) in enumerate((("i := x", 1), ("x := 1", 0), ("read(x)", 0), ("v(x)", 0), ("inc(x)", 0), ("for x := 1 to 2 do i := 1", 0), ("write(x)", 1))):
        yield "protected " + s, P("pp(1)", d % s), bool(w)
    # procedures as arguments
    FN = {"p0": "procedure %s; begin end; ", "p1": "procedure %s(x: integer); begin end; ", "p2": "procedure %s(x: char); begin end; ", "pv": "procedure %s(var x: integer); begin end; ", "f0": "function %s: integer; begin %s := 1 end; ",
          "f1": "function %s(x: integer): integer; begin %s := 1 end; ", "fc": "function %s: char; begin %s := 'a' end; "}
    for a, b in itertools.product(FN, FN):
        fa = FN[a] % (("g",) * FN[a].count("%s"))
        form = re.sub(r"; begin.*", "", FN[b] % (("h",) * FN[b].count("%s")))
        yield "procedural %s for %s" % (a, b), P("z(g)", fa + "procedure z(%s); begin end; " % form), a == b if not {a, b} == {"p1", "pv"} else None
    for t in T:
        yield "procedural %s" % t, P("z(s)", "var s: %s; procedure z(procedure h); begin end; " % T[t]), False
        yield "procedural function %s" % t, P("z(s)", "var s: %s; procedure z(function h: integer); begin end; " % T[t]), False


KINDS = {"const": "const %s = 5; ", "type": "type %s = 1..5; ", "var": "var %s: integer; ", "enum": "type zz%d = (%s); ", "proc": "procedure %s; begin end; ", "func": "function %s: integer; begin %s := 1 end; ",
         "record": "type %s = record h: integer end; ", "label": "label %s; "}


def names():
    # every kind of name, declared twice in one block, or where it hides the outer one
    def dec(k, n, name): return {"enum": "type zz%d = (%s); " % (n, name), "func": "function %s: integer; begin %s := 1 end; " % (name, name)}.get(k) or KINDS[k] % name
    ks = [k for k in KINDS if k != "label"]
    for a, b in itertools.product(ks, ks):
        yield "twice %s %s" % (a, b), P("", dec(a, 1, "nn") + dec(b, 2, "nn")), False
        yield "twice local %s %s" % (a, b), P("outer", "procedure outer; " + dec(a, 1, "nn") + dec(b, 2, "nn") + "begin end; "), False
        yield "hidden %s %s" % (a, b), P("outer", dec(a, 1, "nn") + "procedure outer; " + dec(b, 2, "nn") + "begin end; "), True
        yield "two names %s %s" % (a, b), P("", dec(a, 1, "nn") + dec(b, 2, "mm")), True
    for k in ks:
        yield "parameter and %s" % k, P("", "procedure outer(nn: integer); " + dec(k, 1, "nn") + "begin end; "), False
    for s, w in (("a, a: integer", 0), ("a: integer; a: char", 0), ("a: integer; var a: char", 0), ("a, b: integer", 1)):
        yield "parameters " + s, P("", "procedure o(%s); begin end; " % s), bool(w)
        yield "fields " + s, P("", "type r = record %s end; " % s.replace("var ", "")), bool(w)
        if "var" not in s: yield "members " + s, P("", "type r = object %s end; " % s), bool(w)
        yield "variables " + s, P("", "var %s; " % s.replace("var ", "")), bool(w)
    for s, w in (("(a, a)", 0), ("(a, b)", 1), ("(a, b, a)", 0)): yield "enum " + s, P("", "type q = %s; " % s), bool(w)
    # what each kind of name can be used as
    d = "const nc = 5; type nt = 1..5; ne = (na, nb); nr = record h: integer end; var nv, i: integer; nx: nr; procedure np; begin end; function nf: integer; begin nf := 1 end; "
    USE = {"value": ("i := %s", "nc nv nf"), "type": ("", "nt ne nr"), "statement": ("%s", "np"), "range": ("case i of %s: i := 1 end", "nc"), "with": ("with %s do i := h", "nx"), "field": ("i := %s.h", "nx"),
           "target": ("%s := 1", "nv"), "const": ("", "nc"), "enum": ("i := ord(%s)", "na nc nv nf"), "new": ("new(%s)", ""), "loop": ("for %s := 1 to 2 do", "nv"), "cond": ("if %s = na then", "na")}
    for u, (body, good) in USE.items():
        for n in "nc nt ne na nr nv nx np nf nosuch".split():
            w = n in good.split()
            if u == "statement" and n == "nf": w = None
            if u == "type": p = P("", d + "var z: %s; " % n)
            elif u == "const": p = P("", d + "const z = %s; " % n); w = None if n == "na" else w
            else: p = P(body % n, d)
            yield "use %s as %s" % (n, u), p, w
    # scope
    for s, dd, w in (("v := 1", "procedure o; var v: integer; begin end; ", 0), ("x := 1", "procedure o(x: integer); begin end; ", 0), ("inner", "procedure o; procedure inner; begin end; begin end; ", 0), ("i := f1", "type r = record f1: integer end; var i: integer; ", 0),
                     ("o", "procedure o; begin v := 1 end; var v: integer; ", 0), ("o", "var v: integer; procedure o; begin v := 1 end; ", 1), ("o", "procedure o; begin u end; procedure u; begin end; ", 0),
                     ("o", "procedure u; forward; procedure o; begin u end; procedure u; begin end; ", 1), ("o", "procedure u; forward; procedure o; begin u end; ", None)):
        yield "scope %s %s" % (dd, s), P(s, dd), None if w is None else bool(w)


def labels():
    for dl in ("", "label 1; ", "label 1, 2; ", "label 1, 1; ", "label 1; label 1; "):
        decl = re.findall(r"\d", dl)
        for goto in ("", "1", "2"):
            for places in ((), ("1",), ("2",), ("1", "1"), ("1", "2")):
                body = "; ".join(["i := 0"] + ["%s: i := %d" % (p, n) for n, p in enumerate(places)] + (["goto " + goto] if goto else []))
                ok = len(set(decl)) == len(decl) and len(set(places)) == len(places) and all(p in decl for p in places) and (not goto or (goto in decl and goto in places))
                yield "label %s goto %s at %s" % (dl, goto, ",".join(places)), P(body, dl + "var i: integer; "), ok
                if goto: yield "label %s if goto %s at %s" % (dl, goto, ",".join(places)), P("if i = 0 then goto %s; " % goto + "; ".join(["%s: i := %d" % (p, n) for n, p in enumerate(places)] + ["i := 9"]), dl + "var i: integer; "), ok
                yield "label in procedure %s goto %s at %s" % (dl, goto, ",".join(places)), P("q", "procedure q; " + dl + "var i: integer; begin " + body + " end; "), ok
    for ls, w in (("1: i := 1; 1: i := 2", 0), ("1, 1: i := 1", 0), ("1..3: i := 1; 2: i := 2", 0), ("1: i := 1; 2: i := 2", 1), ("1..3: i := 1; 3..5: i := 2", 0), ("1..3: i := 1; 4..5: i := 2", 1), ("5: i := 1; 1..9: i := 2", 0),
                  ("1: i := 1; 'a': i := 2", 0), ("aa: i := 1", 0), ("1.5: i := 1", 0), ("i: i := 1", 0), ("true: i := 1", 0), ("'ab': i := 1", 0), ("-1: i := 1", 1), ("1: i := 1; else i := 2", 1)):
        yield "case labels " + ls, P("case i of %s end" % ls, "var i: integer; "), bool(w)


# builtins: what each argument can be; 'v' in front: a variable
OK = {"int": lambda h: h in INTS, "num": lambda h: h in ("int", "long", "real"), "numc": lambda h: h in NUM, "ord": lambda h: h in ORD, "ptr": lambda h: h in PTRS, "file": lambda h: h in FILES, "text": lambda h: h == "text",
      "str": lambda h: h in STRS or h == "char" or h in CHARR, "bool": lambda h: h == "bool", "cplx": lambda h: h == "cplx"}
FUN = {"abs": ["numc"], "sqr": ["numc"], "sqrt": ["numc"], "sin": ["numc"], "cos": ["numc"], "arctan": ["numc"], "exp": ["numc"], "ln": ["numc"], "odd": ["int"], "ord": ["ord"], "chr": ["int"], "succ": ["ord"], "pred": ["ord"],
       "trunc": ["num"], "round": ["num"], "eof": ["file"], "eoln": ["text"], "length": ["str"], "re": ["cplx"], "im": ["cplx"], "arg": ["cplx"], "cmplx": ["num", "num"]}
PRO = {"inc": ["ord"], "dec": ["ord"], "new": ["ptr"], "dispose": ["ptr"], "reset": ["file"], "rewrite": ["file"], "close": ["file"], "get": ["file"], "put": ["file"]}
UNSURE = {("odd", "bool"), ("trunc", "int"), ("round", "int"), ("trunc", "long"), ("round", "long"), ("length", "char"), ("length", "ca3"), ("length", "ca4"), ("re", "real"), ("im", "real"), ("arg", "int"), ("arg", "long"), ("arg", "real"),
          ("inc", "real"), ("eoln", "fi"), ("sqrt", "cplx"), ("re", "int"), ("re", "long"), ("im", "int"), ("im", "long"), ("chr", "long"), ("cmplx", "int"), ("cmplx", "long"), ("arctan", "cplx")} | {(f, p) for f in ("inc", "dec") for p in PTRS}


def builtins():
    for f, sig in list(FUN.items()) + list(PRO.items()):
        fun = f in FUN
        def use(a): return ("if %s = %s then" % (c(a), c(a)) if fun else c(a))
        def c(a): return f + ("(%s)" % ", ".join(a) if a else "")
        if len(sig) == 1:
            for t in T:
                w = OK[sig[0]](host(t))
                if (f, host(t)) in UNSURE or (f, t) in UNSURE: w = None
                yield "builtin %s %s" % (f, t), P(use(["s"]), "var s: %s; " % T[t]), w
            yield "builtin %s nosuch" % f, P(use(["nosuch"])), False
            yield "builtin %s type" % f, P(use(["e1"])), False
        else:
            for t, u in itertools.product(T, T):
                w = OK[sig[0]](host(t)) and OK[sig[1]](host(u))
                yield "builtin %s %s %s" % (f, t, u), P(use(["s", "u"]), "var s: %s; u: %s; " % (T[t], T[u])), w
        good = {"int": "i", "num": "r", "numc": "r", "ord": "i", "ptr": "p", "file": "t", "text": "t", "str": "s", "bool": "b", "cplx": "z"}
        vs = "var i: integer; r: real; p: pi; t: text; s: st5; b: boolean; z: complex; "
        args = [good[x] for x in sig]
        for n in range(0, 4):
            if n == len(sig): w = True
            elif f in ("inc", "dec", "succ", "pred", "new", "dispose", "reset", "rewrite", "eof", "eoln", "arctan") and n in (0, 2, 3): w = None
            else: w = False
            a = (args + args * 3)[:n]
            yield "builtin %s with %d arguments" % (f, n), P(use(a), vs), w
        if not fun:
            for e in ("5", "i + 1", "k", "nil", "maxint", "aa", "'a'"):
                yield "builtin %s of %s" % (f, e), P("%s(%s)" % (f, e), "const k = 5; var i: integer; "), False
    for t in T:
        h = host(t)
        v = "var s: %s; f: text; b: fi; i: integer; st: string[20]; " % T[t]
        pr = h in ("int", "long", "char", "bool", "real") or t in STRS or t in CHARR
        for w, body in (("write", "write(s)"), ("write to text", "write(f, s)"), ("writeln", "writeln(i, s, i)"), ("writestr", "writestr(st, s)"), ("write width", "write(s:3)")):
            yield "%s %s" % (w, t), P(body, v), None if h in ("e1", "e2", "cplx", "text", "fi") or h in ("text",) else pr
        yield "width by " + t, P("write(i:s)", v), None if h == "long" else h == "int"
        yield "precision by " + t, P("write(1.5:8:s)", v), None if h == "long" else h == "int"
        yield "precision of " + t, P("write(s:8:2)", v), True if h == "real" else None
        rd = h in ("int", "long", "char", "real") or t in STRS
        for w, body in (("read", "read(s)"), ("read from text", "read(f, s)"), ("readln", "readln(i, s)"), ("readstr", "readstr(st, s)")):
            yield "%s %s" % (w, t), P(body, v), None if h in ("e1", "e2", "cplx", "bool", "text", "fi") or t in CHARR else rd
        yield "write to file %s" % t, P("write(b, s)", v), None if h == "long" or h == "int" and t != "int" else h == "int"
        yield "read from file %s" % t, P("read(b, s)", v), None if h in ("long", "real", "cplx") or h == "int" and t != "int" else h == "int"
        yield "put file %s" % t, P("b^ := s", v), None if h == "long" else assign("int", t)


LITS = {"1": "int", "(-5)": "int", "20": "int", "1000000000000": "long", "1.5": "real", "'a'": "char", "'z'": "char", "'ab'": "s2", "'abc'": "s3", "'abcd'": "s4", "'abcdefgh'": "s8", "''": "s0", "aa": "e1", "cc": "e1", "dd": "e2",
        "true": "bool", "nil": "nil", "[]": "set", "[1]": "si", "['a']": "sc", "[aa]": "se", "(1 + 1)": "int", "(1 = 1)": "bool", "(1 / 1)": "real", "(1 + 1.5)": "real", "kc": "char", "ki": "int", "kr": "real", "ks": "s3", "kb": "bool"}
KONST = "const kc = 'k'; ki = 5; kr = 2.5; ks = 'xyz'; kb = true; "
OUTOF = {("sub", "(-5)"), ("sub", "20"), ("csub", "'z'"), ("csub", "kc"), ("esub", "cc")}


def litassign(d, lit):
    t = LITS[lit]
    if d in FILES: return False
    if t[0] == "s" and t[1:].isdigit():
        n = int(t[1:])
        if d in STRS: return True if n <= int(d[2:]) else None
        if d in CHARR: return True if n == int(d[2:]) else False if n > int(d[2:]) else None
        return False
    if t == "nil": return d in PTRS
    if t == "set": return d in SETS
    if lit == "(-5)" and d == "real": return True
    if d in CHARR and t == "char": return None
    return assign(d, t)


def literals():
    for lit, d in itertools.product(LITS, T):
        v = KONST + "var d: %s; b: boolean; " % T[d]
        w = litassign(d, lit)
        yield "literal %s := %s" % (d, lit), P("d := " + lit, v), (False if lit[0] != "(" and not lit.startswith("k") else None) if (d, lit) in OUTOF else w
        if d not in FILES:
            if (d, lit) in OUTOF: w = None
            yield "literal value %s := %s" % (d, lit), P("v(%s)" % lit, v + "procedure v(x: %s); begin end; " % T[d]), w
            yield "literal field %s := %s" % (d, lit), P("r.x := " + lit, v + "var r: record x: %s end; " % T[d]), w
            yield "literal result %s := %s" % (d, lit), P("d := f", v + "function f: %s; begin f := %s end; " % (T[d], lit)), w
        yield "literal var %s := %s" % (d, lit), P("v(%s)" % lit, v + "procedure v(var x: %s); begin end; " % T[d]), False
        t = LITS[lit]
        for op in ("=", "<>", "<", "+", "-", "*", "div", "and", "in"):
            for lhs, rhs in ((lit, "d"), ("d", lit)):
                a, b = (t, d) if rhs == "d" else (d, t)
                if t == "nil": w = d in PTRS and op in ("=", "<>")
                elif t == "set": w = None if d in SETS and op in ("=", "<>", "<", "+", "-", "*") else (None if op == "in" and rhs == lit else False)
                elif t[0] == "s" and t[1:].isdigit():
                    w = (op in ("=", "<>", "<", "+") and strish(d))
                    if w and (d in CHARR or t == "s0" or host(d) == "char"): w = None
                elif t == "char" and d in CHARR: w = None if op in ("=", "<>", "<", "+") else False
                else: w = operator(op, a, b)
                yield "literal op %s %s %s" % (lhs if lhs != "d" else d, op, rhs if rhs != "d" else d), P("if (%s %s %s) = (%s %s %s) then" % (lhs, op, rhs, lhs, op, rhs), v), w


GROUPS = {"M": matrix, "R": results, "U": unary, "T": types, "C": calls, "N": names, "L": labels, "B": builtins, "K": literals}


def main():
    chk = Check("C17", "exploration")
    seen, counts = set(), {"accepted": 0, "rejected": 0}
    only = os.environ.get("MC_CASE")

    def gen():
        for g, f in GROUPS.items():
            for key, src, w in f():
                if w is None: continue
                key = g + " " + key
                if only and only not in key: continue
                if key in seen: raise AssertionError("duplicate key " + key)
                if chk.full: return
                seen.add(key)
                if len(seen) % 4999 == 7: chk.samples.append({"case": key, "program": src[len(DECL):], "expected": "accepted" if w else "rejected"})
                yield key, src, bool(w)

    def go(src, w):
        d = chk.r.newdir()
        try:
            with open(d + "/p.pas", "w") as f: f.write(src)
            rc, out, err = chk.r.compile(d, ("-O0", "-emit=llvm") if w else ("-O0",))
            made = sorted(x for x in os.listdir(d) if x != "p.pas")
            return rc, (out + err).decode("latin1"), made
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def good(w, r):
        rc, msg, made = r
        if w: return rc == 0 and len(made) > 0
        return rc == 1 and re.search(r"error", msg, re.I) is not None and not made

    def one(job):
        key, src, w = job
        r = go(src, w)
        if not good(w, r):
            r = go(src, w)
            if not good(w, r):
                chk.fail(key, "-O0", "expected the program to be %s\nthe compiler's exit status is %s, files made: %s\n%s" % ("accepted" if w else "rejected with a message and exit status 1", r[0], r[2], r[1][:600]),
                         {"p.pas": src, "expected.txt": "accepted" if w else "rejected", "actual.txt": "%s %s\n%s" % (r[0], r[2], r[1])})
        return w
    for _, w in pmap(one, gen()): counts["accepted" if w else "rejected"] += 1
    chk.assumptions = ["where Pascal dialects differ, or the compiler accepts an extension, no verdict is stated"]
    chk.finish(evaluations=len(seen), distinct_nontrivial=len(seen), exhaustive=True, **counts,
               rule="every pair of 35 types in assignments, value and var parameters, fields, function results, pointers and 16 operators; every type as operand, condition, index, selector, label, bound, element, width, builtin argument; "
               "every argument list up to length 3 for six parameter lists; every pair of kinds of declared names; all uses of each kind of name; label declarations x jumps x places; each judged by a reference type checker")
