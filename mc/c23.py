"""C23: variables declared with initial values start with exactly these, at every activation.

Types are generated from scalars, strings, sets, arrays (one and two indexes, five index types) and records; for each type
every way of stating a value from a small grammar of forms (which elements get which of two values, as single indexes or as
ranges, in either order, with and without otherwise; literals, named constants, expressions, structured constants) is put at
every place a value clause can stand: global variables, local variables of routines activated repeatedly, recursively and as
inner routines, types (used for variables, fields, elements, allocated variables, further types that override the value),
fields, lists of variables, and structured constants used as values. Each activation prints the whole variable, changes every
part of it, and prints it again. The prediction is the value as written."""
import itertools
import os

from core import THOROUGH, Case, Check, run_cases


def q(s): return "'" + s.replace("'", "''") + "'"


class Scalar:
    def __init__(self, key, name, pairs, other, show=None):
        self.key, self.name, self.pairs, self.other, self.shw = key, name, pairs, other, show

    # (text of the value, text printed)
    def inits(self): return self.pairs

    def show(self, lv): return self.shw(lv) if self.shw else "write(%s, ';')" % lv

    def text(self, v): return v + ";"

    def change(self, lv): return "%s := %s" % (lv, self.other)


HEAD = """type en9 = (qa, qb, qc, qd); tsub = -5..9; tbyte = 0..255; tcs = 'f'..'k'; tes = qb..qd;
tstr = string[5]; tstrd = string; tpac = packed array [1..4] of char; tset = set of 0..9; tbig = set of 0..255; tchs = set of char; tens = set of en9; tpi = ^integer;
const k7 = 7; kneg = -3; kreal = 2.5; kchar = 'M'; kstr = 'abc'; ktrue = true; kset = [1, 3..5]; kbig = 5000000000; kenum = qc; kchs = ['a', 'x'..'z']; kens = [qa, qc];
procedure sset(s: tset); var i: integer; begin for i := 0 to 9 do if i in s then write(i:1); write(';') end;
procedure sbig(s: tbig); var i: integer; begin for i := 0 to 255 do if i in s then write(i:1, ','); write(';') end;
procedure schs(s: tchs); var i: char; begin for i := '0' to 'z' do if i in s then write(i); write(';') end;
procedure sens(s: tens); var i: en9; begin for i := qa to qd do if i in s then write(i); write(';') end;
"""

SC = {
    "int": Scalar("int", "integer", [("5", "5"), ("-30001", "-30001"), ("2147483647", "2147483647"), ("k7 * 2 + 1", "15"), ("kneg", "-3"), ("ord(kchar)", "77"), ("$ff", "255")], "99"),
    "long": Scalar("long", "longint", [("5", "5"), ("-1", "-1"), ("kbig", "5000000000"), ("-9000000000", "-9000000000"), ("k7", "7"), ("2147483647", "2147483647")], "77"),
    "char": Scalar("char", "char", [("'x'", "x"), ("kchar", "M"), ("chr(65)", "A"), ("' '", " "), ("succ(kchar)", "N")], "'?'"),
    "bool": Scalar("bool", "boolean", [("true", "TRUE"), ("false", "FALSE"), ("ktrue", "TRUE")], "k7 = 8"),
    "enum": Scalar("enum", "en9", [("qb", "1"), ("qa", "0"), ("kenum", "2"), ("qd", "3")], "qb", lambda lv: "write(ord(%s):1, ';')" % lv),
    "sub": Scalar("sub", "tsub", [("-5", "-5"), ("9", "9"), ("kneg", "-3"), ("k7 + 1", "8")], "3"),
    "byte": Scalar("byte", "tbyte", [("255", "255"), ("0", "0"), ("128", "128"), ("k7", "7")], "77"),
    "csub": Scalar("csub", "tcs", [("'g'", "g"), ("'k'", "k"), ("'f'", "f")], "'h'"),
    "esub": Scalar("esub", "tes", [("qd", "3"), ("kenum", "2")], "qb", lambda lv: "write(ord(%s):1, ';')" % lv),
    "real": Scalar("real", "real", [("1.5", "1.500"), ("-2.25", "-2.250"), ("kreal", "2.500"), ("3", "3.000"), ("k7", "7.000"), ("kreal * 2", "5.000"), ("-kneg", "3.000"), ("1e3", "1000.000")], "0.125", lambda lv: "write(%s:1:3, ';')" % lv),
    "cplx": Scalar("cplx", "complex", [("1.5", "1.500,0.000"), ("-2", "-2.000,0.000"), ("kreal", "2.500,0.000")], "cmplx(1, 2)", lambda lv: "write(re(%s):1:3, ',', im(%s):1:3, ';')" % (lv, lv)),
    "str": Scalar("str", "tstr", [("'ab'", "ab"), ("''", ""), ("'x'", "x"), ("'12345'", "12345"), ("kstr", "abc"), ("kchar", "M"), ("'it''s'", "it's")], "'zzz'", lambda lv: "write(length(%s):1, %s, ';')" % (lv, lv)),
    "strd": Scalar("strd", "tstrd", [("'hello world'", "hello world"), ("''", ""), ("kstr", "abc"), (q("a" * 80), "a" * 80)], "'q'", lambda lv: "write(length(%s):1, %s, ';')" % (lv, lv)),
    "pac": Scalar("pac", "tpac", [("'abcd'", "abcd"), ("'ab'", "ab  "), ("'z'", "z   "), ("kstr", "abc "), ("kchar", "M   ")], "'????'"),
    "set": Scalar("set", "tset", [("[1, 5]", "15"), ("[]", ""), ("[0..9]", "0123456789"), ("[k7, 2..4]", "2347"), ("[k7 + 1]", "8"), ("kset", "1345")], "[2, 6]", lambda lv: "sset(%s)" % lv),
    "big": Scalar("big", "tbig", [("[1, 31, 32, 255]", "1,31,32,255,"), ("[]", ""), ("[62..66]", "62,63,64,65,66,"), ("kset", "1,3,4,5,")], "[200]", lambda lv: "sbig(%s)" % lv),
    "chs": Scalar("chs", "tchs", [("['a'..'c', 'Z']", "Zabc"), ("[]", ""), ("kchs", "axyz"), ("[kchar, chr(48)]", "0M")], "['y']", lambda lv: "schs(%s)" % lv),
    "ens": Scalar("ens", "tens", [("[qa, qd]", "qaqd"), ("[]", ""), ("[qb..qd]", "qbqcqd"), ("kens", "qaqc"), ("[kenum]", "qc")], "[qb]", lambda lv: "sens(%s)" % lv),
    "ptr": Scalar("ptr", "tpi", [("nil", "TRUE")], "pint", lambda lv: "write(%s = nil, ';')" % lv),
}
for k in ("str", "strd"):
    SC[k].pairs = [(t, str(len(v)) + v) for t, v in SC[k].pairs]

IDX = {"1..4": ("1..4", ["1", "2", "3", "4"]), "-1..2": ("-1..2", ["-1", "0", "k7 - 6", "2"]), "char": ("'c'..'f'", ["'c'", "'d'", "'e'", "'f'"]),
       "enum": ("en9", ["qa", "qb", "qc", "qd"]), "bool": ("boolean", ["false", "true"]), "200..203": ("200..203", ["200", "201", "202", "203"])}


class Arr:
    def __init__(self, idx, el, key=None):
        self.idx, self.el = idx, el
        self.key = "array[%s] of %s" % (",".join(idx), el.key)
        self.name = "array [%s] of %s" % (", ".join(IDX[i][0] for i in idx), el.name)
        self.n = [len(IDX[i][1]) for i in idx]

    def cells(self): return list(itertools.product(*[IDX[i][1] for i in self.idx]))

    def show(self, lv): return "; ".join(self.el.show("%s[%s]" % (lv, ", ".join(c))) for c in self.cells())

    def text(self, v): return "".join(self.el.text(x) for x in v)

    def change(self, lv): return "; ".join(self.el.change("%s[%s]" % (lv, ", ".join(c))) for c in self.cells())

    def inits(self, deep=None):
        """Every assignment of the first index's values to: first value, second value, otherwise."""
        if len(self.idx) > 1:
            inner = Arr(self.idx[1:], self.el)
            vals = inner.inits()
            vals = [vals[0], vals[len(vals) // 2], vals[-1]]
        else:
            inner, vals = None, self.el.inits()
        ix = IDX[self.idx[0]][1]
        n = len(ix)
        out = []
        for asg in itertools.product((0, 1, 2), repeat=n):
            v = [vals[k % len(vals)] for k in (0, 1, 2)]
            if 2 not in asg and 1 not in asg and len(vals) > 3:  # all the same value: rotate through the element's values
                v = [vals[(3 + len(out)) % len(vals)]] * 3
            runs = [(k, [i for i, _ in g]) for k, g in itertools.groupby(enumerate(asg), key=lambda p: p[1])]
            forms = set()
            singles = [(ix[i], v[a][0]) for i, a in enumerate(asg) if a != 2]
            ranges = [(ix[r[0]] if len(r) == 1 else ix[r[0]] + ".." + ix[r[-1]], v[k][0]) for k, r in runs if k != 2]
            for parts in (singles, singles[::-1], ranges, ranges[::-1]):
                for sep in ("; ", ", ") if deep or parts is singles else ("; ",):
                    txt = sep.join("%s: %s" % p for p in parts)
                    if 2 in asg: txt += (" " if txt else "") + "otherwise " + v[2][0]
                    forms.add(txt)
            val = []
            for a in asg: val += [v[a][1]] if inner is None else list(v[a][1])
            for f in sorted(forms): out.append(("[" + f + "]", tuple(val)))
        return out


class Rec:
    def __init__(self, key, fields, variant=""):
        self.key, self.fields = key, fields
        self.name = "record %s%s end" % ("; ".join("%s: %s" % (n, t.name) for n, t in fields), variant)

    def show(self, lv): return "; ".join(t.show(lv + "." + n) for n, t in self.fields)

    def text(self, v): return "".join(t.text(x) for (n, t), x in zip(self.fields, v))

    def change(self, lv): return "; ".join(t.change(lv + "." + n) for n, t in self.fields)

    def inits(self, deep=None):
        out = []
        per = [t.inits() for _, t in self.fields]
        n = max(min(len(p), 7) for p in per)
        for k in range(n):
            vs = [p[k * max(1, len(p) // n) % len(p)] for p in per]
            order = list(range(len(self.fields)))
            for perm in (itertools.permutations(order) if len(order) <= 3 else (order, order[::-1])):
                out.append(("[" + "; ".join("%s: %s" % (self.fields[i][0], vs[i][0]) for i in perm) + "]", tuple(v for _, v in vs)))
        # several fields of one type with one value
        for i, j in itertools.combinations(range(len(self.fields)), 2):
            if self.fields[i][1] is self.fields[j][1]:
                vs = [p[0] for p in per]
                vs[j] = vs[i]
                rest = [k for k in range(len(self.fields)) if k not in (i, j)]
                parts = ["%s, %s: %s" % (self.fields[i][0], self.fields[j][0], vs[i][0])] + ["%s: %s" % (self.fields[k][0], vs[k][0]) for k in rest]
                for p in (parts, parts[::-1]): out.append(("[" + "; ".join(p) + "]", tuple(v for _, v in vs)))
        return out


def types():
    for s in SC.values(): yield s
    R1 = Rec("rec2", [("a", SC["int"]), ("b", SC["char"])])
    R3 = Rec("rec3", [("a", SC["real"]), ("b", SC["str"]), ("c", SC["bool"])])
    RS = Rec("recsame", [("a", SC["int"]), ("b", SC["int"]), ("c", SC["int"])])
    RM = Rec("recmix", [("c", SC["char"]), ("l", SC["long"]), ("s", SC["set"]), ("p", SC["ptr"]), ("z", SC["cplx"]), ("b", SC["byte"])])
    RV = Rec("recvar", [("a", SC["int"]), ("b", SC["enum"])], "; case v: boolean of true: (x: real); false: (y: string[3])")
    RA = Rec("recarr", [("a", Arr(["1..4"], SC["int"])), ("b", SC["char"])])
    RR = Rec("recrec", [("a", R1), ("b", R3), ("c", SC["pac"])])
    for i in IDX: yield Arr([i], SC["int"])
    for e in SC:
        if e not in ("int",): yield Arr(["1..4"], SC[e])
    for i in ("char", "enum", "bool"): yield Arr([i], SC["char"]); yield Arr([i], SC["long"])
    for i, j in (("1..4", "bool"), ("bool", "enum"), ("-1..2", "char"), ("enum", "1..4")):
        yield Arr([i, j], SC["int"])
        yield Arr([i], Arr([j], SC["int"]))
    yield Arr(["bool", "1..4"], SC["str"])
    yield Arr(["bool", "enum", "bool"], SC["char"])
    for r in (R1, R3, RS, RM, RV, RA, RR): yield r
    yield Arr(["bool"], R1)
    yield Arr(["1..4"], R3)
    yield Arr(["enum"], RA)
    yield Arr(["bool", "bool"], RM)


def twice(t, lv, v, v2=None):
    """Statements that print the variable, change all of it, and print it."""
    return t.show(lv) + "; " + t.change(lv) + "; write('/')", t.text(v) + "/"


def P(t): return "var pint: tpi; " if "ptr" in t.key or "recmix" in t.key else ""


def N(t): return "new(pint); " if P(t) else ""


def places(t, txt, v, full):
    """One case per place the value clause stands at. Each prints before and after changing every part."""
    k = t.key + " " + txt + " "
    pint = P(t)
    nw = N(t)
    st, ex = twice(t, "x", v)
    # a global variable: starts so, and keeps what is assigned
    yield Case(k + "global", nw + st, ex, glob="var g@N: %s value %s;" % (t.name, txt) + ("" if not pint else ""), decl=pint) if False else \
        Case(k + "global", (nw + twice(t, "g@N", v)[0]), ex, glob="var g@N: %s value %s;" % (t.name, txt), decl=pint)
    # local, three activations
    yield Case(k + "local", "pr; pr; pr", ex * 3, decl="%s procedure pr; var w1: char; x: %s value %s; w2: char; begin %s%s end;" % (pint, t.name, txt, nw, st))
    if not full: return
    # recursive: the outer activation's changed value survives the inner ones
    yield Case(k + "recursive", "pr(2)", ex * 3 + "Y" * 3,
               decl="%s procedure pr(n: integer); var x: %s value %s; y: %s value %s; begin %s%s; if n > 0 then pr(n - 1); write('Y') end;" % (pint, t.name, txt, t.name, txt, nw, st))
    # inner routine changes the outer one's variable
    sh = t.show("x")
    yield Case(k + "inner", "pr; pr", (t.text(v) + ex) * 2,
               decl="%s procedure pr; var x: %s value %s; procedure inn; var y: %s value %s; begin %s end; procedure inn2; begin %s%s end; begin inn; inn2 end;" % (
                   pint, t.name, txt, t.name, txt, t.show("y"), nw, st))
    # a list of variables
    yield Case(k + "list", "%s%s; %s; %s; %s" % (nw, twice(t, "x", v)[0], twice(t, "y", v)[0], twice(t, "g@N", v)[0], twice(t, "h@N", v)[0]), ex * 4,
               decl="var x, y: %s value %s; %s" % (t.name, txt, pint.replace("var ", "")), glob="var g@N, h@N, i@N: %s value %s;" % (t.name, txt))
    # a type with the value, used everywhere
    ty = "type ty@N = %s value %s;" % (t.name, txt)
    parts = ["x", "r.f", "a[1]", "a[2]", "m[1, false]", "m[2, true]", "p^", "pr^.f", "g@N", "al", "ra[2].f"]
    yield Case(k + "type", "new(p); new(pr); %s%s; r.c := '!'; write(r.c)" % (nw, "; ".join(twice(t, lv, v)[0] for lv in parts)), ex * len(parts) + "!",
               glob=ty + " tr@N = record c: char; f: ty@N end; pt@N = ^ty@N; prt@N = ^tr@N; ta@N = ty@N; var g@N: ty@N;",
               decl="var x: ty@N; r: tr@N; a: array [1..2] of ty@N; m: array [1..2, boolean] of ty@N; p: pt@N; pr: prt@N; al: ta@N; ra: array [1..2] of tr@N; " + pint.replace("var ", ""))
    # a field with the value
    yield Case(k + "field", "%s%s; %s; %s" % (nw, twice(t, "r.f", v)[0], twice(t, "r.g", v)[0], twice(t, "s[2].f", v)[0]), ex * 3,
               decl="type tr = record c: char; f, g: %s value %s; d: char end; var r: tr; s: array [1..2] of tr; " % (t.name, txt) + pint.replace("var ", ""))
    # allocated and disposed of repeatedly
    yield Case(k + "heap", "%sfor k := 1 to 3 do begin new(p); %s; dispose(p) end" % (nw, twice(t, "p^", v)[0]), ex * 3, glob=ty + " pt@N = ^ty@N;", decl="var k: integer; p: pt@N; " + pint.replace("var ", ""))


def override(t, a, b):
    """A type with one value, overridden at the variable, in a further type, in a field, in part of an array."""
    k = "%s %s over %s " % (t.key, b[0], a[0])
    xa, xb = twice(t, "x", a[1])[1], twice(t, "x", b[1])[1]
    lv = ["x", "y", "z", "r.f", "r.g", "g@N", "h@N", "ar[1]", "ar[2]", "ar[3]", "p^", "q^", "rr.f", "rr.g"]
    ex = xa + xb + xb + xa + xb + xa + xb + xb + xa + xb + xa + xb + xb + xb
    yield Case(k, "new(p); new(q); %s%s" % (N(t), "; ".join(twice(t, l, None if 0 else a[1])[0] for l in lv)), ex,
               glob="type ty@N = %s value %s; tz@N = ty@N value %s; tr@N = record f: ty@N; g: ty@N value %s end; pt@N = ^ty@N; pz@N = ^tz@N; var g@N: ty@N; h@N: ty@N value %s;" % (t.name, a[0], b[0], b[0], b[0]),
               decl="var x: ty@N; y: ty@N value %s; z: tz@N; r: tr@N; ar: array [1..3] of ty@N value [1: %s; 2: %s; 3: %s]; p: pt@N; q: pz@N; rr: tr@N value [f: %s; g: %s]; " % (b[0], b[0], a[0], b[0], b[0], b[0]) + P(t).replace("var ", ""))


def constants(t, txt, v):
    """A structured constant: as a value, assigned, its components, passed by value."""
    ex = twice(t, "x", v)[1]
    ref = t.show("kc@N")
    yield Case("%s %s constant" % (t.key, txt), "%s%s; %s; w := kc@N; %s; by(kc@N); %s; %s" % (N(t), twice(t, "x", v)[0], twice(t, "g@N", v)[0], twice(t, "w", v)[0], twice(t, "a[2]", v)[0], ref), ex * 5 + t.text(v),
               glob="type ty@N = %s; const kc@N = ty@N %s; var g@N: ty@N value kc@N;" % (t.name, txt),
               decl="var x: ty@N value kc@N; w: ty@N; a: array [1..3] of ty@N value [otherwise kc@N]; %sprocedure by(x: ty@N); begin %s end;" % (P(t).replace("var ", ""), twice(t, "x", v)[0]))


def cases():
    for t in types():
        ins = t.inits(deep=True) if isinstance(t, (Arr, Rec)) else t.inits()
        scal = isinstance(t, Scalar)
        step = 1 if THOROUGH or scal or len(ins) < 40 else max(1, len(ins) // (160 if t.key == "array[1..4] of int" else 12))
        if step > 1 and step % 2 == 0: step += 1
        for n, (txt, v) in enumerate(ins[::step]):
            yield from places(t, txt, v, scal or n % (2 if THOROUGH else 5) == 0)
        pick = ins[:: max(1, len(ins) // (4 if not THOROUGH else 12))]
        for a, b in itertools.permutations(pick[:4 if not THOROUGH else 8], 2):
            yield from override(t, a, b)
        if not scal:
            for txt, v in pick: yield from constants(t, txt, v)


def rejected():
    """Values that do not fit."""
    for ty, txt in (("integer", "'a'"), ("integer", "1.5"), ("integer", "kbig"), ("integer", "true"), ("integer", "kset"), ("tsub", "10"), ("tsub", "-6"), ("tcs", "'a'"), ("tes", "qa"), ("en9", "1"),
                    ("boolean", "qb"), ("char", "'ab'"), ("char", "65"), ("tstr", "'123456'"), ("tpac", "'12345'"), ("tset", "[10]"), ("tset", "['a']"), ("tset", "[3..12]"), ("tchs", "[1]"), ("tens", "[1]"),
                    ("real", "'a'"), ("real", "true"), ("tpi", "0"), ("array [1..3] of integer", "[0: 1]"), ("array [1..3] of integer", "[4: 1]"), ("array [1..3] of integer", "[2..4: 1]"),
                    ("array [1..3] of integer", "['a': 1]"), ("array [1..3] of integer", "[1: 'a' otherwise 2]"), ("array [1..3] of integer", "[1: 2; 1: 3 otherwise 4]"), ("array [1..3] of integer", "[1..2: 2; 2: 3 otherwise 4]"),
                    ("array [1..3] of tsub", "[1..3: 10]"), ("record a: integer; b: char end", "[a: 1; c: 'x']"), ("record a: integer; b: char end", "[a: 1; a: 2; b: 'x']"), ("record a: integer; b: char end", "[a: 'x'; b: 'x']"),
                    ("record a: integer; b: char end", "[a, b: 1]"), ("array [1..3] of integer", "5"), ("record a: integer end", "5")):
        yield ty, txt


def main():
    chk = Check("C23", "exploration")
    chk.assumptions = ["values for fields of variant parts, and of objects, are outside the compiler's implementation", "parts that no value is stated for have no predicted value"]
    pick = os.environ.get("MC_CASE")
    cfg = [("-O0",), ("-O2",)] if not THOROUGH else [("-O0",), ("-O1",), ("-O2",), ("-O3",), ("-O1", "-m32"), ("-O1", "-Cr"), ("-O1", "-no-memcpy"), ("-O0", "-g")]
    count = {}
    seen = set()

    def gen():
        for c in cases():
            if pick and pick not in c.key: continue
            if c.key in seen: continue
            seen.add(c.key)
            kind = c.key.split()[-1] if " over " not in c.key else "override"
            count[kind] = count.get(kind, 0) + 1
            if len(seen) in (1, 400, 1500): chk.samples.append({"case": c.key, "predicted": c.expect[:200]})
            yield c
    n = run_cases(chk, gen(), cfg, batch=25, header=HEAD, cpu=20)
    # values that do not fit are rejected, at the variable, in a type and in a field
    rej = 0
    for ty, txt in rejected():
        for form in ("var x: %s value %s; begin end.", "type t = %s value %s; begin end.", "type r = record q: char; f: %s value %s end; begin end.", "procedure z; var x: %s value %s; begin end; begin z end."):
            if pick: break
            src = "program p(output);\n" + HEAD + form % (ty, txt)
            r = chk.r.program(src, ("-O0",))
            rej += 1
            if r.crc != 1:
                chk.fail("rejected %s %s %s" % (ty, txt, form[:4]), "-O0", "a value that does not fit was not rejected with an error: exit %s\n%s\n%s" % (r.crc, r.cerr[-400:] if hasattr(r, "cerr") else r.brief(), src[-400:]), {"p.pas": src.encode()})
    chk.finish(distinct_nontrivial=len(seen), evaluations=n + rej, rule="a case is one type, one statement of its value and one place; each prints every part of the variable at its first use and again after it was changed, at each activation",
               case_kinds=count, rejected=rej, configs=[" ".join(c) for c in cfg], exhaustive=not chk.full,
               bounds="%d types; every assignment of first-index values to two values or otherwise for arrays of up to 4 elements per index, as singles or ranges in both orders (long lists: every k-th in quick)" % len(list(types())))


if __name__ == "__main__":
    main()
