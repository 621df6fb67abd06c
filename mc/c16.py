"""C16: range checking (-Cr). For every index type and range, element type, kind of array and form of access: every index
value around the bounds and at the extremes of the index type, alone and after every sequence of legal accesses to the
stated depth. In range: the program behaves as the model says. Out of range: everything before the access is done, nothing
after it, the diagnostic names the line of that access and the exit status is a failure."""
import itertools, os, re
from core import Check, TapeProgram, pmap, run_tapes, replay_files, THOROUGH
import c11

M, MX = -2147483648, 2147483647
# name: (index range in Pascal, element ordinals low..high, index variable type, its text for ordinal k, all ordinals of the type to try)
A26 = "abcdefghijklmnopqrstuvwxyz"


def ints(lo, hi): return sorted({x for b in (lo, hi) for x in range(b - 3, b + 4) if M <= x <= MX} | {M, M + 1, MX, MX - 1, 0, -1, 1, lo ^ M, hi + 256 if hi + 256 <= MX else 0, lo - 256 if lo - 256 >= M else 0, (lo + 65536) if lo + 65536 <= MX else 0})


R = {
    "n3": ("1..3", 1, 3, "integer", ints(1, 3)),
    "zero": ("0..4", 0, 4, "integer", ints(0, 4)),
    "neg": ("-5..-2", -5, -2, "integer", ints(-5, -2)),
    "mid": ("-2..2", -2, 2, "integer", ints(-2, 2)),
    "one": ("7..7", 7, 7, "integer", ints(7, 7)),
    "hi": ("250..260", 250, 260, "integer", ints(250, 260)),
    "max": ("2147483644..2147483647", MX - 3, MX, "integer", ints(MX - 3, MX)),
    "min": ("-2147483647..-2147483644", -MX, -MX + 3, "integer", ints(-MX, -MX + 3)),
    "wide": ("-500..500", -500, 500, "integer", ints(-500, 500)),
    "subvar": ("10..20", 10, 20, "tsub", list(range(0, 31))),
    "longvar": ("1..3", 1, 3, "longint", ints(1, 3) + [1 << 32, (1 << 32) + 1, (1 << 32) + 2, -(1 << 32) + 2, 1 << 62, -(1 << 63) + 1, (1 << 33) + 3]),
    "longneg": ("-4..5", -4, 5, "longint", ints(-4, 5) + [1 << 32, (1 << 32) - 4, (1 << 32) + 5, -(1 << 32) + 2, 1 << 62, (1 << 63) - 1]),
    "char": ("'c'..'f'", 99, 102, "char", list(range(0, 256))),
    "chlow": ("chr(0)..'!'", 0, 33, "char", list(range(0, 256))),
    "chhi": ("'z'..chr(255)", 122, 255, "char", list(range(0, 256))),
    "enum": ("gb..gd", 1, 3, "tgen", list(range(0, 6))),
    "enlast": ("gf..gf", 5, 5, "tgen", list(range(0, 6))),
    "bool": ("true..true", 1, 1, "boolean", [0, 1]),
    "boolf": ("false..false", 0, 0, "boolean", [0, 1]),
    "byte": ("100..200", 100, 200, "tby", list(range(0, 256, 1))),
}
GEN = ["ga", "gb", "gc", "gd", "ge", "gf"]
ET = {"int": ("integer", lambda n: n * 3 + 1, "%s:1"), "char": ("char", lambda n: chr(48 + n % 70), "%s"), "long": ("longint", lambda n: n * 10000000019, "%s:1"),
      "real": ("real", lambda n: n / 4.0, "%s:1:2"), "byte": ("tby", lambda n: n * 7 % 256, "%s:1")}
HEAD = "type tsub = 0..30; tby = 0..255; tgen = (ga, gb, gc, gd, ge, gf);\n"


def conv(it, k):
    """expression giving the index of ordinal value stored in the longint variable n"""
    if it in ("integer", "tsub", "tby"): return "nn"
    if it == "longint": return "n"
    if it == "char": return "chr(nn)"
    if it == "boolean": return "(n = 1)"
    return "te[nn]"


# forms of access: (name, statement with %(i)s the index variable/expression; prints the element)
def forms(kind, ev):
    a = {"glob": "a", "local": "a", "param": "a", "field": "rr.a", "heap": "hp^.a", "deref": "ap^", "with": "a", "valpar": "a", "outer": "a"}[kind]
    return [
        ("read", "h := %s[i]; write(' ', %s)" % (a, ev % "h")),
        ("write", "%s[i] := e" % a),
        ("expr", "if %s[f(i)] = e then write(' y') else write(' n')" % a),
        ("both", "%s[i] := %s[i]" % (a, a)),
        ("varpar", "swap(%s[i], e)" % a),
        ("neg", "write(' @'); if (n > 0) and_then (%s[i] = e) then write(' y') else write(' n')" % a),
        ("vali", "valp(%s[i])" % a),
    ]


class Drv:
    """a program that reads (form, n) pairs and does that access; `W form n` per token. Prints what it does."""
    def __init__(self, rng, et, kind):
        self.rng, self.et, self.kind = rng, et, kind
        txt, self.lo, self.hi, it, self.vals = R[rng]
        ety, self.ev, ev = ET[et]
        self.forms = forms(kind, ev)
        self.lines = {}
        arr = "ta"
        src = ["program p(input, output);", HEAD.strip(), "ta = array [%s] of %s; tr = record c: char; a: ta; d: char end; ph = ^tr; pa = ^ta;" % (txt, ety),
               "var te: array [0..5] of tgen; n: longint; fm, nn: integer; e, h: %s; k: %s; g1, g2: integer;" % (ety, it), "hp: ph; ap: pa; " + ("rr: tr;" if kind == "field" else "") + ("a: ta;" if kind in ("glob",) else "")]
        src += ["function f(i: %s): %s; begin f := i end;" % (it, it),
                "procedure swap(var x: %s; y: %s); begin write(' ', %s); x := y end;" % (ety, ety, ev % "x"),
                "procedure valp(x: %s); begin write(' ', %s) end;" % (ety, ev % "x")]
        acc = {"glob": "a", "field": "rr.a", "heap": "hp^.a", "deref": "ap^"}.get(kind, "a")
        init = "g1 := 77; g2 := 88; k := %s; for n := %d to %d do begin fill(n, e); put(n) end" % ("f(k)", self.lo, self.hi)
        # filling does not use the accesses under test: loop over the type's range
        body = []
        for j, (nm, st) in enumerate(self.forms):
            body.append("%d: begin" % j)
            body.append(st.replace("@", str(j)))
            self.lines[j] = len(body) - 1
            body.append("end;")
        proc = ["procedure acc(i: %s);" % it]
        if kind == "with": proc += ["begin with hp^ do case fm of"]
        else: proc += ["begin case fm of"]
        at = len(proc)
        proc += body + ["end", "end;"]
        dec = []
        if kind in ("local", "param", "valpar", "outer", "with"):
            head = {"local": "procedure main; var a: ta;", "param": "procedure main(var a: ta);", "valpar": "procedure main(a: ta);", "outer": "procedure main; var a: ta; procedure mid; var b: integer;", "with": "procedure main;"}[kind]
            dec = [head]
        fillst = {"heap": "hp^.a", "deref": "ap^", "field": "rr.a", "with": "hp^.a"}.get(kind, "a")
        vals = range(self.lo, self.hi + 1)
        loopvar = "j"
        jt = it
        filler = ["procedure fill; var j: %s; x: integer;" % (it if it not in ("longint",) else "integer"), "begin x := 0;"]
        small = {"integer": str, "tsub": str, "tby": str, "longint": str, "char": lambda k: "chr(%d)" % k, "tgen": lambda k: GEN[k], "boolean": lambda k: "true" if k else "false"}[it]
        self.small = small
        if self.hi - self.lo <= 15:
            for k in vals: filler.append("%s[%s] := %s;" % (fillst, small(k), self.lit(k - self.lo)))
        else:
            filler.append("for j := %s to %s do begin %s[j] := %s; x := x + 1 end" % (small(self.lo), small(self.hi), fillst, {"int": "x * 3 + 1", "char": "chr(48 + x mod 70)", "long": "x * 10000000019", "real": "x / 4.0", "byte": "x * 7 mod 256"}[et]))
        filler += ["end;"]
        self.both = it != "longint"
        loop = ["fill; while not eoln do begin read(fm%s, n);" % (", nn" if self.both else ""), "k := %s; e := %s; acc(k); write(';') end;" % (conv(it, 0), self.lit(5)), "readln; writeln(' ', g1:1, g2:1)"]
        main = ["begin g1 := 77; g2 := 88; while not eof do begin"] + loop + ["end end"]
        if kind == "outer": src += dec + filler + proc + main[:1] + loop + ["end end;", "begin mid end;"]
        elif dec: src += dec + filler + proc + main[:1] + loop + ["end end;"]
        else: src += filler + proc
        self.base = src.index(proc[0]) if not dec else None
        src += ["var u: ta;" if kind in ("param", "valpar") else "", "begin new(hp); new(ap); te[0] := ga; te[1] := gb; te[2] := gc; te[3] := gd; te[4] := ge; te[5] := gf;"]
        if dec: src += ["main%s" % ("(u)" if kind in ("param", "valpar") else "")]
        else: src += ["g1 := 77; g2 := 88; while not eof do begin"] + loop + ["end"]
        src += ["end."]
        self.src = "\n".join(src) + "\n"
        lines = self.src.split("\n")
        p0 = next(i for i, l in enumerate(lines) if l.startswith("procedure acc"))
        self.line = {j: p0 + at + self.lines[j] + 1 for j in self.lines}

    def lit(self, m):
        v = self.ev(m)
        return "'%s'" % v if self.et == "char" else repr(v)

    def fmt(self, v):
        return "%.2f" % v if self.et == "real" else str(v)

    def run(self, seq):
        """(printed before the stop, index of the failing access or None)"""
        st = {}
        out = []
        e = self.ev(5)
        get = lambda k: st.get(k, self.ev(k - self.lo))
        for j, (f, n) in enumerate(seq):
            nm = self.forms[f][0]
            if nm == "neg":
                out.append(" %d" % f)
                if n <= 0:
                    out.append(" n;")
                    continue
            if not self.lo <= n <= self.hi: return "".join(out), j
            if nm in ("read", "vali"): out.append(" " + self.fmt(get(n)))
            elif nm == "write": st[n] = e
            elif nm in ("expr", "neg"): out.append(" y" if get(n) == e else " n")
            elif nm == "varpar":
                out.append(" " + self.fmt(get(n)))
                st[n] = e
            out.append(";")
        return "".join(out) + " 7788", None


class Multi:
    """arrays of several dimensions and arrays of arrays, strings and conformant arrays: fixed shapes, access by two indexes"""
    SHAPES = {
        "mat": ("array [1..3, 'a'..'c'] of integer", "a[i, c]", (1, 3), (97, 99)),
        "nest": ("array [1..3] of array ['a'..'c'] of integer", "a[i][c]", (1, 3), (97, 99)),
        "rec": ("array [-1..1] of record x: char; b: array ['p'..'q'] of integer end", "a[i].b[c]", (-1, 1), (112, 113)),
        "ptr": ("array [0..2] of tpp", "a[i]^[c]", (0, 2), (97, 99)),
        "idx": ("array [1..3] of array ['a'..'c'] of integer", "a[t[i]][c]", (1, 3), (97, 99)),
        "three": ("array [boolean, 2..4, 'a'..'c'] of integer", "a[true, i, c]", (2, 4), (97, 99)),
        "longi": ("array [2..4] of array ['a'..'c'] of integer", "a[l, c]", (2, 4), (97, 99)),
    }

    def __init__(self, shape, place):
        self.shape = shape
        ty, acc, r1, r2 = self.SHAPES[shape]
        self.r1, self.r2 = r1, r2
        fill = acc.replace("t[i]", "i").replace("[l,", "[i,")
        src = ["program p(input, output);", "type tpa = array ['a'..'c'] of integer; tpp = ^tpa; ta = %s;" % ty, "var i, fm, o, h: integer; l: longint; c: char; t: array [-20..20] of integer; " + ("a: ta;" if place == "glob" else "")]
        if place != "glob": src += ["procedure main; var a: ta;"]
        src += ["procedure fill; begin for i := -20 to 20 do t[i] := i; for i := %d to %d do begin %s for c := '%s' to '%s' do %s := i * 100 + ord(c) end end;" % (r1 + ("new(a[i]);" if shape == "ptr" else "", chr(r2[0]), chr(r2[1]), fill)),
                "procedure acc; begin case fm of", "0: begin h := %s; write(' ', h:1) end;" % acc, "1: %s := %s +" % (acc, acc), "1;",
                "2: begin h := %s +" % acc, "%s; write(' ', h:1) end;" % acc, "end end;"]
        body = ["fill; while not eoln do begin read(fm, i, o); c := chr(o); l := i; acc; write(';') end; readln; writeln"]
        if place != "glob": src += ["begin while not eof do begin"] + body + ["end end;", "begin main"]
        else: src += ["begin while not eof do begin"] + body + ["end"]
        src += ["end."]
        self.src = "\n".join(src) + "\n"
        l = self.src.split("\n")
        z = next(k for k, x in enumerate(l) if x.startswith("0: begin")) + 1
        self.line = {0: (z,), 1: (z + 1,), 2: (z + 3, z + 4)}

    def run(self, seq):
        out, add = [], {}
        for j, (f, i, c) in enumerate(seq):
            if not (self.r1[0] <= i <= self.r1[1] and self.r2[0] <= c <= self.r2[1]): return "".join(out), j
            v = i * 100 + c + add.get((i, c), 0)
            if f == 0: out.append(" %d" % v)
            elif f == 1: add[i, c] = add.get((i, c), 0) + 1
            else: out.append("%12d" % 0 if False else " %d" % (2 * v))
            out.append(";")
        return "".join(out), None


class Subs:
    """every pair of a subrange (or the whole type) for the index variable and one for the index, over a base type of a few values"""
    BASES = {"int": (-2, 2, str, "integer", "write(ord(x):1)"), "char": (97, 100, lambda k: "'%s'" % chr(k), "char", ""), "enum": (0, 4, lambda k: "gabcde"[0] + "abcde"[k], "ten", "")}

    def __init__(self, base, place):
        lo, hi, lit, whole, _ = self.BASES[base]
        sub = [(a, b) for a in range(lo, hi + 1) for b in range(a, hi + 1)]
        txt = lambda s: "%s..%s" % (lit(s[0]), lit(s[1]))
        src = ["program p(input, output);", "type ten = (ga, gb, gc, gd, ge);" + "".join("s%d = %s;" % (i, txt(s)) for i, s in enumerate(sub)), "var fm, n, h, o: integer; te: array [0..4] of ten;"]
        var = ["var " + "".join("v%d: s%d; " % (i, i) for i in range(len(sub))) + "w: %s;" % whole]
        arr = ["var " + "".join("a%d: array [%s] of integer; " % (i, txt(s)) for i, s in enumerate(sub))]
        if place == "glob": src += var + arr + ["procedure acc;"]
        else: src += arr + ["procedure acc;"] + var
        conv = {"int": "n", "char": "chr(n)", "enum": "te[n]"}[base]
        src.append("begin case fm of")
        self.pair, self.line = [], {}
        self.base, self.lit = base, lit
        for i, s in enumerate(sub + [None]):
            v = "v%d" % i if s else "w"
            last = lit(s[1] if s else hi)
            for j, r in enumerate(sub):
                for f, st in enumerate(("begin %s := %s; h := a%d[%s] end;" % (v, conv, j, v), "begin %s := %s; a%d[%s] := 1 end;" % (v, conv, j, v), "for %s := %s to %s do begin write(ord(%s):1); a%d[%s] := 1 end;" % (v, conv, last, v, j, v))):
                    fm = len(self.pair)
                    src.append("%d: %s" % (fm, st))
                    self.line[fm] = len(src)
                    self.pair.append((s or (lo, hi), r, f))
        src += ["end end;", "begin te[0] := ga; te[1] := gb; te[2] := gc; te[3] := gd; te[4] := ge;",
                "while not eof do begin while not eoln do begin read(fm, n); acc; write(';') end; readln; writeln end end."]
        self.src = "\n".join(src) + "\n"

    def run(self, seq):
        out = []
        for j, (fm, n) in enumerate(seq):
            s, r, f = self.pair[fm]
            for k in range(n, s[1] + 1) if f == 2 else (n,):
                if f == 2: out.append(str(k))
                if not r[0] <= k <= r[1]: return "".join(out), j
            out.append(";")
        return "".join(out), None

    def cases(self):
        return [((fm, n),) for fm, (s, r, f) in enumerate(self.pair) for n in range(s[0], s[1] + 1)]


def main():
    chk = Check("C16", "exploration")
    cfgs = [("-Cr", "-O0"), ("-Cr", "-O2")]
    if THOROUGH: cfgs += [("-Cr", "-O1"), ("-Cr", "-O3"), ("-Cr", "-m32", "-O1"), ("-Cr", "-O1", "-g")]
    stat = {"stops": 0, "in_range": 0, "drivers": 0}

    def drive(job):
        name, d, cfg, good, bad = job
        c = " ".join(cfg)
        if chk.full: return 0
        p = TapeProgram(chk, d.src, cfg)
        try:
            if not p.ok:
                chk.fail(name + " compile", c, "does not compile: " + p.err[-1500:], {"p.pas": d.src})
                return 0
            tape = lambda s: " ".join("%d %d %d" % (x[0], x[1], x[1]) if getattr(d, "both", False) else " ".join(map(str, x)) for x in s)
            r, got = p.lines([tape(s) for s in good])
            for j, s in enumerate(good):
                want = d.run(s)[0]
                if j < len(got) and got[j] == want: continue
                r1, g1 = p.lines([tape(s)], 10)
                chk.fail("%s in range %s" % (name, tape(s)), c, "expected %r\ngot %s" % (want, r1.brief()), replay_files(d.src, cfg, want, r1, (tape(s) + "\n").encode()))
                if chk.full or j >= len(got) - 1: break
            for s in bad:
                want, at = d.run(s)
                r1, g1 = p.lines([tape(s)], 10)
                err = r1.err.decode("latin1")
                ln = d.line[s[at][0]]
                ln = ln if isinstance(ln, tuple) else (ln,)
                m = re.search(r"p\.pas:(\d+)", err)
                why = "" if r1.rc not in (0, None) and isinstance(r1.rc, int) and r1.rc > 0 and r1.rc < 126 else "exit status %s is not a failing exit" % r1.rc
                if r1.out.decode("latin1") != want: why += " output %r, expected %r" % (r1.out, want)
                if not m: why += " no diagnostic naming the source line"
                elif int(m[1]) not in ln: why += " diagnostic names line %s, the access is on line %s" % (m[1], ln)
                if why:
                    chk.fail("%s out of range %s" % (name, tape(s)), c, why + "\n" + r1.brief(), replay_files(d.src, cfg, want, r1, (tape(s) + "\n").encode()))
                    if chk.full: break
            stat["stops"] += len(bad)
            stat["in_range"] += len(good)
            stat["drivers"] += 1
            return len(bad) + len(good)
        finally:
            p.close()

    def jobs():
        kinds = ["glob", "local", "param", "field", "heap", "deref", "with", "valpar", "outer"]
        k = 0
        for rng in R:
            for et in ET:
                k += 1
                ks = kinds if THOROUGH else [kinds[(k + x) % 9] for x in (0, 4)] if et != "int" else kinds
                for kind in ks:
                    if kind == "with" and False: continue
                    d = Drv(rng, et, kind)
                    nf = range(len(d.forms))
                    inr = [n for n in d.vals if d.lo <= n <= d.hi]
                    out = [n for n in d.vals if n not in set(inr)]
                    good = [((f, n),) for f in nf for n in inr]
                    e4 = sorted({inr[0], inr[-1], inr[len(inr) // 2]})
                    good += [((f, n), (g, m)) for f in nf for n in e4 for g in nf for m in e4]
                    # an access that is never evaluated is no error
                    good += [((5, n),) for n in out if n <= 0]
                    # every value out of range through one form, the nearest ones through every form, and after legal accesses
                    near = sorted(out, key=lambda n: min(abs(n - d.lo), abs(n - d.hi)))[:4] + sorted(out)[:1] + sorted(out)[-1:]
                    ok = lambda f, n: not (d.forms[f][0] == "neg" and n <= 0)
                    bad = []
                    if kind in ("glob", "local") or THOROUGH: bad += [((k % 5, n),) for n in (out if len(out) < 60 or THOROUGH or et == "int" and kind == "glob" else out[::7] + near)]
                    bad += [((f, n),) for f in nf for n in near if ok(f, n)]
                    bad += [((f, e4[0]), (g, near[0]), (0, e4[0])) for f in nf for g in nf if near and ok(g, near[0])][::1 if et == "int" or THOROUGH else 5]
                    bad = list(dict.fromkeys(bad))
                    for ci, cfg in enumerate(cfgs):
                        if not THOROUGH and (k + ci + kinds.index(kind)) % 2 and et != "int": continue
                        yield "%s %s %s" % (rng, et, kind), d, cfg, good, bad
        for k, (base, place) in enumerate((b, pl) for b in Subs.BASES for pl in ("glob", "local")):
            d = Subs(base, place)
            for cfg in cfgs if THOROUGH else cfgs[k // 2 % 2 ^ k % 2:][:1]:
                cs = d.cases()
                for i in range(0, len(cs), 250):
                    part = cs[i:i + 250]
                    yield "subranges %s %s" % (base, place), d, cfg, [c for c in part if d.run(c)[1] is None], [c for c in part if d.run(c)[1] is not None]
        for sh in Multi.SHAPES:
            for place in ("glob", "local"):
                d = Multi(sh, place)
                I = range(d.r1[0] - 2, d.r1[1] + 3)
                C = list(range(d.r2[0] - 2, d.r2[1] + 3)) + [0, 255]
                pts = [(f, i, c) for f in (0, 1, 2) for i in I for c in C]
                isin = lambda p: d.run((p,))[1] is None
                inp = [p for p in pts if isin(p)]
                good = [(p,) for p in inp] + [(p, q2) for p in inp for q2 in inp]
                bad = [(p,) for p in pts if not isin(p)]
                bad += [(inp[0], p, inp[1]) for p in pts if not isin(p)][:: 1 if THOROUGH else 3]
                for cfg in cfgs: yield "multi %s %s" % (sh, place), d, cfg, good, bad
    ev = 0
    for _, k in pmap(drive, jobs()): ev += k

    # programs all of whose indexes are in range behave as without -Cr: the array and record histories of C11
    def same():
        for i, t in enumerate(c11.types()):
            if "A" not in c11.tname(t) or not THOROUGH and i % 4: continue
            d = c11.Driver(t, list(c11.PLACE)[i % 7], bool(i // 4 % 2))
            yield "same %s" % c11.tname(t), d.src, cfgs[i // 4 % 2], d.tapes(300)[1]
    ev2 = run_tapes(chk, same())
    chk.finish(evaluations=ev + ev2, distinct_nontrivial=(ev + ev2) // len(cfgs), exhaustive=True, unchanged_histories=ev2, rule="a case is one sequence of accesses on one kind of array; distinct by array, place and sequence",
               configurations=[" ".join(c) for c in cfgs], **stat)
