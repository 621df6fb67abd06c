"""C11: arrays and records. For every nest of leaf types in arrays, records and variant records up to depth 2 (thorough: 3),
every storage place of the variables, and constant or computed indexes: every sequence of element writes, variant switches,
whole and partial copies, value parameters and results to the stated depth, with the complete state (all leaves of all
variables and the guards between them) compared with a model after each sequence. pack/unpack likewise."""
import itertools
from core import Case, Check, run_cases, run_tapes, THOROUGH
from ptypes import q


class G:
    types = 0


# ------------------------------------------------------------------ leaves: text, the n-th value (pascal text, printed text)
def _i(n): return (n * 16843009 + 1234567) % 2147483647 * (1 if n % 3 else -1)


ENS = ["ea", "eb", "ec", "ed", "ee"]
PROBE = {"set": [0, 1, 4, 9], "big": [0, 7, 31, 32, 100, 255], "chs": [32, 65, 122]}


def sub(name, n):
    p = PROBE[name]
    m = n * 5 + 3
    return [x for i, x in enumerate(p) if m >> i & 1]


def value(t, n):
    """(pascal text, printed text)"""
    if t == "int": v = _i(n); return str(v), str(v)
    if t == "long": v = _i(n) * 4294967311 + n; return str(v), str(v)
    if t == "byte": v = (n * 37 + 130) % 256; return str(v), str(v)
    if t == "sub": v = n * 3 % 7 - 3; return str(v), str(v)
    if t == "char": c = chr(48 + (n * 7) % 70); return q(c), c
    if t == "bool": return ("true", "T") if n % 2 else ("false", "F")
    if t == "enum": v = n * 3 % 5; return ENS[v], str(v)
    if t == "real": v = (n * 1001 + 7) / 8.0 * (1 if n % 2 else -1); return repr(v), "%.3f" % v
    if t == "str": v = "abcdefg"[: n % 6] if n % 2 else chr(65 + n % 26) * ((n * 5 + 1) % 6); return q(v), "<%s>" % v
    if t in PROBE:
        s = sub(t, n)
        return "[" + ", ".join(q(chr(x)) if t == "chs" else str(x) for x in s) + "]", "{" + "".join("1" if x in s else "0" for x in PROBE[t]) + "}"
    if t == "ptr": v = n * 5 % 7 + 1; return "zp[%d]" % v, str(v * 11)
    if t == "pac": v = "".join(chr(97 + (n * 3 + i * 5) % 26) for i in range(3)); return q(v), v
    raise KeyError(t)


TEXT = {"int": "integer", "long": "longint", "byte": "tbyte", "sub": "tsub", "char": "char", "bool": "boolean", "enum": "ten", "real": "real",
        "str": "tstr", "set": "tset", "big": "tbig", "chs": "tchs", "ptr": "tptr", "pac": "tpac"}
LEAVES = list(TEXT)


def show(t, lv):
    if t in ("int", "long", "byte", "sub"): return "write(' ', %s:1)" % lv
    if t == "ptr": return "write(' ', %s^:1)" % lv
    if t in ("char", "pac"): return "write(' ', %s)" % lv
    if t == "bool": return "if %s then write(' T') else write(' F')" % lv
    if t == "enum": return "write(' ', ord(%s):1)" % lv
    if t == "real": return "write(' ', %s:1:3)" % lv
    if t == "str": return "write(' <', %s, '>')" % lv
    if t in PROBE:
        return "begin write(' {'); %s; write('}') end" % "; ".join("if %s in %s then write('1') else write('0')" % (q(chr(x)) if t == "chs" else x, lv) for x in PROBE[t])
    raise KeyError(t)


HEAD = """type ten = (ea, eb, ec, ed, ee); tsub = -3..3; tbyte = 0..255; tstr = string[6]; tset = set of 0..9; tbig = set of 0..255;
tchs = set of char; tptr = ^integer; tpac = packed array [1..3] of char;
"""


# ------------------------------------------------------------------ types: leaf name | ("A", idx, T) | ("R", [T...]) | ("V", T, tagtype, alts)
IDX = {  # name -> (pascal type, element indexes as text, type of an index variable)
    "n3": ("1..3", ["1", "2", "3"], "integer"), "neg": ("-2..0", ["-2", "-1", "0"], "integer"), "ch": ("'b'..'d'", ["'b'", "'c'", "'d'"], "char"),
    "bo": ("boolean", ["false", "true"], "boolean"), "en": ("ten", ["ea", "eb", "ec", "ed", "ee"], "ten"), "one": ("0..0", ["0"], "integer"),
    "hi": ("254..256", ["254", "255", "256"], "integer"), "es": ("eb..ed", ["eb", "ec", "ed"], "ten"), "wide": ("-100..100", ["-100", "0", "100"], "integer"),
    "bs": ("tbyte", ["0", "127", "128", "255"], "tbyte"), "c0": ("char", ["'0'", "'z'", "chr(255)"], "char"),
}
MULTI = {"m22": (("0..1", "'a'..'b'"), ["0, 'a'", "0, 'b'", "1, 'a'", "1, 'b'"]), "m13": (("boolean", "-1..1"), ["false, -1", "false, 0", "false, 1", "true, -1", "true, 0", "true, 1"])}


def twice(t, x): return not isinstance(x, str) and t[1].count(x) > 1


def named(t, pk):
    """definitions of the types several fields of the outermost record have in common"""
    if isinstance(t, str) or t[0] != "R": return ""
    return "".join("tq%d = %s; " % (k, ptext(x, pk)) for k, x in enumerate(t[1]) if twice(t, x) and t[1].index(x) == k)


def ptext(t, pk=""):
    if isinstance(t, str): return TEXT[t]
    if t[0] == "A":
        i = IDX[t[1]][0] if t[1] in IDX else ", ".join(MULTI[t[1]][0])
        return "%sarray [%s] of %s" % (pk, i, ptext(t[2], pk))
    if t[0] == "R": return "%srecord %s end" % (pk, "; ".join("%s: %s" % (f, "tq%d" % t[1].index(x) if twice(t, x) else ptext(x, pk)) for f, x in zip("abcdefgh", t[1])))
    if t[0] == "V":  # ("V", fixed, tag, [(label, [T..])...])
        alts = "; ".join("%s: (%s)" % (l, "; ".join("v%d%d: %s" % (k, j, ptext(x, pk)) for j, x in enumerate(ts))) for k, (l, ts) in enumerate(t[3]))
        return "%srecord a: %s; case z: %s of %s end" % (pk, ptext(t[1], pk), TEXT[t[2]], alts)


def leaves(t, path=(), cond=()):
    """[(path, leaf type, conditions, tag info)]; a path is a list of ('f', field) / ('i', index text, index var type)"""
    if isinstance(t, str): return [(path, t, cond, None)]
    if t[0] == "A":
        out = []
        idx, it = (IDX[t[1]][1], IDX[t[1]][2]) if t[1] in IDX else (MULTI[t[1]][1], None)
        for i in idx: out += leaves(t[2], path + (("i", i, it),), cond)
        return out
    if t[0] == "R":
        out = []
        for f, x in zip("abcdefgh", t[1]): out += leaves(x, path + (("f", f),), cond)
        return out
    out = leaves(t[1], path + (("f", "a"),), cond)
    tp = path + (("f", "z"),)
    out.append((tp, t[2], cond, (path, t)))
    for k, (l, ts) in enumerate(t[3]):
        for j, x in enumerate(ts): out += leaves(x, path + (("f", "v%d%d" % (k, j)),), cond + ((tp, l),))
    return out


def lval(base, path, comp):
    """text of the component; comp: indexes through variables (returns setup statements too)"""
    pre, s = "", base
    for p in path:
        if p[0] == "f": s += "." + p[1]
        elif comp and p[2]:
            d = pre.count(":=")
            v = {"integer": "ki%d", "char": "kc%d", "boolean": "kb%d", "ten": "ke%d", "tbyte": "ky%d"}[p[2]] % d
            pre += "%s := %s; " % (v, p[1])
            s += "[%s]" % v
        else: s += "[%s]" % p[1]
    return pre, s


KV = "".join("k%s0, k%s1, k%s2: %s; " % (a, a, a, b) for a, b in (("i", "integer"), ("c", "char"), ("b", "boolean"), ("e", "ten"), ("y", "tbyte")))

PLACE = {  # how the three variables x, y and z are held -> declarations, names, set-up
    "glob": ("var g0: char; x: tt; g1: integer; y: tt; g2: char;", ["x", "y"], ""),
    "heap": ("type pt = ^tt; var g0: char; px: pt; g1: integer; py: pt; g2: char;", ["px^", "py^"], "new(px); new(py); "),
    "elem": ("var g0: char; ar: array [1..3] of tt; g1: integer; g2: char; kk: integer;", ["ar[1]", "ar[kk]"], "kk := 2; "),
    "field": ("var g0: char; rr: record p: char; x: tt; q: boolean; y: tt end; g1: integer; g2: char;", ["rr.x", "rr.y"], ""),
    "local": ("", ["x", "y"], ""),
    "param": ("", ["x", "y"], ""),
    "mixed": ("type pt = ^tt; var g0: char; px: pt; g1: integer; ar: array ['a'..'c'] of record u: char; v: tt; w: char end; g2: char;", ["px^", "ar['b'].v"], "new(px); "),
}


class Driver:
    def __init__(self, t, place, comp, pk=""):
        self.t, self.place, self.pk = t, place, pk
        L = self.L = leaves(t)
        n = len(L)
        names = PLACE[place][1]
        pos = {l[0]: i for i, l in enumerate(L)}
        self.n = n
        # state: n leaves of x, n of y (strings; None = undefined)
        self.ops = []

        def conds(v, cond):
            return [(v * n + pos[p], l) for p, l in cond]

        def ctext(base, cond):
            return " and ".join("(%s = %s)" % (lval(base, p, False)[1], l) for p, l in cond)

        def wr(base, i, k):
            pre, s = lval(base, L[i][0], comp)
            return pre + "%s := %s" % (s, value(L[i][1], k)[0])

        def init(base, v, k0):
            """give all leaves values; the variants get the k0-th alternative"""
            st, vals = [], [None] * n
            for i, (path, lt, cond, tag) in enumerate(L):
                act = all(vals[pos[p]] == dict(zip(*tagvals(p)))[l] for p, l in cond)
                if not act: continue
                k = v * 29 + i * 3 + k0
                if tag:
                    labs = [l for l, _ in tag[1][3]]
                    l = labs[k0 % len(labs)]
                    st.append("%s := %s" % (lval(base, path, False)[1], l))
                    vals[i] = dict(zip(*tagvals(path)))[l]
                else:
                    st.append(wr(base, i, k))
                    vals[i] = value(lt, k)[1]
            return st, vals

        def tagvals(p):
            tag = L[pos[p]][3][1]
            labs = [l for l, _ in tag[3]]
            return labs, ["T" if l == "true" else "F" if l == "false" else str(ENS.index(l)) if l in ENS else l.strip("'") for l in labs]
        self.tagval = lambda p, l: dict(zip(*tagvals(p)))[l]
        self.init, vals = [], []
        for v in (0, 1):
            st, vv = init(names[v], v, v)
            self.init += st
            vals += vv
        self.start = vals
        self.cond = [[(v * n + pos[p], self.tagval(p, l)) for p, l in L[i][2]] for v in (0, 1) for i in range(n)]
        # element writes and variant switches
        for v in (0, 1):
            for i, (path, lt, cond, tag) in enumerate(L):
                k = 7 + v * 31 + i * 2
                if tag:
                    for a, (l, ts) in enumerate(tag[1][3]):
                        base = tag[0]
                        st, eff = ["%s := %s" % (lval(names[v], path, False)[1], l)], [(v * n + i, self.tagval(path, l))]
                        for j, (p2, lt2, c2, tg2) in enumerate(L):
                            if (path, l) in c2 and not tg2:
                                st.append(wr(names[v], j, k + j + a))
                                eff.append((v * n + j, value(lt2, k + j + a)[1]))
                        self.op("; ".join(st), conds_(self, v, cond, pos, n), eff, ctext(names[v], cond))
                else:
                    self.op(wr(names[v], i, k), conds_(self, v, cond, pos, n), [(v * n + i, value(lt, k)[1])], ctext(names[v], cond))
        cp = lambda d, s: [(d * n + i, ("s", s * n + i)) for i in range(n)]
        x, y = names
        self.op("%s := %s" % (x, y), [], cp(0, 1))
        self.op("%s := %s" % (y, x), [], cp(1, 0))
        self.op("byval(%s)" % x, [], [])
        self.op("byvar(%s, %s)" % (y, x), [], cp(1, 0))
        self.op("%s := result(%s, true)" % (x, y), [], cp(0, 1))
        st, vv = init("result", 0, 5)
        self.resinit = init("r", 0, 5)[0]
        self.op("%s := result(%s, false)" % (y, x), [], [(n + i, w) for i, w in enumerate(vv)])
        self.pst, self.pvals = init("v", 1, 4)
        st, vv = init("", 0, 6)
        if not isinstance(t, str) and t[0] != "A":
            wst, wv = init("", 0, 6)
            wst = [s.replace(":= .", ":= ") for s in wst]
            wst = [w[1:] if w.startswith(".") else w.replace("; .", "; ") for w in wst]
            self.op("with %s do begin %s end" % (x, "; ".join(wst)), [], [(i, w) for i, w in enumerate(wv)])
        # partial copies: between first-level components of the same aggregate type
        subs = self.components()
        cnt = 0
        for (p1, t1), (p2, t2) in itertools.product(subs, subs):
            if t1 != t2 or cnt >= 6: continue
            for d, s in ((0, 0), (0, 1), (1, 0)):
                if p1 == p2 and d == s or (d, s) != (0, 0) and p1 > p2: continue
                a = [i for i in range(n) if L[i][0][:len(p1)] == p1]
                b = [i for i in range(n) if L[i][0][:len(p2)] == p2]
                pa, sa = lval(names[d], p1, comp)
                pb, sb = lval(names[s], p2, comp)
                if pa and pb and pa != pb: pb, sb = lval(names[s], p2, False)
                self.op("%s%s := %s" % (pa if pa else pb, sa, sb), [], [(d * n + i, ("s", s * n + j)) for i, j in zip(a, b)])
                cnt += 1
        tx = ptext(t, pk)
        decls, nm, setup = PLACE[place]
        dump = ["write(' ', g0, g1:1, g2)"]
        for v in (0, 1):
            for i, (path, lt, cond, tag) in enumerate(L):
                pre, s = lval(names[v], path, comp and i % 2)
                sh = show(lt, s)
                if cond: sh = "if %s then begin %s%s end else write(' -')" % (ctext(names[v], cond), pre, sh)
                else: sh = pre + sh
                dump.append(sh)
        self.src = self.program(tx, decls, names, setup, dump)

    def components(self):
        t = self.t
        if isinstance(t, str): return []
        if t[0] == "A":
            if isinstance(t[2], str) and t[2] not in ("str", "big", "pac", "set"): return []
            ix, it = (IDX[t[1]][1], IDX[t[1]][2]) if t[1] in IDX else (MULTI[t[1]][1], None)
            return [((("i", i, it),), t[2]) for i in ix]
        if t[0] == "R": return [((("f", f),), x) for f, x in zip("abcdefgh", t[1]) if not isinstance(x, str)]
        return []

    def op(self, st, cond, eff, ctext=""):
        self.ops.append((st if not ctext else "if %s then begin %s end" % (ctext, st), cond, eff))

    def program(self, tx, decls, names, setup, dump):
        body = "".join("%d: begin %s end;\n" % (33 + i, o[0]) for i, o in enumerate(self.ops))
        run = "reset; while not eoln do begin read(c); case ord(c) of\n%s end end; readln; dump; writeln" % body
        parts = """procedure zinit; var i: integer; begin for i := 1 to 7 do begin new(zp[i]); zp[i]^ := i * 11 end end;
procedure byval(v: tt); var %(kv)s begin %(pst)s end;
procedure byvar(var v: tt; w: tt); begin v := w end;
function result(v: tt; b: boolean): tt; var r: tt; %(kv)s begin if b then result := v else begin %(res)s; result := r end end;
""" % dict(kv=KV, pst="; ".join(self.pst), res="; ".join(self.resinit))
        inner = """procedure reset; begin g0 := '('; g1 := -123456789; g2 := ')'; %s end;
procedure dump; begin %s end;
procedure run; var c: char; begin %s end;
""" % (";\n".join(self.init), ";\n".join(dump), run)
        head = "program p(input, output);\n" + HEAD + "%s tt = %s;\nvar zp: array [1..7] of tptr; %s\n" % (named(self.t, self.pk), tx, KV)
        if self.place in ("local", "param"):
            loc = "var g0: char; x: tt; g1: integer; y: tt; g2: char;"
            if self.place == "local":
                return head + parts + "procedure main;\n%s\n%sbegin while not eof do run end;\nbegin zinit; main end.\n" % (loc, inner)
            return head + parts + "procedure main(g0: char; var x: tt; g1: integer; y: tt; g2: char);\n%sbegin while not eof do run end;\nvar u, w: tt;\nbegin zinit; main('a', u, 0, w, 'b') end.\n" % inner
        return head + decls + "\n" + parts + inner + "begin zinit; %s while not eof do run end.\n" % setup

    def expect(self, seq):
        s = list(self.start)
        for k in seq:
            st, cond, eff = self.ops[k]
            if any(s[i] != w for i, w in cond): continue
            if eff and isinstance(eff[0][1], tuple):
                new = [(d, s[v[1]]) for d, v in eff]
                for d, v in new: s[d] = v
            else:
                for d, v in eff: s[d] = v
        out = [" (-123456789)"]
        for i, v in enumerate(s):
            if any(s[j] != w for j, w in self.cond[i]): out.append(" -")
            else: out.append(" " + str(v))
        return "".join(out)

    def tapes(self, budget):
        d, n = 0, len(self.ops)
        while d < 4 and n ** (d + 1) <= budget: d += 1
        d = max(d, 2)
        return d, [("".join(chr(33 + k) for k in s), self.expect(s)) for m in range(d + 1) for s in itertools.product(range(n), repeat=m)]


def conds_(self, v, cond, pos, n):
    return [(v * n + pos[p], self.tagval(p, l)) for p, l in cond]


def types():
    for a in LEAVES: yield ("A", "n3", a)
    for i in IDX:
        for a in ("int", "char", "str", "big", "bool"):
            if i != "n3": yield ("A", i, a)
    for m in MULTI:
        for a in ("int", "char", "real", "str", "set"): yield ("A", m, a)
    for a in LEAVES:
        for b in LEAVES:
            yield ("R", (a, "char", b))
    subs = ["int", "char", "long", "str", "set", "byte", "bool"]
    for a in subs:
        for b in ("int", "char", "real", "pac", "byte"):
            yield ("V", "char", "bool", (("true", (a,)), ("false", (b, "char"))))
    for a in ("str", "big", "long", "real"):
        yield ("V", a, "enum", (("ea", ("int", "int")), ("eb", ("char",)), ("ec", (("A", "n3", "byte"),)), ("ed", (("R", ("char", "long")),)), ("ee", ("real",))))
        yield ("V", "byte", "char", (("'p'", (a, "byte")), ("'q'", ("byte", a))))
    for a in subs:
        yield ("A", "bo", ("R", ("char", a)))
        yield ("A", "ch", ("R", (a, "char")))
        yield ("A", "neg", ("A", "bo", a))
        yield ("A", "es", ("V", "char", "bool", (("false", (a,)), ("true", ("char", "byte")))))
        yield ("R", ("char", ("A", "n3", a), "char"))
        yield ("R", (("A", "bo", a), "char", ("A", "bo", a)))
        yield ("R", (("R", ("char", a)), "char", ("R", ("char", a))))
        yield ("R", ("char", ("V", a, "bool", (("false", ("byte", a)), ("true", ("real",)))), "byte"))
        yield ("V", "byte", "bool", (("true", (("A", "bo", a), "char")), ("false", (("R", (a, "byte")),))))
    if THOROUGH:
        for a in LEAVES:
            for b in ("int", "char", "str", "real"):
                yield ("A", "bo", ("R", (("A", "bo", a), b)))
                yield ("R", (("A", "one", ("R", (b, a))), ("R", (("A", "bo", b), a))))
                yield ("A", "bo", ("A", "neg", ("R", (a, b))))
                yield ("V", ("R", (a, b)), "bool", (("false", (("A", "bo", ("R", ("char", a))),)), ("true", (("V", a, "enum", (("ea", (b,)), ("eb", ("byte", b)))),))))


def tname(t):
    if isinstance(t, str): return t
    if t[0] == "A": return "A%s(%s)" % (t[1], tname(t[2]))
    if t[0] == "R": return "R(%s)" % ",".join(map(tname, t[1]))
    return "V(%s;%s;%s)" % (tname(t[1]), t[2], "|".join("%s:%s" % (l, ",".join(map(tname, ts))) for l, ts in t[3]))


# ------------------------------------------------------------------ pack and unpack
def packs():
    """unpacked array bounds, packed bounds, element type: every legal start index"""
    out = []
    for e in ("char", "int", "bool", "byte", "real", "enum", "str"):
        for ub, uv in (("1..6", [str(i) for i in range(1, 7)]), ("-2..3", [str(i) for i in range(-2, 4)]), ("'a'..'f'", [q(c) for c in "abcdef"])):
            for pb, pv in (("1..3", ["1", "2", "3"]), ("0..5", [str(i) for i in range(6)]), ("-1..-1", ["-1"]), ("boolean", ["false", "true"])):
                out.append((e, ub, uv, pb, pv))
    return out


def pack_driver(e, ub, uv, pb, pv):
    nu, np = len(uv), len(pv)
    ops, starts = [], range(nu - np + 1)
    kv = "kc" if "'" in ub else "k"
    for s in starts:
        ops.append(("pack(u, %s, p)" % uv[s], ("p", s)))
        ops.append(("unpack(p, u, %s)" % uv[s], ("u", s)))
        ops.append(("%s := %s; pack(u, %s, p)" % (kv, uv[s], kv), ("p", s)))
        ops.append(("%s := %s; unpack(p, u, %s)" % (kv, uv[s], kv), ("u", s)))
    for i in range(nu): ops.append(("u[%s] := %s" % (uv[i], value(e, i + 11)[0]), ("wu", i, value(e, i + 11)[1])))
    for i in range(np): ops.append(("p[%s] := %s" % (pv[i], value(e, i + 23)[0]), ("wp", i, value(e, i + 23)[1])))
    init = ["u[%s] := %s" % (uv[i], value(e, i)[0]) for i in range(nu)] + ["p[%s] := %s" % (pv[i], value(e, 50 + i)[0]) for i in range(np)]
    dump = [show(e, "u[%s]" % x) for x in uv] + [show(e, "p[%s]" % x) for x in pv]
    src = ("program p(input, output);\n" + HEAD + "var g0: char; u: array [%s] of %s; g1: integer; p: packed array [%s] of %s; g2: char; k: integer; kc: char;\n"
           "procedure run; var c: char; begin g0 := '('; g1 := -123456789; g2 := ')'; %s; while not eoln do begin read(c); case ord(c) of\n%s end end; readln; write(' ', g0, g1:1, g2); %s; writeln end;\n"
           "begin while not eof do run end.\n") % (ub, TEXT[e], pb, TEXT[e], "; ".join(init), "".join("%d: begin %s end;\n" % (33 + i, o[0]) for i, o in enumerate(ops)), "; ".join(dump))
    u0, p0 = [value(e, i)[1] for i in range(nu)], [value(e, 50 + i)[1] for i in range(np)]

    def expect(seq):
        u, p = list(u0), list(p0)
        for k in seq:
            o = ops[k][1]
            if o[0] == "p": p = u[o[1]:o[1] + np]
            elif o[0] == "u": u[o[1]:o[1] + np] = p
            elif o[0] == "wu": u[o[1]] = o[2]
            else: p[o[1]] = o[2]
        return " (-123456789)" + "".join(" " + x for x in u + p)
    d = 2
    return src, [("".join(chr(33 + k) for k in s), expect(s)) for m in range(d + 1) for s in itertools.product(range(len(ops)), repeat=m)]


# ------------------------------------------------------------------ arrays of several indexes: every cell is a variable of its own
GIDX = {  # name -> (index type, type of an index variable, all index values as text)
    "bo": ("boolean", "boolean", ["false", "true"]), "ch": ("'b'..'d'", "char", ["'b'", "'c'", "'d'"]), "az": ("'a'..'z'", "char", ["'%c'" % c for c in range(97, 123)]),
    "en": ("ten", "ten", ["ea", "eb", "ec", "ed", "ee"]), "es": ("eb..ed", "ten", ["eb", "ec", "ed"]), "neg": ("-2..1", "integer", ["-2", "-1", "0", "1"]), "i": ("1..3", "integer", ["1", "2", "3"]),
    "li": ("7..9", "integer", ["7", "8", "9"]), "hi": ("200..255", "tbyte", [str(i) for i in range(200, 256)]), "cc": ("char", "char", ["chr(%d)" % i for i in range(256)]), "su": ("tsub", "tsub", [str(i) for i in range(-3, 4)]),
    "one": ("5..5", "integer", ["5"]),
}


def grids():
    """Every pair (and triples of the small ones) of index types: every cell gets a value of its own, through variable
    indexes; then every cell is read through variables, constants and two-level indexing."""
    def one(ix, nested, el):
        n = 1
        for k in ix: n *= len(GIDX[k][2])
        if n > 20000 or (n > 2000 and (el != "int" or nested) and not THOROUGH): return None
        tn = {"int": "integer", "char": "char", "rec": "record b: char; n: integer end", "real": "real"}[el]
        ty = "array [%s] of " % ", ".join(GIDX[k][0] for k in ix) + tn if not nested else "".join("array [%s] of " % GIDX[k][0] for k in ix) + tn
        vs = ["v%d" % j for j in range(len(ix))]
        lin, mul = "", 1
        for j in reversed(range(len(ix))):
            lin = "(ord(v%d) - (%d)) * %d" % (j, ord_of(GIDX[ix[j]][2][0]), mul) + (" + " + lin if lin else "")
            mul *= len(GIDX[ix[j]][2])
        val = {"int": "(%s) * 7 - 300" % lin, "char": "chr(33 + (%s) mod 90)" % lin, "real": "(%s) / 4" % lin, "rec": None}[el]
        xs = [v + " + zl" if k == "li" else v for v, k in zip(vs, ix)]  # an index of type longint
        at = "a[%s]" % ", ".join(xs)
        at2 = "a" + "".join("[%s]" % v for v in xs)
        loops = "".join("for v%d := %s to %s do " % (j, GIDX[k][2][0], GIDX[k][2][-1]) for j, k in enumerate(ix))
        if el == "rec":
            fill = "begin %s.n := (%s) * 7 - 300; %s.b := chr(33 + (%s) mod 90) end" % (at, lin, at2, lin)
            chk = "if (%s.n = (%s) * 7 - 300) and (%s.b = chr(33 + (%s) mod 90)) then ok := ok + 1" % (at2, lin, at, lin)
        else:
            fill = "%s := %s" % (at, val)
            chk = "if (%s = %s) and (%s = %s) then ok := ok + 1" % (at, val, at2, val)
        body = "zl := 0; g1 := 77; g2 := 88; %s %s; ok := 0; %s %s; write(ok:1, ' ', g1:1, ' ', g2:1);" % (loops, fill, loops, chk)
        exp = "%d 77 88" % n
        cells = list(itertools.product(*[range(len(GIDX[k][2])) for k in ix])) if n <= 60 else [tuple(f(len(GIDX[k][2])) for k in ix) for f in (lambda m: 0, lambda m: m - 1, lambda m: m // 2)]
        body += " " + " ".join("write(' ', a[%s]%s);" % (", ".join(GIDX[k][2][c] for k, c in zip(ix, cl)), {"rec": ".n:1", "int": ":1", "char": "", "real": ":1:2"}[el]) for cl in cells)
        for cl in cells:
            pos = 0
            for k, c in zip(ix, cl): pos = pos * len(GIDX[k][2]) + c
            exp += " " + {"rec": str(pos * 7 - 300), "int": str(pos * 7 - 300), "char": chr(33 + pos % 90), "real": "%.2f" % (pos / 4)}[el]
        decl = "var g1: integer; a: %s; g2, ok: integer; zl: longint; %s" % (ty, " ".join("v%d: %s;" % (j, GIDX[k][1]) for j, k in enumerate(ix)))
        return Case("grid %s %s %s" % (",".join(ix), "nested" if nested else "flat", el), body, exp, decl=decl)
    for ix in itertools.product(GIDX, repeat=2):
        for el in ("int", "char", "rec") if not THOROUGH else ("int", "char", "rec", "real"):
            yield one(ix, False, el)
        yield one(ix, True, "int")
    small = ("bo", "ch", "en", "neg", "li", "one") if not THOROUGH else ("bo", "ch", "en", "es", "neg", "i", "li", "su", "one")
    for ix in itertools.product(small, repeat=3):
        yield one(ix, False, "int")
        if THOROUGH: yield one(ix, False, "rec")
    for ix in itertools.product(("bo", "ch", "neg"), repeat=4):
        yield one(ix, False, "char")


def ord_of(t):
    if t[0] == "'": return ord(t[1])
    if t.startswith("chr("): return int(t[4:-1])
    return {"false": 0, "true": 1, "ea": 0, "eb": 1, "ec": 2, "ed": 3, "ee": 4}.get(t) if t[0].isalpha() else int(t)


def main():
    chk = Check("C11", "exploration")
    cfgs = [("-O0",), ("-O2",)]
    if THOROUGH: cfgs += [("-O1",), ("-O3",), ("-m32", "-O0"), ("-m32", "-O2"), ("-no-memcpy", "-O1"), ("-O1", "-g")]
    places = list(PLACE)
    nt = [0, 0]
    depths = {}

    def jobs():
        for i, t in enumerate(types()):
            nt[0] += 1
            deep = not all(isinstance(x, str) for x in (t[2:3] if t[0] == "A" else t[1]))
            for ci, cfg in enumerate(cfgs):
                # every type in two places and index forms (all of them in the thorough tier)
                combos = [(p, c) for p in places for c in (False, True)] if THOROUGH else [(places[(i + ci * 3) % 7], bool((i // 7 + ci) % 2)), (places[(i + 2 + ci * 3) % 7], bool((i // 7 + ci + 1) % 2))]
                for p, c in combos:
                    d = Driver(t, p, c, "packed " if (i + ci) % 5 == 4 else "")
                    dep, tp = d.tapes(1500 if not THOROUGH else 6000)
                    depths[dep] = depths.get(dep, 0) + 1
                    nt[1] += 1
                    if nt[1] % 97 == 1: chk.samples.append({"type": ptext(t), "place": p, "depth": dep, "operations": len(d.ops), "tape": tp[-1][0], "expected": tp[-1][1][:120]})
                    yield "%s %s %s" % (tname(t), p, "comp" if c else "const"), d.src, cfg, tp
        for e, ub, uv, pb, pv in packs():
            src, tp = pack_driver(e, ub, uv, pb, pv)
            for cfg in cfgs: yield "pack %s %s %s" % (e, ub, pb), src, cfg, tp
    ng = [0]

    def gcases():
        for c in grids():
            if c is not None:
                ng[0] += 1
                yield c
    eg = run_cases(chk, gcases(), cfgs, batch=40, header=HEAD, cpu=20)
    ev = run_tapes(chk, jobs())
    chk.finish(grids=ng[0], grid_runs=eg, evaluations=ev + eg, distinct_nontrivial=ev // len(cfgs) + ng[0], exhaustive=True, types=nt[0], drivers=nt[1], depths={str(k): v for k, v in depths.items()},
               rule="a case is one sequence of operations on one type held in one place; distinct by type, place, index form and sequence",
               configurations=[" ".join(c) for c in cfgs])
