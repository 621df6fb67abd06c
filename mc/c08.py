"""C08: names. Enumerates programs in which the same name is declared at several levels (predefined, program, procedure, nested
procedure, with-statement) as every kind of thing; trees of procedures with repeated names; with-statements over every
list of record designators with overlapping fields. The uses print what they denote; an interpreter of the scope rules
predicts the output."""
import itertools
from core import Case, standard, THOROUGH


class G:
    chains = trees = withs = predefined = others = 0


def sp(name, k):
    """another spelling of the name"""
    name, at, rest = name.partition("@")
    return "".join(c.upper() if (k >> (i % 3)) & 1 else c.lower() for i, c in enumerate(name)) + at + rest


# ---------------------------------------------------------------- one name, several levels
PRE = {  # what the name denotes when nothing redefines it: ("val", probe text, output) or ("type", declaration use)
    "sqr": ("val", "write(' p', %s(3):1)", " p9"), "maxint": ("val", "write(' p', %s:1)", " p2147483647"), "true": ("val", "write(' p', ord(%s):1)", " p1"),
    "odd": ("val", "write(' p', ord(%s(4)):1)", " p0"), "integer": ("type", "v := 70000; write(' p', v:1)", " p70000"), "char": ("type", "v := 'q'; write(' p', v:1)", " pq"),
    "succ": ("val", "write(' p', %s('a'):1)", " pb"), "length": ("val", "write(' p', %s('abc'):1)", " p3"), "abs": ("val", "write(' p', %s(-4):1)", " p4"),
    "pi": ("val", "write(' p', %s:5:3)", " p3.142"), "boolean": ("type", "v := true; write(' p', ord(v):1)", " p1"), "chr": ("val", "write(' p', %s(65):1)", " pA"),
    "inc": ("val", "write(' p', 1:1)", " p1"), "max": ("val", "write(' p', %s(3, 4):1)", " p4"), "trunc": ("val", "write(' p', %s(3.7):1)", " p3"),
}
KINDS = ["none", "const", "var", "type", "func", "enum"]
PKINDS = KINDS + ["vpar", "rpar"]
WITHS = ["", "r", "rs", "rq", "r-s", "q-r"]  # r and s have the field, q has not; '-' separates nested with-statements


class Chain:
    def __init__(self, name, kinds, wi, style):
        self.name, self.kinds, self.wi, self.style, self.k = name, kinds, wi, style, 0

    def x(self):
        self.k += 1
        return sp(self.name, self.k * 5 + len(self.kinds[0]))

    def decl(self, lev):
        k = self.kinds[lev]
        I = "integer" if self.name != "integer" else "tint"
        if k == "const": return "const %s = %d;" % (self.x(), 100 + lev)
        if k == "var": return "var %s: %s;" % (self.x(), I)
        if k == "type": return "type %s = record f%d: %s end;" % (self.x(), lev, I)
        if k == "func": return "function %s: %s; begin %s := %d end;" % (self.x(), I, self.x(), 300 + lev)
        if k == "enum": return "type te%d@N = (%s%s);" % (lev, "".join("ea%d%d@N, " % (lev, j) for j in range(lev + 1)), self.x())
        return ""

    def params(self, lev):
        I = "integer" if self.name != "integer" else "tint"
        k = self.kinds[lev]
        return "(%s%s: %s)" % ("var " if k == "rpar" else "", self.x(), I) if k in ("vpar", "rpar") else ""

    def visible(self, lev):
        for l in range(lev, -1, -1):
            if self.kinds[l] != "none": return l
        return None

    def probedecl(self, lev):
        """the nested procedure that uses the name as a type, when it is one"""
        l = self.visible(lev)
        if l is None:
            if self.name in PRE and PRE[self.name][0] == "type":
                return "procedure pr%d@N; var v: %s; begin %s end;" % (lev, self.x(), PRE[self.name][1])
            return ""
        if self.kinds[l] != "type": return ""
        return "procedure pr%d@N; var v: %s; begin v.f%d := %d; write(' t', v.f%d:1) end;" % (lev, self.x(), l, 40 + l, l)

    def probe(self, lev, field=None):
        """a statement; the interpreter's action"""
        if field is not None:
            return "write(' w', %s:1); %s := %s + 10" % (self.x(), self.x(), self.x()), ("field", field)
        l = self.visible(lev)
        if l is None:
            if self.name not in PRE: return "write(' -')", ("text", " -")
            if PRE[self.name][0] == "type": return "pr%d@N" % lev, ("text", PRE[self.name][2])
            t = PRE[self.name][1]
            return t % self.x() if "%" in t else t, ("text", PRE[self.name][2])
        k = self.kinds[l]
        if k in ("var", "vpar", "rpar"): return "write(' v', %s:1); %s := %s + 1" % (self.x(), self.x(), self.x()), ("var", l)
        if k == "const": return "write(' c', %s:1)" % self.x(), ("text", " c%d" % (100 + l))
        if k == "func": return "write(' f', %s:1)" % self.x(), ("text", " f%d" % (300 + l))
        if k == "enum": return "write(' e', ord(%s):1)" % self.x(), ("text", " e%d" % (l + 1))
        return "pr%d@N" % lev, ("text", " t%d" % (40 + l))

    def build(self):
        """levels: 0 the program (or the case's procedure), 1 procedure p, 2 procedure q in p, with in q"""
        I = "integer" if self.name != "integer" else "tint"
        xs = sp(self.name, 0)
        w = self.wi
        acts = {}
        # q's body
        q, qa = [], []

        def add(lst, al, lev, field=None):
            s, a = self.probe(lev, field)
            lst.append(s)
            al.append(a)
        init = lambda lev: ["%s := %d" % (self.x(), 200 + lev)] if self.kinds[lev] == "var" else []
        initv = lambda lev: [("set", lev, 200 + lev)] if self.kinds[lev] == "var" else []
        q += init(2)
        qa += initv(2)
        add(q, qa, 2)
        if w:
            inner, ia = [], []
            order = w.replace("-", "")
            hit = next((c for c in reversed(order) if c in "rs"), None)
            add(inner, ia, 2, hit)
            inner.append("%s := %s + 1; write(' z', %s:1)" % ("zr" if "r" in order else "zs", "zr" if "r" in order else "zs", "zr" if "r" in order else "zs"))
            ia.append(("z", "zr" if "r" in order else "zs"))
            body = "begin %s end" % "; ".join(inner)
            for grp in reversed(w.split("-")): body = "with %s do %s" % (", ".join({"r": "wr@N", "s": "ws@N", "q": "wq@N"}[c] for c in grp), body)
            q.append(body)
            qa += ia
        add(q, qa, 2)
        p, pa = init(1), initv(1)
        add(p, pa, 1)
        p.append("q" + ("(7)" if self.kinds[2] == "vpar" else "(act2)" if self.kinds[2] == "rpar" else ""))
        pa.append(("call", 2))
        add(p, pa, 1)
        m, ma = init(0), initv(0)
        add(m, ma, 0)
        for _ in range(2):
            m.append("p@N" + ("(5)" if self.kinds[1] == "vpar" else "(act1@N)" if self.kinds[1] == "rpar" else ""))
            ma.append(("call", 1))
        add(m, ma, 0)
        m.append("write(' ', act1@N:1, ' ', wr@N.%s:1, ' ', ws@N.%s:1)" % (self.x(), self.x()))
        ma.append(("end",))
        recs = "type%s wt@N = record %s: %s; zr: %s end; wu@N = record zs: %s; %s: %s end; wv@N = record zq: %s end; var wr@N: wt@N; ws@N: wu@N; wq@N: wv@N; act1@N: %s;" % (
            " tint = -2147483647..2147483647;" if I == "tint" else "", xs, I, I, I, xs, I, I, I)
        if self.style == "glob" and I == "tint": recs = recs.replace("tint", "tint@N")
        pre = recs + self.decl(0) + self.probedecl(0)
        pdecl = "procedure p@N%s; %s var act2: %s; %s procedure q%s; %s %s begin %s end; begin act2 := 60; %s; write(' ', act2:1) end;" % (
            self.params(1), self.decl(1), I, self.probedecl(1), self.params(2), self.decl(2), self.probedecl(2), "; ".join(q), "; ".join(p))
        body = "wr@N.%s := 500; wr@N.zr := 1; ws@N.%s := 600; ws@N.zs := 2; act1@N := 50; %s" % (xs, xs, "; ".join(m))
        if self.style == "glob" and I == "tint": pdecl = pdecl.replace("tint", "tint@N")
        self.out = []
        st = {"f": {"r": 500, "s": 600}, "z": {"zr": 1, "zs": 2}}
        code = {0: ma, 1: pa, 2: qa}

        def run(lev, frame):
            for a in code[lev]:
                if a[0] == "text": self.out.append(a[1])
                elif a[0] == "set": frame[a[1]] = [a[2]]
                elif a[0] == "var":
                    self.out.append(" v%d" % frame[a[1]][0])
                    frame[a[1]][0] += 1
                elif a[0] == "field":
                    self.out.append(" w%d" % st["f"][a[1]])
                    st["f"][a[1]] += 10
                elif a[0] == "z":
                    st["z"][a[1]] += 1
                    self.out.append(" z%d" % st["z"][a[1]])
                elif a[0] == "call":
                    l = a[1]
                    f = dict(frame)
                    if l == 1: f["act2"] = [60]
                    if self.kinds[l] == "vpar": f[l] = [7 if l == 2 else 5]
                    elif self.kinds[l] == "rpar": f[l] = f["act%d" % l]
                    run(l, f)
                elif a[0] == "end": self.out.append(" %d %d %d" % (frame["act1"][0], st["f"]["r"], st["f"]["s"]))
            if lev == 1: self.out.append(" %d" % frame["act2"][0])
        run(0, {"act1": [50]})
        exp = "".join(self.out)
        key = "chain %s %s %s %s" % (self.name, " ".join(self.kinds), self.wi or ".", self.style)
        G.chains += 1
        if self.style == "glob": return Case(key, body, exp, glob=pre + pdecl)
        return Case(key, body, exp, decl=pre + pdecl)


def chains():
    for name in ["x"] + list(PRE):
        for i, (k0, k1, k2, w) in enumerate(itertools.product(KINDS, PKINDS, PKINDS, WITHS)):
            if name != "x":
                if not THOROUGH and (i + len(name)) % (4 if PRE[name][0] == "type" else 6): continue
                if name == "pi" and "type" in (k0, k1, k2): pass
            style = "glob" if name == "x" and i % 2 else "loc"
            c = Chain(name, (k0, k1, k2), w, style)
            if style == "glob":
                # at program level the name has to be the case's own
                c.name = "xq@N"
            yield c.build()


# ---------------------------------------------------------------- trees of procedures with repeated names
def shapes(d):
    """lists of nested procedures: each of a, b absent or present with its own nested list"""
    if d == 0:
        yield ()
        return
    sub = list(shapes(d - 1))
    for a in [None] + sub:
        for b in [None] + sub: yield tuple(x for x in (("a", a) if a is not None else None, ("b", b) if b is not None else None) if x)


def tree(top, style, fuel=5):
    ids = [0]
    isf = style == "func"

    def text(name, subs, path, env, depth, fwd=False):
        """declaration text; returns (text, node). env: names visible before this declaration"""
        ids[0] += 1
        me = ids[0]
        nm = name
        node = {"id": me, "name": name, "env": None, "depth": depth}
        inner_env = [dict(env[0])]
        inner_env[0][name] = node
        out = []
        for n, s in subs:
            t, nd = text(n, s, path + n, inner_env, depth + 1)
            out.append(t)
            inner_env[0][n] = nd
        node["env"] = inner_env[0]
        node["defer"] = None
        v = "v" if depth == 0 and False else "v"
        body = []
        node["calls"] = [n for n in ("a", "b")]

        def calls():
            r = []
            for n in ("a", "b"):
                t = node["env"].get(n)
                if t is None: continue
                real = n
                if isf: r.append("if fuel > 0 then begin fuel := fuel - 1; v := v + %s; write(' ', v:1) end" % real)
                else: r.append("if fuel > 0 then begin fuel := fuel - 1; %s; v := v + 1; write(' ', v:1) end" % real)
            return "; ".join(r)
        node["text"] = calls
        head = "function %s: integer;" % nm if isf else "procedure %s;" % nm
        if fwd: head = "procedure %s;" % nm if not isf else "function %s;" % nm
        cs = calls()
        t = "%s var v: integer; %s begin v := %d; write(' %s%d')%s%s end;" % (head, "".join(out), me * 100, name, me, "; " + cs if cs else "", ("; %s := %d" % (nm, me)) if isf else "")
        return t, node
    env = [{}]
    txt = []
    if style == "forward":
        # all top-level procedures are announced before any body
        for n, _ in top: txt.append("procedure %s; forward;" % n)
        ids0 = {}
        nodes = {}
        pre = {n: {"id": None, "name": n, "env": {}, "depth": 0, "fwd": True} for n, _ in top}
        env[0].update(pre)
    tops = {}
    for n, s in top:
        t, nd = text(n, s, n, env, 0, style == "forward")
        txt.append(t)
        env[0][n] = nd
        tops[n] = nd
    out = []
    f = [fuel]

    def call(nd):
        if nd.get("fwd"): nd = tops[nd["name"]]
        out.append(" %s%d" % (nd["name"], nd["id"]))
        v = nd["id"] * 100
        for n in ("a", "b"):
            t = nd["env"].get(n)
            if t is None: continue
            if f[0] > 0:
                f[0] -= 1
                r = call(t)
                v += r if isf else 1
                out.append(" %d" % v)
        return nd["id"]
    body = []
    for n, _ in top:
        f[0] = fuel
        if isf:
            body.append("fuel := %d; write(' =', %s:1)" % (fuel, n))
            out.append(" =")
            out.append("%d" % call(tops[n]))
        else:
            body.append("fuel := %d; %s; write(' ;')" % (fuel, n))
            call(tops[n])
            out.append(" ;")
    G.trees += 1
    key = "tree %s %s" % (style, repr(top).replace("'", "").replace(" ", "").replace(",", ""))
    return Case(key, "; ".join(body), "".join(out), decl=" ".join(txt))


def trees():
    for top in shapes(3 if not THOROUGH else 3):
        if not top: continue
        for style in ("proc", "func", "forward"): yield tree(top, style)


# ---------------------------------------------------------------- with
WDECL = """type wa = record f, g: integer end; wb = record g: integer; h: char; inn: record f: integer; k: char end end; wp = ^wc; wc = record h: char; f: integer; nx: wp end;
wv = record h: integer; case b: boolean of true: (g: integer; k: char); false: (q: char) end;"""
WVARS = "f, g, i: integer; h, k: char; r: wa; s: wb; t: array [1..2] of wa; p: wp; z: wv; d: record inn: wa; z: wv end;"
INIT = """f := 1; g := 2; h := 'h'; k := 'k'; i := 1; r.f := 10; r.g := 11; s.g := 20; s.h := 'H'; s.inn.f := 21; s.inn.k := 'K'; t[1].f := 30; t[1].g := 31; t[2].f := 32; t[2].g := 33;
new(p); p^.h := 'P'; p^.f := 40; new(p^.nx); p^.nx^.h := 'N'; p^.nx^.f := 41; p^.nx^.nx := nil; z.h := 50; z.b := true; z.g := 51; z.k := 'z'; d.inn.f := 60; d.inn.g := 61; d.z.h := 62; d.z.b := true; d.z.g := 63; d.z.k := 'd';
"""
DUMP = "write('|', f:1, ' ', g:1, h, k, r.f:3, r.g:3, s.g:3, s.h, s.inn.f:3, s.inn.k, t[1].f:3, t[1].g:3, t[2].f:3, t[2].g:3, pp^.h, pp^.f:3, pp^.nx^.h, pp^.nx^.f:3, z.h:3, z.g:3, z.k, d.inn.f:3, d.inn.g:3, d.z.h:3, d.z.g:3, d.z.k)"
CH = {"h", "k", "H"}
RECS = {  # designator: (path, fields)
    "r": ["f", "g"], "s": ["g", "h", "inn"], "t[i]": ["f", "g"], "p^": ["h", "f", "nx"], "p^.nx^": ["h", "f", "nx"], "z": ["h", "b", "g", "k", "q"], "d": ["inn", "z"], "s.inn": ["f", "k"], "d.inn": ["f", "g"], "inn": None, "z!": None, "nx^": None,
}


def fieldtype(path, f):
    return None


class W:
    """state: path -> value"""
    def __init__(self):
        v = self.v = {"f": 1, "g": 2, "h": "h", "k": "k", "r.f": 10, "r.g": 11, "s.g": 20, "s.h": "H", "s.inn.f": 21, "s.inn.k": "K", "t1.f": 30, "t1.g": 31, "t2.f": 32, "t2.g": 33, "P.h": "P", "P.f": 40, "N.h": "N", "N.f": 41,
                      "z.h": 50, "z.g": 51, "z.k": "z", "d.inn.f": 60, "d.inn.g": 61, "d.z.h": 62, "d.z.g": 63, "d.z.k": "d"}
        self.i, self.p, self.nx = 1, "P", {"P": "N", "N": None}

    def dump(self):
        v = self.v
        return "|%d %d%s%s%3d%3d%3d%s%3d%s%3d%3d%3d%3d%s%3d%s%3d%3d%3d%s%3d%3d%3d%3d%s" % tuple(v[k] for k in (
            "f", "g", "h", "k", "r.f", "r.g", "s.g", "s.h", "s.inn.f", "s.inn.k", "t1.f", "t1.g", "t2.f", "t2.g", "P.h", "P.f", "N.h", "N.f", "z.h", "z.g", "z.k", "d.inn.f", "d.inn.g", "d.z.h", "d.z.g", "d.z.k"))


TYPES = {"r": "wa", "s": "wb", "t1": "wa", "t2": "wa", "P": "wc", "N": "wc", "z": "wv", "d": "wd", "s.inn": "wi", "d.inn": "wa", "d.z": "wv"}
FIELDS = {"wa": ["f", "g"], "wb": ["g", "h", "inn"], "wc": ["h", "f", "nx"], "wv": ["h", "b", "g", "k", "q"], "wd": ["inn", "z"], "wi": ["f", "k"]}


def lookup(scopes, n):
    for s in reversed(scopes):
        if n in FIELDS[TYPES[s]]: return s + "." + n
    return n


def base(st, scopes, des):
    """the record a designator denotes here, or None when it makes no sense"""
    first = des.split("[")[0].split(".")[0].split("^")[0]
    where = lookup(scopes, first)
    if first == "inn" or first == "nx":
        if where == first: return None
    if des in ("r", "s", "d"): return des
    if des == "z": return where if where != "z" else "z"
    if des == "t[i]": return "t%d" % st.i
    if des == "p^": return st.p
    if des == "p^.nx^": return st.nx[st.p]
    if des == "nx^": return st.nx[where.split(".")[0]]
    if des == "s.inn": return "s.inn"
    if des == "d.inn": return "d.inn"
    if des == "inn": return where
    raise KeyError(des)


DES = ["r", "s", "t[i]", "p^", "p^.nx^", "z", "d", "s.inn", "d.inn", "inn", "nx^"]


def withs():
    k = 0
    for n in (1, 2, 3):
        for ds in itertools.product(DES, repeat=n):
            st = W()
            sc = []
            for d in ds:
                b = base(st, sc, d)
                if b is None: break
                sc.append(b)
            else:
                k += 1
                if n == 3 and not THOROUGH and k % 3: continue
                for form in ("comma", "nest") if n > 1 else ("comma",):
                    st = W()
                    stm, out = [], []
                    for nm in ("f", "g", "h", "k"):
                        w = lookup(sc, nm)
                        val = st.v[w]
                        isch = isinstance(val, str)
                        stm.append("write(' ', %s:1)" % sp(nm, k))
                        out.append(" %s" % val)
                    # move what the designators go through: the records stay the same ones
                    stm.append("i := 2; p := p^.nx")
                    st.i, st.p = 2, "N"
                    for j, nm in enumerate(("f", "g", "h", "k")):
                        w = lookup(sc, nm)
                        if isinstance(st.v[w], str):
                            stm.append("%s := succ(%s)" % (nm, nm))
                            st.v[w] = chr(ord(st.v[w]) + 1)
                        else:
                            stm.append("%s := %s + %d" % (nm, nm, j + 5))
                            st.v[w] += j + 5
                    body = "begin %s end" % "; ".join(stm)
                    if form == "comma": body = "with %s do %s" % (", ".join(ds), body)
                    else:
                        for d in reversed(ds): body = "with %s do %s" % (d, body)
                    out.append(st.dump())
                    place = ("local", "outer", "glob")[k % 3]
                    src = INIT + "pp := p; " + body + "; " + DUMP
                    key = "with %s %s %s" % (form, ", ".join(ds), place)
                    G.withs += 1
                    V = "var pp: wp; " + WVARS
                    if place == "local": yield Case(key, src, "".join(out), decl=V)
                    elif place == "outer": yield Case(key, "inner", "".join(out), decl=V + "procedure inner; begin %s end;" % src)
                    else: yield Case(key, "gl.run@N" if False else "run@N", "".join(out), decl="procedure run@N; %s procedure lo; var f, g: real; begin f := 0; g := f end; begin lo; %s end;" % (V, src))


# ---------------------------------------------------------------- every predefined name as every kind of thing
PNAMES = """abs odd sqr round trunc random randomize chr ord succ pred new dispose halt length popcnt card assign panic clock cycles paramcount paramstr copy substr trim index max min sign inc dec pack unpack
val sqrt sin cos ln exp arctan tan arctan2 fmod reset page rewrite append close get put eof eoln gettimestamp time date unbind binding bind seekwrite seekread seekupdate empty position lastposition eq ne le ge lt gt
cmplx re im arg polar frac int integer real char boolean text longint int64 complex timestamp bindingtype true false maxint minint maxchar maxreal minreal epsreal pi
main printf malloc exit free strlen puts open memcpy files stdout environ errno f g i j n p q r s t x y z abort signal brk start end_ result self_ vtable
a_rather_long_name_that_goes_on_and_on_and_on_and_on_and_on_and_on_1 a_rather_long_name_that_goes_on_and_on_and_on_and_on_and_on_and_on_2""".split()


def predefined():
    for k, n in enumerate(PNAMES):
        N = lambda: sp(n, k)
        U = n.upper()
        I = "integer" if n != "integer" else "ti@N"
        S = "string"
        ti = "type ti@N = -1000000..1000000; " if n == "integer" else ""
        forms = [
            ("var", "%svar %s: %s;" % (ti, n, I), "%s := 5; %s := %s + 1; write(%s:1)" % (n, U, n, U), "6"),
            ("const", "const %s = 'K';" % n, "write(%s)" % U, "K"),
            ("proc", "procedure %s; begin write('user') end;" % n, "%s" % U, "user"),
            ("func", "%sfunction %s(k: %s): %s; begin %s := k * 3 end;" % (ti, n, I, I, n), "write(%s(%s(4)):1)" % (n, U), "36"),
            ("type", "%stype %s = record b: %s end; var v: %s;" % (ti, n, I, U), "v.b := 8; write(v.b:1)", "8"),
            ("enum", "type te = (e1, %s, e3); var v: te;" % n, "v := %s; if v = succ(e1) then write(ord(v):1)" % U if n not in ("succ", "ord") else "v := %s; case v of e1: write(0:1); %s: write(1:1); e3: write(2:1) end" % (U, n), "1"),
            ("field", "%svar v: record a: char; %s: %s end;" % (ti, n, I), "v.%s := 7; with v do %s := %s + 1; write(v.%s:1)" % (n, U, n, U), "8"),
            ("param", "%sprocedure pp(%s: %s; var k: %s); begin %s := %s * 2; k := %s end; var k: %s;" % (ti, n, I, I, n, U, n, I) if n not in ("k",) else "", "pp(21, k); write(k:1)", "42"),
            ("nested", "%sprocedure p1; var %s: %s; procedure p2; begin %s := %s + 1 end; begin %s := 1; p2; p2; write(%s:1) end;" % (ti, n, I, n, n, n, U), "p1", "3"),
            ("forvar", "%svar %s: %s; v: %s;" % (ti, n, I, I), "v := 0; for %s := 1 to 3 do v := v * 10 + %s; write(v:1)" % (n, U), "123"),
        ]
        for kind, decl, body, exp in forms:
            G.predefined += 1
            decl = decl.replace("ti@N", "tint")
            yield Case("predefined %s %s" % (n, kind), body, exp, decl=decl)
            if kind == "forvar": continue
            # used from routines nested in the one that has the declaration, inside with-statements, on both sides of such uses
            wc = "string[1]" if n == "char" else "char"
            wr = "var wr: record wf: %s end;" % wc
            if kind == "field":
                forms2 = [("inner", decl + "\nprocedure uu; begin %s end;" % body, "uu", exp)]
            else:
                forms2 = [("inner", decl + "\nprocedure uu; begin %s end;" % body, "uu", exp),
                          ("inner2", decl + "\nprocedure uu; procedure uv; var ux: %s; begin ux := '!'; %s; write(ux) end; begin uv; uv end;" % (wc, body), "uu; " + body, exp + "!" + exp + "!" + exp),
                          ("with", decl + wr, "with wr do begin wf := '-'; %s; write(wf) end; %s" % (body, body), exp + "-" + exp),
                          ("innerwith", decl + "\nprocedure uu; %s begin with wr do begin wf := '-'; %s; write(wf) end end;" % (wr, body), "uu; " + body, exp + "-" + exp)]
            for where, d2, b2, e2 in forms2:
                G.predefined += 1
                yield Case("predefined %s %s %s" % (n, kind, where), b2, e2, decl=d2)


def program_level():
    """the same at program level; names that other declarations of the batch use come last, one to a program"""
    alone = ["integer", "char", "real", "boolean", "succ", "ord", "main", "true", "false", "p", "new"]
    for kind in ("var", "const", "proc", "func", "type", "enum"):
        for k, n in enumerate([x for x in PNAMES if x not in alone]):
            U = n.upper()
            if len(n) > 40: U = n
            d, b, e = {"var": ("var %s: integer;" % n, "%s := 5; %s := %s + 1; write(%s:1)" % (n, U, n, U), "6"),
                       "const": ("const %s = 'K';" % n, "write(%s)" % U, "K"),
                       "proc": ("procedure %s; begin write('user') end;" % n, "%s" % U, "user"),
                       "func": ("function %s(k: integer): integer; begin %s := k * 3 end;" % (n, n), "write(%s(%s(4)):1)" % (n, U), "36"),
                       "type": ("type %s = %s; var v@N: %s;" % (n, ("record b: integer end", "^integer", "array [1..2] of integer", "(ea@N, eb@N)", "1..9")[k % 5], U),
                                ("v@N.b := 8; write(v@N.b:1)", "new(v@N); v@N^ := 8; write(v@N^:1)", "v@N[1] := 8; write(v@N[1]:1)", "v@N := eb@N; if v@N = eb@N then write(8:1)", "v@N := 8; write(v@N:1)")[k % 5].replace("new(", "new(" if n != "new" else "pnew@N("), "8"),
                       "enum": ("type te@N = (e1@N, %s, e3@N); var v@N: te@N;" % n, "v@N := %s; case v@N of e1@N: write(0:1); %s: write(1:1); e3@N: write(2:1) end" % (U, n), "1")}[kind]
            if "pnew" in b: d, b = "type new = record b: integer end; var v@N: new;", "v@N.b := 8; write(v@N.b:1)"
            G.predefined += 1
            yield Case("predefined at program level %s %s" % (n, kind), b, e, glob=d)


def program_alone():
    for n in ("char", "real", "boolean", "succ", "ord", "main", "true", "false", "p", "new"):
        for kind, d, b, e in (("var", "var %s: integer;" % n, "%s := 5; %s := %s + 1; write(%s:1)" % (n, n, n, n), "6"), ("const", "const %s = 'K';" % n, "write(%s)" % n, "K"), ("type", "type %s = record b: integer end; var v: %s;" % (n, n), "v.b := 8; write(v.b:1)", "8"),
                              ("func", "function %s(k: integer): integer; begin %s := k * 3 end;" % (n, n), "write(%s(%s(4)):1)" % (n, n), "36"), ("enum", "type te = (e1, %s, e3); var v: te;" % n, "v := %s; case v of e1: write(0:1); %s: write(1:1); e3: write(2:1) end" % (n, n), "1")):
            G.predefined += 1
            yield Case("predefined at program level %s %s" % (n, kind), b, e, glob=d, tag="alone")
    for kind, d, b, e in (("var", "var integer: char;", "integer := 'x'; write(integer)", "x"), ("type", "type integer = 0..9; var v: integer;", "v := 8; write(v:1)", "8"), ("type char", "type integer = char; var v: integer;", "v := 'w'; write(v)", "w")):
        G.predefined += 1
        yield Case("predefined at program level integer %s" % kind, b, e, glob=d, tag="alone")


# the same at program level: one program each
HEADER = WDECL + "\nvar fuel: integer;\n"


def others():
    L = [
        ("pointer to a later type of the same name", "type x = record a: integer end; var o: x; procedure q; type pt = ^x; x = record b: char end; var v: pt; begin new(v); v^.b := 'k'; write(v^.b); dispose(v) end;", "o.a := 3; q; write(o.a:1)", "k3"),
        ("function name as local variable of a nested procedure", "function f(n: integer): integer; procedure g; begin f := n * 2 end; procedure h; var f: integer; begin f := 3; write(f:1) end; begin g; h end;", "write(f(4):1)", "38"),
        ("enumerations of the same names", "type c = (red, green); procedure q; type c = (green, blue, red); var v: c; begin v := red; write(v, ord(v):1, ord(green):1) end;", "q; write(ord(red):1, red)", "red200red"),
        ("labels of the same number", "label 1; var n: integer; procedure q; label 1; var k: integer; procedure qq; label 1; var k: integer; begin k := 0; 1: k := k + 1; write('c'); if k < 2 then goto 1 end; begin k := 0; 1: k := k + 1; write('b'); qq; if k < 2 then goto 1 end;", "n := 0; 1: n := n + 1; write('a'); q; if n < 2 then goto 1", "abccbccabccbcc"),
        ("parameters named like types", "type t = integer; procedure q(integer: char; x: t); var t: char; begin t := integer; write(t, x:1) end;", "q('z', 3)", "z3"),
        ("forward parameters", "procedure q(x: integer; y: char); forward; procedure r; var x, y: integer; begin x := 4; y := 5; q(x, 'w') end; procedure q; begin write(x:1, y) end;", "r", "4w"),
        ("constants of constants", "const a = 3; procedure q; const b = a; procedure r; const a = 'z'; c = b; begin write(a, c:1) end; begin r; write(a:1, b:1) end;", "q", "z333"),
        ("record fields hide nothing outside", "type r = record a: integer; r: char end; var v: r; a: char; procedure q; var r: integer; begin r := 4; v.r := 'y'; write(r:1) end;", "a := 'x'; v.a := 2; q; write(a, v.a:1, v.r)", "4x2y"),
        ("long names", "var aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab, aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac: integer;", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab := 1; aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac := 2; write(aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab:1, AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAC:1)", "12"),
    ]
    for k, d, b, e in L:
        G.others += 1
        yield Case("other " + k, b, e, decl=d)


def cases():
    yield from others()
    yield from predefined()
    yield from program_level()
    yield from withs()
    yield from trees()
    yield from chains()


def main():
    import core
    render0 = core.run_cases

    def run(chk, gen, cfgs, **kw):
        n = render0(chk, gen, cfgs, **kw)
        kw["batch"] = 1
        return n + render0(chk, program_alone(), cfgs, **kw)
    core.run_cases = run
    standard("C08", cases, G, HEADER, [("-O0",), ("-O2",)] if THOROUGH else [("-O1",)], "a case is one program text: the kinds of declaration of a name at each level and the with-statement; a tree of procedure names; a list of with designators; distinct by that description")
