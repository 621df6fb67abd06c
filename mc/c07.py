"""C07: parameters, results, nested scopes, recursion and procedural parameters.
N: every static nesting of up to 3 (thorough 4) routines with every choice of up to two calls each to routines in scope
(children, siblings, forward siblings, itself, ancestors), directly or through a procedural parameter, reading and
writing every visible variable, compared with an activation-record interpreter.
M: routines with procedural parameters passing closures of any visible routine on, at every recursion depth.
T: parameter passing and results for each type, mode, kind of actual and kind of routine."""
import itertools
from core import Case, standard, THOROUGH
from ptypes import V, GLOBALS, ZINIT, assign, shows, text


class G:
    nests = activations = passings = 0


HEADER = GLOBALS + ZINIT + """procedure ap(procedure q(n: integer); n: integer); begin q(n) end;
procedure ap2(n: integer; procedure q(n: integer)); var k: integer; begin k := 17; ap(q, n); if k <> 17 then write('!') end;
"""


# ------------------------------------------------------------------ N
class Nest:
    def __init__(self, parents, calls, names, via, kind):
        self.p, self.calls, self.names, self.via, self.kind = parents, calls, names, via, kind
        self.n = len(parents)
        self.depth = []
        for i in range(self.n):
            self.depth.append(0 if parents[i] is None else self.depth[parents[i]] + 1)

    def var(self, i):
        return "v%d" % i if self.names == "uniq" else "vw"[self.depth[i] % 2] if self.names == "alt" else "v"

    def par(self, i):
        return "n%d" % i if self.names == "uniq" else "nm"[self.depth[i] % 2] if self.names == "alt" else "n"

    def chain(self, i):
        while i is not None:
            yield i
            i = self.p[i]

    def visible(self, i):
        """(name, owner, 'v'/'n') seen from routine i, nearest first"""
        seen, out = set(), []
        for a in self.chain(i):
            for nm, k in ((self.var(a), "v"), (self.par(a), "n")):
                if nm not in seen:
                    seen.add(nm)
                    out.append((nm, a, k))
        return out

    def children(self, i):
        return [c for c in range(self.n) if self.p[c] == i]

    def callstmt(self, i, j):
        n = self.par(i)
        if self.kind == "func": return "t := f%d(%s - 1); %s := (%s + t) mod 1009" % (j, n, self.var(i), self.var(i))
        return {"direct": "p%d(%s - 1)", "ap": "ap(p%d, %s - 1)"}[self.via] % (j, n) if self.via != "ap2" else "ap2(%s - 1, p%d)" % (n, j)

    def text(self, i):
        v, n = self.var(i), self.par(i)
        head = "procedure p%d(%s: integer)" % (i, n) if self.kind == "proc" else "function f%d(%s: integer): integer" % (i, n)
        body = ["%s := %s * 10 + %d" % (v, n, i)]
        for nm, a, k in self.visible(i):
            if a != i and k == "v": body.append("%s := (%s * 3 + %d) mod 1009" % (nm, nm, i + 1))
        for j in self.calls[i]:
            body.append("if %s > 0 then begin %s; write(' ', %s:1) end" % (n, self.callstmt(i, j), v))
        body.append("write(' <', '%d'%s, '>')" % (i, "".join(", ' ', %s:1" % nm for nm, a, k in self.visible(i))))
        if self.kind == "func":
            body.append("f%d := %s" % (i, v))
            if self.p[i] is not None: body.append("f%d := %d" % (self.p[i], i + 50))
        return "%s;\nvar %s%s: integer;\n%sbegin %s end;\n" % (head, v, ", t" if self.kind == "func" else "", self.block(self.children(i)), ";\n ".join(body))

    def block(self, kids):
        fwd = [c for c in kids if any(c in self.calls[d] for k in kids if k < c for d in self.subtree(k))]
        out = ""
        for c in fwd:
            out += ("procedure p%d(%s: integer); forward;\n" if self.kind == "proc" else "function f%d(%s: integer): integer; forward;\n") % (c, self.par(c))
        for c in kids: out += self.text(c).replace("(%s: integer)%s" % (self.par(c), ": integer" if self.kind == "func" else ""), "", 1) if c in fwd else self.text(c)
        return out

    def subtree(self, k):
        out = [k]
        for c in self.children(k): out += self.subtree(c)
        return out

    def run(self, n):
        out = []

        def lookup(frame, owner):
            while frame["i"] != owner: frame = frame["link"]
            return frame

        def call(j, n, link):
            G.activations += 1
            f = {"i": j, "n": n, "v": n * 10 + j, "link": link, "r": None}
            for nm, a, k in self.visible(j):
                if a != j and k == "v":
                    g = lookup(f, a)
                    g["v"] = (g["v"] * 3 + j + 1) % 1009
            for t in self.calls[j]:
                if n > 0:
                    l = f if self.p[t] == j else None
                    if l is None and self.p[t] is not None: l = lookup(f, self.p[t])
                    if self.kind == "func":
                        r = call(t, n - 1, l)
                        f["v"] = (f["v"] + r) % 1009
                    else:
                        call(t, n - 1, l)
                    out.append(" %d" % f["v"])
            out.append(" <%d%s>" % (j, "".join(" %d" % lookup(f, a)[k] for nm, a, k in self.visible(j))))
            if self.kind == "func":
                f["r"] = f["v"]
                if self.p[j] is not None: lookup(f, self.p[j])["r"] = j + 50
            return f["r"]
        r = call(0, n, None)
        return "".join(out) + (" =%d" % r if self.kind == "func" else "")

    def targets(self, i):
        t = set(self.children(i)) | {i}
        for a in self.chain(i):
            t |= {s for s in range(self.n) if self.p[s] == self.p[a]} | {a}
        return sorted(t)


def nest_cases(n, maxcalls, names, vias, kinds, depth):
    for parents in itertools.product(*[[None] + list(range(i)) if i else [None] for i in range(n)]):
        base = Nest(parents, [()] * n, "uniq", "direct", "proc")
        opts = []
        for i in range(n):
            t = base.targets(i)
            o = [()]
            for k in range(1, maxcalls + 1): o += list(itertools.product(t, repeat=k))
            opts.append(o)
        for calls in itertools.product(*opts):
            reach, todo = set(), [0]
            while todo:
                x = todo.pop()
                if x in reach: continue
                reach.add(x)
                todo += calls[x]
            if len(reach) < n or sum(map(len, calls)) > n + 1: continue
            for nm in names:
                for via in vias:
                    for kind in kinds:
                        if kind == "func" and via != "direct": continue
                        if kind == "func" and nm == "alt": continue
                        t = Nest(parents, calls, nm, via, kind)
                        exp = t.run(depth)
                        if len(exp) > 12000: continue
                        G.nests += 1
                        key = "N %s %s %s %s %s" % (nm, via, kind, ",".join("-" if p is None else str(p) for p in parents), " ".join("".join(map(str, c)) or "." for c in calls))
                        start = "p0(%d)" % depth if kind == "proc" else "zr := f0(%d); write(' =', zr:1)" % depth
                        yield key, t, start, exp


# ------------------------------------------------------------------ M: closures passed on
class Man:
    """Routines r0..r(n-1): r_i(k; procedure q(m: integer)) with a local worker w_i(m) that changes the variables of its
    activation chain. acts[i]: list of actions: ('q',) call q; ('w', a) call worker of ancestor a; ('c', j, arg) call r_j(k-1, arg)
    where arg is 'q' or a worker's owner."""
    def __init__(self, parents, acts):
        self.p, self.acts, self.n = parents, acts, len(parents)

    def chain(self, i):
        while i is not None:
            yield i
            i = self.p[i]

    def children(self, i): return [c for c in range(self.n) if self.p[c] == i]

    def text(self, i):
        w = "".join("x%d := (x%d * 2 + m + %d) mod 1009; " % (a, a, i) for a in self.chain(i))
        acts = []
        for a in self.acts[i]:
            if a[0] == "q": acts.append("q(k)")
            elif a[0] == "w": acts.append("w%d(k + 3)" % a[1])
            else: acts.append("if k > 0 then r%d(k - 1, %s)" % (a[1], "q" if a[2] == "q" else "w%d" % a[2]))
            acts.append("write(' ', x%d:1)" % i)
        return ("procedure r%d(k: integer; procedure q(m: integer));\nvar x%d: integer;\n procedure w%d(m: integer); begin %swrite(' w%d:', m:1, ':', k:1%s) end;\n%s"
                "begin x%d := k + %d; %s; write(' .', x%d:1) end;\n") % (i, i, i, w, i, "".join(", ':', x%d:1" % a for a in self.chain(i)),
                "".join(self.text(c) for c in self.children(i)), i, i * 100, "; ".join(acts), i)

    def run(self, depth):
        out = []

        def call(i, k, q, link):
            G.activations += 1
            f = {"i": i, "k": k, "x": k + i * 100, "q": q, "link": link}

            def up(a):
                g = f
                while g["i"] != a: g = g["link"]
                return g

            def worker(g):
                def w(m):
                    h = g
                    ch = []
                    while h is not None:
                        h["x"] = (h["x"] * 2 + m + g["i"]) % 1009
                        ch.append(h)
                        h = h["link"]
                    out.append(" w%d:%d:%d%s" % (g["i"], m, g["k"], "".join(":%d" % h["x"] for h in ch)))
                return w
            for a in self.acts[i]:
                if a[0] == "q": q(k)
                elif a[0] == "w": worker(up(a[1]))(k + 3)
                elif k > 0:
                    j = a[1]
                    link2 = f if self.p[j] == i else up(self.p[j]) if self.p[j] is not None else None
                    call(j, k - 1, q if a[2] == "q" else worker(up(a[2])), link2)
                out.append(" %d" % f["x"])
            out.append(" .%d" % f["x"])
        call(0, depth, lambda m: out.append(" nul%d" % m), None)
        return "".join(out)


def man_cases():
    shapes = {1: [(None,)], 2: [(None, 0), (None, None)], 3: [(None, 0, 1), (None, 0, 0)]}
    for n in (1, 2, 3):
        for parents in shapes[n]:
            m0 = Man(parents, [()] * n)
            per = []
            for i in range(n):
                anc = list(m0.chain(i))
                tg = sorted(set(m0.children(i)) | {i} | {s for a in anc for s in range(n) if m0.p[s] == m0.p[a] and s <= a})
                # only routines declared before or enclosing (no forward here)
                tg = [t for t in tg if t in anc or t in m0.children(i) or t < i]
                calls = [("c", j, a) for j in tg for a in ["q"] + anc]
                o = [(("q",), c) for c in calls] + [(c, ("q",)) for c in calls] + [(("q",), ("w", a)) for a in anc]
                if n < 3: o += [(c, ("w", a)) for c in calls for a in anc[:1]] + [(c, d) for c in calls for d in calls]
                per.append(o)
            lim = None if THOROUGH or n < 3 else 1
            for acts in itertools.product(*per):
                reach, todo = set(), [0]
                while todo:
                    x = todo.pop()
                    if x in reach: continue
                    reach.add(x)
                    todo += [a[1] for a in acts[x] if a[0] == "c"]
                if len(reach) < n: continue
                # sibling roots: r1 is called from r0? not visible -> start with the last root
                m = Man(parents, acts)
                yield m


def cases():
    k = 0
    seen = []
    gens = [nest_cases(1, 2, ["uniq"], ["direct", "ap", "ap2"], ["proc", "func"], 3),
            nest_cases(2, 2, ["uniq", "alt", "same"], ["direct", "ap", "ap2"], ["proc", "func"], 3),
            nest_cases(3, 2, ["uniq", "alt"], ["direct", "ap"], ["proc", "func"], 3)]
    if THOROUGH: gens.append(nest_cases(4, 1, ["uniq", "alt"], ["direct", "ap"], ["proc"], 4))
    else: gens.append(nest_cases(4, 1, ["uniq", "alt"], ["direct"], ["proc"], 4))
    keys = set()
    for g in gens:
        for key, t, start, exp in g:
            if key in keys: continue
            keys.add(key)
            yield Case(key, start, exp, decl=("var zr: integer;\n" if t.kind == "func" else "") + t.block([0] + [c for c in range(1, t.n) if t.p[c] is None]))
    for m in man_cases():
        key = "M %s %s" % (",".join("-" if p is None else str(p) for p in m.p), " | ".join(" ".join("".join(map(str, a)) for a in l) for l in m.acts))
        exp = m.run(3 if m.n < 3 else 4)
        if len(exp) > 12000: continue
        G.passings += 1
        roots = [c for c in range(m.n) if m.p[c] is None]
        yield Case(key, "r0(%d, nul)" % (3 if m.n < 3 else 4), exp, decl="procedure nul(m: integer); begin write(' nul', m:1) end;\n" + "".join(m.text(c) for c in reversed(roots)))
    yield from type_cases()


ACT = ["local", "global", "elem", "field", "deref", "outer", "valparam", "varparam", "self"]
ROUT = ["glob", "local", "nested", "forward", "procpar", "func", "last"]


def type_cases():
    for t in V:
        ty, vals = V[t]
        A, B, C = vals
        tx = lambda v: text(t, v)
        # value and var parameters
        for mode in ("val", "var", "protected"):
            for act in ACT:
                for r in ROUT:
                    if r == "procpar" and (act != "local" or mode == "protected"): continue
                    glob = decl = ""
                    x = {"local": "x", "global": "gx@N", "elem": "ax[k]", "field": "rx.f", "deref": "px^", "outer": "x", "valparam": "y", "varparam": "y", "self": "x"}[act]
                    if act == "global": glob += "var gx@N: %s;\n" % ty
                    decl += {"local": "var x: %s;", "elem": "var ax: array [1..3] of %s; k: integer;", "field": "var rx: record a: char; f: %s; b: integer end;",
                             "deref": "type pt = ^%s; var px: pt;", "outer": "var x: %s;", "valparam": "var x: %s;", "varparam": "var x: %s;", "self": "var x: %s;", "global": ""}[act].replace("%s", ty)
                    decl += " var zi, zs, g1, g2: integer;\n"
                    par = {"val": "x1: %s", "var": "var x1: %s", "protected": "protected x1: %s"}[mode] % ty
                    seen = x if act in ("local", "elem", "field", "deref", "outer", "self") and r != "glob" else "gx@N" if act == "global" else None
                    body = [shows(t, "x1")]
                    exp = tx(A)
                    if mode == "val":
                        body += [assign(t, "x1", B), shows(t, "x1")]
                        exp += tx(B)
                        if seen: body += [shows(t, seen), assign(t, seen, C), shows(t, "x1")]; exp += tx(A) + tx(B)
                        after = C if seen else A
                    elif mode == "var":
                        body += [assign(t, "x1", B), shows(t, "x1")]
                        exp += tx(B)
                        if seen: body += [shows(t, seen), assign(t, seen, C), shows(t, "x1")]; exp += tx(B) + tx(C)
                        after = C if seen else B
                    else:
                        if seen: body += [shows(t, seen)]; exp += tx(A)
                        after = A
                    body += ["g2 := g2 + g0"]
                    rbody = "begin %s end;\n" % ";\n  ".join(body)
                    loc = "var zi, zs: integer;\n"
                    if r == "glob":
                        glob += "procedure c@N(%s; g0: integer; var g2: integer);\n%s%s" % (par, loc, rbody)
                        call = "c@N(%s, 5, g2)"
                    elif r == "local":
                        decl += "procedure c(g0: integer; %s);\n%s%s" % (par, loc, rbody)
                        call = "c(5, %s)"
                    elif r == "nested":
                        decl += "procedure c(%s; g0: integer);\nprocedure d(h: char);\n%s%sbegin if g0 = 5 then d('h') end;\n" % (par, loc, rbody)
                        call = "c(%s, 5)"
                    elif r == "forward":
                        decl += "procedure c(%s; g0: integer); forward;\nprocedure d; begin if g1 = 123 then write('') end;\nprocedure c;\n%s%s" % (par, loc, rbody)
                        call = "c(%s, 5)"
                    elif r == "procpar":
                        decl += "procedure c(%s; g0: integer);\n%s%sprocedure h(procedure pp(%s; g0: integer)); begin pp(%s, 5) end;\n" % (par, loc, rbody, par, x)
                        call = "h(c)"
                    elif r == "func":
                        decl += "function c(g0: integer; %s): integer;\n%s%s" % (par, loc, rbody.replace("begin ", "begin c := 44; ", 1))
                        call = "g1 := c(5, %s) + 79"
                    else:  # recursive, and the parameter comes last after parameters of other kinds
                        decl += "procedure c(g0: integer; l: longint; r: real; ch: char; s: tstr; %s);\n%sbegin if g0 < 5 then c(g0 + 1, l, r, ch, s, x1) else %s" % (par, loc, rbody)
                        decl = decl[:-2] + " end;\n"
                        decl = decl.rstrip() + "\n"
                        call = "c(4, 1, 2.5, 'c', 'str', %s)"
                    main = []
                    pre = {"elem": "k := 2; ", "deref": "new(px); "}.get(act, "")
                    if act == "elem": main += ["k := 1", assign(t, x, B), "k := 3", assign(t, x, C), "k := 2"]
                    if act == "field": main += ["rx.a := 'L'; rx.b := 4711"]
                    if act == "deref": main += ["new(px)"]
                    main += ["g1 := 123; g2 := 456"]
                    cc = call % x if "%s" in call else call
                    if act in ("valparam", "varparam"):
                        decl += "procedure via(%sy: %s);\n%sbegin %s; %s end;\n" % ("var " if act == "varparam" else "", ty, loc, cc, shows(t, "y"))
                        main += [assign(t, "x", A), "via(x)", shows(t, "x")]
                        exp += tx(after) + tx(after if act == "varparam" else A)
                    elif act == "outer":
                        decl += "procedure via(q: integer);\n%sbegin %s; %s end;\n" % (loc, cc, shows(t, "x"))
                        main += [assign(t, "x", A), "via(1)", shows(t, "x")]
                        exp += tx(after) + tx(after)
                    elif act == "self":  # passed twice
                        main += [assign(t, "x", A), cc, assign(t, "x", A), cc, shows(t, "x")]
                        exp = exp + exp + tx(after)
                    else:
                        main += [assign(t, x, A), cc, shows(t, x)]
                        exp += tx(after)
                    if act == "elem":
                        main += ["k := 1", shows(t, x), "k := 3", shows(t, x)]
                        exp += tx(B) + tx(C)
                    if act == "field":
                        main += ["write(rx.a, rx.b:1)"]
                        exp += "L4711"
                    main += ["write(' ', g1:1, ' ', g2:1)"]
                    exp += " %d %d" % (123, 456 + (5 if True else 0) * (2 if act == "self" else 1))
                    G.passings += 1
                    yield Case("T %s %s %s %s" % (t, mode, act, r), "zinit; " + ";\n ".join(main), exp, decl=decl, glob=glob)
        # results
        for r in ("plain", "named", "twice", "ifelse", "nested", "recursive", "arg", "fwd"):
            if r == "named": head, res = "function f(k: integer) = rs: %s" % ty, "rs"
            else: head, res = "function f(k: integer): %s" % ty, "f"
            give = lambda v: "%s; %s := y" % (assign(t, "y", v), res)
            loc = "var zi, zs: integer; y: %s;\n" % ty
            use, exp = "x := f(1); %s; x2 := f(2); %s; %s" % (shows(t, "x"), shows(t, "x"), shows(t, "x2")), tx(A) + tx(A) + tx(B)
            extra = ""
            if r in ("plain", "named"): fb = "if k = 1 then begin %s end else begin %s end" % (give(A), give(B))
            elif r == "twice": fb = "%s; %s; if k = 1 then begin %s end" % (give(C), give(B), give(A))
            elif r == "ifelse": fb = "case k of 1: begin %s end; 2: begin %s end; otherwise begin %s end end" % (give(A), give(B), give(C))
            elif r == "nested":
                extra = "procedure inner; begin if k = 1 then begin %s end else begin %s end end;\n" % (give(A), give(B))
                fb = "inner"
            elif r == "recursive": fb = "if k > 10 then begin if k mod 2 = 1 then begin %s end else begin %s end end else %s := f(k + 4)" % (give(A), give(B), res)
            elif r == "arg": fb = "if k = 1 then begin %s end else begin %s end" % (give(A), give(B))
            elif r == "fwd": fb = "if k = 1 then begin %s end else begin %s end" % (give(A), give(B))
            decl = "var x, x2: %s; zi, zs: integer;\n" % ty
            if r == "fwd": decl += head + "; forward;\nfunction g(k: integer): %s; begin g := f(k) end;\nfunction f;\n" % ty
            else: decl += head + ";\n"
            decl += loc + extra + "begin %s end;\n" % fb
            if r == "arg":
                decl += "procedure sh(v: %s); var zi, zs: integer; begin %s end;\n" % (ty, shows(t, "v"))
                use, exp = "sh(f(1)); sh(f(2)); sh(f(1))", tx(A) + tx(B) + tx(A)
            if r == "fwd": use = use.replace("f(2)", "g(2)")
            G.passings += 1
            yield Case("R %s %s" % (t, r), "zinit; " + use, exp, decl=decl)


def main():
    standard("C07", cases, G, HEADER, [("-O0",), ("-O2",)],
             "a case is one nest of routines with its calls, or one combination of type, mode, actual and routine kind; distinct by that",
             more=(("-O1",), ("-O3",), ("-m32", "-O1"), ("-O1", "-g")), batch=40)
