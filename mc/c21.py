"""C21: objects.

H: every hierarchy of 3 (thorough: also 4) classes, chain or fork, with every legal way of declaring (plain, virtual, override, not at
all) two methods at each level, and every layout of fields (sizes, none at a level, static, shadowing), with objects of each
class in every place a variable can be, called directly, through parameters and pointers of each ancestor type, and out of another method; each method
reads every field it sees and changes its own. An interpreter of the class table predicts the results and all fields afterwards.
S: every sequence of assignments between objects and pointers of the classes and calls, to the stated depth.
"""
import itertools, os
from core import *

LAYOUTS = {
    "ints": lambda i: [("f%d" % i, "int", False)],
    "mixed": lambda i: [("b%d" % i, ("char", "real", "bool", "char")[i - 1], False), ("f%d" % i, "int", False)],
    "static first": lambda i: [("s%d" % i, "int", True), ("f%d" % i, "int", False)],
    "static last": lambda i: [("f%d" % i, "int", False), ("s%d" % i, "int", True), ("g%d" % i, "char", False)],
    "none at 2": lambda i: [] if i == 2 else [("f%d" % i, "int", False), ("h%d" % i, "long", False)],
    "none at 1": lambda i: [] if i == 1 else [("f%d" % i, "int", False)],
    "shadow": lambda i: [("f", "int", False), ("f%d" % i, "int", False)],
    "static shadow": lambda i: [("s", "int", True), ("f%d" % i, "int", False)],
    "arrays": lambda i: [("a%d" % i, "arr", False), ("f%d" % i, "int", False)],
}
TY = {"int": "integer", "char": "char", "real": "real", "bool": "boolean", "long": "longint", "arr": "array [1..3] of integer"}


def kinds(parent):
    """Every way of declaring one method in the hierarchy."""
    n = len(parent)
    out = []

    def go(i, ks):
        if i > n:
            if any(k != "-" for k in ks): out.append("".join(ks))
            return
        p = parent[i - 1]; seen = None
        while p:
            if ks[p - 1] != "-": seen = ks[p - 1]; break
            p = parent[p - 1]
        for k in "-" + ("pv" if seen in (None, "p") else "o"):
            if k == "p" and seen == "p" and n > 3: continue
            go(i + 1, ks + [k])
    go(1, [])
    return out


class World:
    """The class table, and objects as dictionaries from (level, field) to value."""
    def __init__(self, parent, meths, layout):
        self.parent, self.meths, self.lay = parent, meths, LAYOUTS[layout]
        self.statics = {}

    def chain(self, c):
        while c:
            yield c
            c = self.parent[c - 1]

    def lookup(self, m, c):
        for i in self.chain(c):
            if self.meths[m][i - 1] != "-": return i
        return 0

    def visible(self, c):
        seen = {}
        for i in self.chain(c):
            for nm, ty, st in self.lay(i):
                if nm not in seen: seen[nm] = (i, ty, st)
        return seen

    def all(self, c):
        return [(i, nm, ty) for i in self.chain(c) for nm, ty, st in self.lay(i) if not st]

    def init(self, c, u):
        return {"cls": c, **{(i, nm): initial(ty, u, i) for i, nm, ty in self.all(c)}}

    def get(self, o, i, nm, st):
        return self.statics[(i, nm)] if st else o[(i, nm)]

    def put(self, o, i, nm, st, v):
        if st: self.statics[(i, nm)] = v
        else: o[(i, nm)] = v

    def call(self, m, static, o):
        d = self.lookup(m, static)
        if self.meths[m][d - 1] in "vo": d = self.lookup(m, o["cls"])
        return self.body(m, d, o)

    def body(self, m, d, o):
        t = d * 1000 + (500 if m == 1 else 0)
        vis = self.visible(d)
        for nm in sorted(vis):
            i, ty, st = vis[nm]
            t += num(ty, self.get(o, i, nm, st))
        for nm in sorted(vis):
            i, ty, st = vis[nm]
            if ty == "int": self.put(o, i, nm, st, self.get(o, i, nm, st) + d)
        return t

    def slice(self, o, c):
        return {"cls": c, **{(i, nm): o[(i, nm)] for i, nm, ty in self.all(c)}}


def initial(ty, u, i):
    return {"int": 10 * u + i, "char": chr(65 + u % 20 + i), "real": u + 0.5, "bool": (u + i) % 2 == 1, "long": 5000000000 + u, "arr": u + 3}[ty]


def lit(ty, v):
    if ty == "char": return "'%s'" % v
    if ty == "bool": return str(v).lower()
    return "%.1f" % v if ty == "real" else str(v)


def num(ty, v):
    return {"char": lambda: ord(v), "real": lambda: int(v), "bool": lambda: int(v), "long": lambda: v - 5000000000}.get(ty, lambda: v)()


def numx(ty, e):
    return {"char": "ord(%s)", "real": "trunc(%s)", "bool": "ord(%s)", "long": "trunc(1.0 * (%s - 5000000000))", "arr": "%s[2]"}.get(ty, "%s") % e


def show(ty, v):
    return {"bool": lambda: str(num(ty, v)), "real": lambda: str(int(v)), "char": lambda: str(ord(v))}.get(ty, lambda: str(num(ty, v)))()


PLACES = ("g", "l", "h", "a", "r")


def classes(w, uniq, words=("object", "virtual")):
    """The type section and the methods."""
    n = len(w.parent); out = ["type\n"]
    for i in range(1, n + 1):
        p = w.parent[i - 1]
        out.append("c%d%s = %s%s\n" % (i, uniq, words[0], "(c%d%s)" % (p, uniq) if p else ""))
        for nm, ty, st in w.lay(i): out.append("  %s: %s;%s\n" % (nm, TY[ty], " static;" if st else ""))
        for m, nm in ((0, "ma"), (1, "mb")):
            k = w.meths[m][i - 1]
            if k == "-": continue
            head = "function ma: integer" if m == 0 else "procedure mb(x: integer; var r: integer)"
            out.append("  %s;%s\n" % (head, {"p": "", "v": " virtual;", "o": " override;"}[k]))
            first = not any(w.meths[m][j - 1] != "-" for j in w.chain(p))
            if first: out.append("  function n%d: integer;\n" % m)
        out.append("end;\np%d%s = ^c%d%s;\nr%d%s = record pre: integer; o: c%d%s; post: integer end;\nt%d%s = array [1..3] of c%d%s;\n" % ((i, uniq) * 6))
    for i in range(1, n + 1):
        vis = w.visible(i)
        for m in (0, 1):
            if w.meths[m][i - 1] == "-": continue
            res = "ma" if m == 0 else "r"
            expr = "%d" % (i * 1000 + 500 * m) + "".join(" + " + numx(vis[nm][1], nm) for nm in sorted(vis)) + (" + x" if m else "")
            upd = "".join(" %s := %s + %d;" % (nm, ("self." if k % 2 and not vis[nm][2] else "") + nm, i) for k, nm in enumerate(sorted(vis)) if vis[nm][1] == "int")
            head = "function c%d%s.ma: integer" % (i, uniq) if m == 0 else "procedure c%d%s.mb(x: integer; var r: integer)" % (i, uniq)
            out.append("%s;\nbegin %s := %s;%s end;\n" % (head, res, expr, upd))
            if not any(w.meths[m][j - 1] != "-" for j in w.chain(w.parent[i - 1])):
                if m == 0: out.append("function c%d%s.n0: integer;\nvar k: integer;\nbegin k := ma; n0 := k * 10000 + self.ma end;\n" % (i, uniq))
                else: out.append("function c%d%s.n1: integer;\nvar k, j: integer;\nbegin mb(1, k); self.mb(2, j); n1 := k * 10000 + j end;\n" % (i, uniq))
    return "".join(out)


def ncall(w, m, static, o):
    """n is a plain method of the class that first declares m."""
    f = w.lookup(m, static)
    top = [i for i in w.chain(static) if w.meths[m][i - 1] != "-"][-1]
    a = w.call(m, top, o) + (1 if m else 0)
    b = w.call(m, top, o) + (2 if m else 0)
    return a * 10000 + b


def uses(w, c, d, o):
    """Calls on designator d of static type c; returns code and prediction."""
    code, exp = [], []
    for m in (0, 1):
        if not w.lookup(m, c): continue
        if m == 0: code.append("write(%s.ma, ' ');" % d); exp.append("%d " % w.call(0, c, o))
        else: code.append("%s.mb(7, k); write(k, ' ');" % d); exp.append("%d " % (w.call(1, c, o) + 7))
        code.append("write(%s.n%d, ' ');" % (d, m)); exp.append("%d " % ncall(w, m, c, o))
    return " ".join(code), "".join(exp)


def hierarchy(parent, m0, m1, layout, word):
    w = World(parent, (m0, m1), layout); n = len(parent)
    glob = [classes(w, "x@N", (word, ""))]
    glob.append("var " + " ".join("gg%dx@N: c%dx@N;" % (c, c) for c in range(1, n + 1)) + "\n")
    # one routine for each way of passing, and each static type
    for c in range(1, n + 1):
        body, _ = uses_text(w, c, "o")
        for nm, prm in (("v", "var o: c%dx@N"), ("w", "o: c%dx@N"), ("q", "q: p%dx@N")):
            glob.append("procedure %s%dx@N(%s);\nvar k: integer;\nbegin %s end;\n" % (nm, c, prm % c, body.replace("o.", "q^.") if nm == "q" else body))
        glob.append("function f%dx@N(var o: c%dx@N): c%dx@N;\nbegin f%dx@N := o end;\n" % (c, c, c, c))
    code, exp, decl = [], [], ["var k: integer;"]
    for i in range(1, n + 1):
        for nm, ty, st in w.lay(i):
            if st:
                w.statics[(i, nm)] = i * 3
                code.append("c%dx@N.%s := %d;" % (i, nm, i * 3))
    objs = []
    for c in range(1, n + 1):
        decl.append("ll%d: c%dx@N; hh%d: p%dx@N; aa%d: t%dx@N; rr%d: r%dx@N; tt%d: c%dx@N;" % ((c,) * 10))
        code.append("new(hh%d);" % c)
        for k, d in enumerate(("gg%dx@N" % c, "ll%d" % c, "hh%d^" % c, "aa%d[2]" % c, "aa%d[3]" % c, "rr%d.o" % c)):
            objs.append((c, d, w.init(c, 7 * c + k)))
    for c, d, o in objs:
        for i, nm, ty in w.all(c):
            if w.visible(c)[nm][0] != i: continue
            if ty == "arr": code.append("%s.%s[1] := 0; %s.%s[2] := %d; %s.%s[3] := 0;" % (d, nm, d, nm, o[(i, nm)], d, nm))
            else: code.append("%s.%s := %s;" % (d, nm, lit(ty, o[(i, nm)])))
    # fields that are shadowed in the object's own type are set through its ancestors
    for c, d, o in objs:
        for i, nm, ty in w.all(c):
            if w.visible(c)[nm][0] != i:
                glob.append("procedure z%s_%dx@N(var o: c%dx@N);\nbegin o.%s := %s end;\n" % (d.replace("[", "").replace("]", "").replace("^", "").replace(".", "").replace("x@N", ""), i, i, nm, lit(ty, o[(i, nm)])))
                code.append("z%s_%dx@N(%s);" % (d.replace("[", "").replace("]", "").replace("^", "").replace(".", "").replace("x@N", ""), i, d))
    for c, d, o in objs:
        t, e = uses(w, c, d, o)
        code.append(t); exp.append(e)
        for j in w.chain(c):
            if not (w.lookup(0, j) or w.lookup(1, j)): continue
            code.append("v%dx@N(%s);" % (j, d)); exp.append(uses(w, j, d, o)[1])
            code.append("w%dx@N(%s);" % (j, d)); exp.append(uses(w, j, d, w.slice(o, j))[1])
            if d[0] == "h":
                code.append("q%dx@N(hh%d);" % (j, c)); exp.append(uses(w, j, d, o)[1])
        code.append("tt%d := f%dx@N(%s);" % (c, c, d))
        t, e = uses(w, c, "tt%d" % c, w.slice(o, c)); code.append(t); exp.append(e)
        code.append("writeln;"); exp.append("\n")
    for c, d, o in objs:
        for i, nm, ty in w.all(c):
            if w.visible(c)[nm][0] != i: continue
            code.append("write(%s, ' ');" % numx(ty, "%s.%s" % (d, nm))); exp.append(show(ty, o[(i, nm)]) + " ")
    for (i, nm), v in w.statics.items():
        code.append("write(c%dx@N.%s, ' ');" % (i, nm)); exp.append("%d " % v)
    key = "H %s %s %s %s %s" % ("".join(map(str, parent)), m0, m1, layout, word)
    return Case(key, "\n".join(code), "".join(exp), decl="\n".join(decl), glob="".join(glob))


def uses_text(w, c, d):
    """The same code without a prediction."""
    code = []
    for m in (0, 1):
        if not w.lookup(m, c): continue
        code.append("write(%s.ma, ' ');" % d if m == 0 else "%s.mb(7, k); write(k, ' ');" % d)
        code.append("write(%s.n%d, ' ');" % (d, m))
    return " ".join(code), None


# ---------------------------------------------------------------- sequences
def seq_program(parent, m0, layout):
    """A driver: the tape holds assignments and calls on two objects of each class and pointers of each class."""
    w = World(parent, (m0, "-" * len(parent)), layout); n = len(parent)
    out = ["program p(input, output);\n", classes(w, "x"), "var ch, ca, cb: char; k: integer;\n"]
    ops = []
    for c in range(1, n + 1): out.append("x%d, y%d: c%dx; p%d, h%d: p%dx;\n" % ((c,) * 6))
    for c in range(1, n + 1): out.append("procedure as%d(var a: c%dx; b: c%dx);\nbegin a := b end;\nprocedure av%d(var a, b: c%dx);\nbegin a := b end;\n" % ((c,) * 5))
    # actions: letter, letter
    acts = []
    def under(c): return list(w.chain(c))
    for c in range(1, n + 1):
        for d in range(1, n + 1):
            if c in under(d):
                acts.append(("x%d := y%d" % (c, d), ("xy", c, d)))
                acts.append(("p%d := h%d" % (c, d), ("ph", c, d)))
                if c != d: acts.append(("as%d(x%d, y%d)" % (c, d, d), ("as", c, d)))
        acts.append(("p%d^ := x%d" % (c, c), ("px", c, c)))
        acts.append(("av%d(p%d^, y%d)" % (c, c, c), ("av", c, c)))
        acts.append(("y%d := p%d^" % (c, c), ("yp", c, c)))
        if w.lookup(0, c):
            acts.append(("write(p%d^.ma, ' ')" % c, ("cp", c, c)))
            acts.append(("write(x%d.n0, ' ')" % c, ("cx", c, c)))
    init = []
    for c in range(1, n + 1):
        for j, o in enumerate(("x%d", "y%d", "h%d^")):
            for i, nm, ty in w.all(c):
                init.append("%s.%s := %s;" % (o % c, nm, lit(ty, initial(ty, 5 * c + j, i))))
        init.append("p%d := h%d;" % (c, c))
    fin = []
    for c in range(1, n + 1):
        if w.lookup(0, c): fin.append("write(x%d.ma, ' ', y%d.ma, ' ', p%d^.ma, ' ', h%d^.ma, ' ');" % (c, c, c, c))
        for o in ("x%d", "y%d", "h%d^"):
            for i, nm, ty in w.all(c): fin.append("write(%s, ' ');" % numx(ty, (o % c) + "." + nm))
    out.append("procedure init;\nbegin\n%s\nend;\nprocedure fin;\nbegin\n%s\nend;\n" % ("\n".join(init), "\n".join(fin)))
    out.append("begin\n" + "".join("new(h%d);\n" % c for c in range(1, n + 1)))
    out.append("while not eof do begin\ninit;\nwhile not eoln do begin read(ch);\ncase ch of\n")
    for k, (t, _) in enumerate(acts): out.append("'%s': %s;\n" % (chr(48 + k) if k < 10 else chr(87 + k) if k < 36 else chr(29 + k), t))
    out.append("end end;\nreadln; fin; writeln\nend\nend.\n")
    names = [chr(48 + k) if k < 10 else chr(87 + k) if k < 36 else chr(29 + k) for k in range(len(acts))]

    def predict(seq):
        w.statics = {}
        ob = {}
        for c in range(1, n + 1):
            for j, o in enumerate("xyh"): ob[o, c] = w.init(c, 5 * c + j)
            ob["p", c] = ob["h", c]
        res = []

        def assign(a, b, c):
            for i, nm, ty in w.all(c): a[(i, nm)] = b[(i, nm)]
        for k in seq:
            op, c, d = acts[k][1]
            if op == "xy": assign(ob["x", c], ob["y", d], c)
            elif op == "ph": ob["p", c] = ob["h", d]
            elif op == "as": assign(ob["x", d], ob["y", d], c)
            elif op == "px": assign(ob["p", c], ob["x", c], c)
            elif op == "av": assign(ob["p", c], ob["y", c], c)
            elif op == "yp": assign(ob["y", c], ob["p", c], c)
            elif op == "cp": res.append("%d " % w.call(0, c, ob["p", c]))
            elif op == "cx": res.append("%d " % ncall(w, 0, c, ob["x", c]))
        for c in range(1, n + 1):
            if w.lookup(0, c):
                for o in "xyph": res.append("%d " % w.call(0, c, ob[o, c]))
            for o in "xyh":
                for i, nm, ty in w.all(c): res.append(show(ty, ob[o, c][(i, nm)]) + " ")
        return "".join(res)
    return "".join(out), names, acts, predict


def shapes():
    yield (0, 1, 2)
    yield (0, 1, 1)
    if THOROUGH:
        yield (0, 1, 2, 3)
        yield (0, 1, 2, 1)


def cases():
    lay = list(LAYOUTS)
    n = 0
    for parent in shapes():
        ks = kinds(parent)
        none = "-" * len(parent)
        for a in ks:
            for b in ks + [none]:
                n += 1
                if len(parent) == 4 and n % 5: continue
                yield hierarchy(parent, a, b, lay[n % len(lay)], ("object", "class")[n // 9 % 2])
        for a in ks:
            for l in lay:
                yield hierarchy(parent, a, none, l + "", "object") if (True) else None


def main():
    chk = Check("C21", "exploration")
    chk.assumptions = ["methods and types at program level; a method declared plain after a virtual one, and virtual again after virtual, are not explored (dialects differ); "
                       "`with` on objects is not implemented by the compiler", "an assignment to an object copies the fields of the static type and leaves the object's class as it was"]
    pick = os.environ.get("MC_CASE")
    cfg = [("-O0",), ("-O2",)] if not THOROUGH else [("-O0",), ("-O1",), ("-O2",), ("-O3",), ("-O1", "-m32"), ("-O0", "-g"), ("-O1", "-no-memcpy")]
    seen = set()

    def gen():
        for c in cases():
            if c.key in seen or (pick and pick not in c.key): continue
            seen.add(c.key)
            if len(seen) in (1, 100, 300): chk.samples.append({"case": c.key, "predicted": c.expect[:200]})
            yield c
    n = run_cases(chk, gen(), cfg, batch=6, cpu=20)
    # sequences
    depth = 2
    jobs, total = [], 0
    for parent in shapes():
        ks = [k for k in kinds(parent) if k[0] in "vp-" and ("v" in k)]
        for j, a in enumerate(ks):
            lays = [l for l in ("ints", "mixed", "none at 2", "none at 1", "arrays") if l != "arrays"]
            for l in (lays if THOROUGH else [lays[j % len(lays)]]):
                jobs.append((parent, a, l))
    cf = [("-O0",), ("-O2",)]

    def gen_jobs():
        for parent, a, l in jobs:
            src, names, acts, predict = seq_program(parent, a, l)
            d = depth + (1 if len(acts) < 18 or THOROUGH and len(parent) == 3 else 0)
            tapes = [("".join(names[k] for k in q), predict(q)) for r in range(d + 1) for q in itertools.product(range(len(acts)), repeat=r)]
            for c in cf:
                yield "S %s %s %s [%s]" % ("".join(map(str, parent)), a, l, "; ".join("%s %s" % (x, t[0]) for x, t in zip(names, acts))), src, c, tapes
    if not pick:
        total = run_tapes(chk, gen_jobs())
    chk.finish(distinct_nontrivial=len(seen) + total // len(cf), evaluations=n + total, sequences=total, drivers=len(jobs) * len(cf), exhaustive=True,
               rule="a case is one hierarchy (parents, declarations of two methods at each level, layout of fields) with all its objects, places and calls; or one sequence of assignments and calls on one hierarchy",
               configs=[" ".join(c) for c in cfg], bounds="hierarchies of 3 classes (thorough: 4), 2 methods, 9 layouts; sequences of %d-%d operations" % (depth, depth + 1))


if __name__ == "__main__":
    main()
