"""C04: structured statements execute exactly the statements their control flow selects.
Enumerates statement trees over if/else, while, repeat, for (to, downto, in), case, with, goto (forward, backward, out of
loops), compound and empty statements. Every condition is a function that records that it was evaluated and takes its
answer from a tape; every tape is run and the recorded trace compared with an interpreter of the tree."""
import itertools
from core import Case, standard, THOROUGH

TAPE = 6 if THOROUGH else 4


class G:
    trees = traces = 0


HEADER = """var tape, pos, x: integer; r1, r2: record x: integer; y: integer end;
procedure t(k: char); begin write(k) end;
function c(k: char; dflt: boolean): boolean;
begin write(k); if pos >= %d then c := dflt else begin c := odd(tape shr pos); pos := pos + 1 end end;
function n(k: char): integer;
begin write(k); if pos >= %d then n := 2 else begin n := (tape shr pos) and 3; pos := pos + 2 end end;
""" % (TAPE, TAPE)


class Goto(Exception):
    def __init__(self, l): self.l = l


class Run:
    def __init__(self, tape):
        self.tape, self.pos, self.out = tape, 0, []

    def c(self, k, d):
        self.out.append(k)
        if self.pos >= TAPE: return d
        b = self.tape >> self.pos & 1
        self.pos += 1
        return bool(b)

    def n(self, k):
        self.out.append(k)
        if self.pos >= TAPE: return 2
        b = self.tape >> self.pos & 3
        self.pos += 2
        return b


class B:
    """Builder state while a tree is rendered: letters, labels, loop variables."""
    def __init__(self):
        self.k, self.labels, self.lab, self.depth, self.maxd, self.x = 0, [9], [9], 0, 0, "0"
        self.next = 10

    def letter(self, up):
        self.k += 1
        return chr((65 if up else 97) + (self.k - 1) % 26)


# a tree is a tuple (kind, children...); build(tree) -> (pascal text, interpreter function(run))
def cond(b, form, dflt):
    """A condition: form is c, or a tree over not/and/or (and_then, or_else), = (comparison with true) and > (of n)."""
    if form == "c":
        k = b.letter(1)
        return "c('%s', %s)" % (k, "true" if dflt else "false"), lambda r: r.c(k, dflt)
    if form == "n":
        k = b.letter(1)
        return "(n('%s') %s 1)" % (k, ">" if dflt else "<"), (lambda r: r.n(k) > 1) if dflt else (lambda r: r.n(k) < 1)
    if form[0] == "not":
        t, f = cond(b, form[1], not dflt)
        return "not %s" % t if form[1] == "c" else "not (%s)" % t, lambda r: not f(r)
    lt, lf = cond(b, form[1], dflt)
    rt, rf = cond(b, form[2], dflt)
    par = lambda t, x: t if x in ("c", "n") else "(%s)" % t
    if form[0] == "and":
        return "%s and_then %s" % (par(lt, form[1]), par(rt, form[2])), lambda r: lf(r) and rf(r)
    return "%s or_else %s" % (par(lt, form[1]), par(rt, form[2])), lambda r: lf(r) or rf(r)


F0 = ["c", "n"]
F1 = [("not", a) for a in F0] + [(o, a, b) for o in ("and", "or") for a in F0 for b in F0]
F2 = [("not", a) for a in F1] + [(o, x, y) for o in ("and", "or") for a in F1 for x, y in ((a, "c"), ("c", a))]
F2 += [(o, a, b) for o in ("and", "or") for a in F1 for b in F1]


def build(tr, b):
    k = tr[0]
    if k == "S":
        l = b.letter(0)
        return "t('%s')" % l, lambda r: r.out.append(l)
    if k == "X":
        v = b.x
        return "write(x:1)", lambda r: r.out.append(v)
    if k == "E":
        return "", lambda r: None
    if k == "GC":
        lab = b.lab[-1]
        ct, cf = cond(b, "c", False)
        def f(r):
            if cf(r): raise Goto(lab)
        return "if %s then goto %d" % (ct, lab), f
    if k == "GU":
        def f(r): raise Goto(9)
        return "goto 9", f
    if k in ("if", "while", "repeat", "ifelse"):
        form = tr[1]
        if k == "if":
            ct, cf = cond(b, form, False)
            at, af = build(tr[2], b)
            def f(r):
                if cf(r): af(r)
            return "if %s then %s" % (ct, at), f
        if k == "ifelse":
            ct, cf = cond(b, form, False)
            at, af = build(tr[2], b)
            if tr[2][0] in ("if", "GC", "ifelse", "while", "for", "fordown", "forin", "with"): at = "begin %s end" % at  # dangling else
            bt, bf = build(tr[3], b)
            def f(r):
                if cf(r): af(r)
                else: bf(r)
            return "if %s then %s else %s" % (ct, at, bt), f
        if k == "while":
            ct, cf = cond(b, form, False)
            at, af = build(tr[2], b)
            def f(r):
                while cf(r): af(r)
            return "while %s do %s" % (ct, at), f
        at, af = build(tr[2], b)
        ct, cf = cond(b, form, True)
        def f(r):
            while True:
                af(r)
                if cf(r): return
        return "repeat %s until %s" % (at, ct), f
    if k in ("for", "fordown", "forin"):
        b.depth += 1
        b.maxd = max(b.maxd, b.depth)
        v = "i%d" % b.depth
        at, af = build(tr[1], b)
        b.depth -= 1
        vals = {"for": [1, 2], "fordown": [3, 2], "forin": [1, 5]}[k]
        def f(r):
            for q in vals:
                r.out.append(str(q))
                af(r)
        head = {"for": "for %s := 1 to 2", "fordown": "for %s := 3 downto 2", "forin": "for %s in [5, 1]"}[k] % v
        return "%s do begin write(%s:1); %s end" % (head, v, at), f
    if k == "with":
        old = b.x
        b.x = {"0": "1", "1": "2", "2": "1"}[old]
        rec = "r" + b.x
        at, af = build(tr[1], b)
        b.x = old
        return "with %s do %s" % (rec, at), af
    if k == "case":
        s = b.letter(1)
        at, af = build(tr[1], b)
        bt, bf = build(tr[2], b)
        o = b.letter(0)
        def f(r):
            v = r.n(s)
            if v == 0: af(r)
            elif v == 1: bf(r)
            else: r.out.append(o)
        return "case n('%s') of 0: %s; 1: %s; otherwise t('%s') end" % (s, at, bt, o), f
    if k == "case2":  # no otherwise
        s = b.letter(1)
        at, af = build(tr[1], b)
        def f(r):
            v = r.n(s)
            if 1 <= v <= 2: af(r)
        return "case n('%s') of 1..2: %s end" % (s, at), f
    if k == "seq":
        at, af = build(tr[1], b)
        bt, bf = build(tr[2], b)
        def f(r):
            af(r)
            bf(r)
        return "begin %s; %s end" % (at, bt), f
    if k in ("wl", "repl", "ifl", "casel"):  # a labelled statement directly inside another statement
        lab = b.next
        b.next += 1
        b.labels.append(lab)
        b.lab.append(lab)
        ct, cf = cond(b, "c", k == "repl") if k != "casel" else (None, None)
        at, af = build(tr[1], b)
        st, sf = build(("S",), b)
        bt, bf = build(tr[2], b)
        b.lab.pop()
        def body(r):
            while True:
                try:
                    af(r); sf(r); bf(r)
                    return
                except Goto as g:
                    if g.l != lab: raise
        if k == "repl":
            def f(r):
                while True:
                    body(r)
                    if cf(r): return
            return "repeat %d: %s; %s; %s until %s" % (lab, at, st, bt, ct), f
        whole = "%d: begin %s; %s; %s end" % (lab, at, st, bt)
        if k == "casel":
            def f(r):
                if r.n("Z") == 1: body(r)
            return "case n('Z') of 1: %s; end" % whole, f
        if k == "ifl":
            def f(r):
                if cf(r): body(r)
            return "if %s then %s" % (ct, whole), f
        def f(r):
            while cf(r): body(r)
        return "while %s do %s" % (ct, whole), f
    if k == "lseq":
        lab = b.next
        b.next += 1
        b.labels.append(lab)
        b.lab.append(lab)
        at, af = build(tr[1], b)
        bt, bf = build(tr[2], b)
        b.lab.pop()
        def f(r):
            try:
                af(r)
            except Goto as g:
                if g.l != lab: raise
            while True:
                try:
                    bf(r)
                    return
                except Goto as g:
                    if g.l != lab: raise
        return "begin %s; %d: %s end" % (at, lab, bt), f
    raise AssertionError(k)


ONE = [("if", "c"), ("while", "c"), ("repeat", "c"), ("for",), ("fordown",), ("forin",), ("with",), ("case2",)]
TWO = [("ifelse", "c"), ("case",), ("seq",), ("lseq",)]
LEAF = [("S",), ("X",), ("E",), ("GC",), ("GU",)]
FORMS = [("not", "c"), ("and", "c", "c"), ("or", "c", "c"), ("and", ("not", "c"), "c"), ("or", "c", ("not", "c"))]


def level(sub, sub2=None):
    for k in ONE:
        for a in sub: yield k + (a,)
    for k in TWO:
        for a, b in (itertools.product(sub, sub) if sub2 is None else sub2): yield k + (a, b)


def name(t):
    if isinstance(t, str): return t
    return t[0] + ("" if len(t) == 1 else "(" + ",".join(name(x) for x in t[1:]) + ")")


def case(key, tree):
    b = B()
    txt, f = build(tree, b)
    exp = []
    for m in range(1 << TAPE):
        r = Run(m)
        try:
            f(r)
        except Goto as g:
            assert g.l == 9
        exp.append("".join(r.out) + "\n")
    G.trees += 1
    G.traces += 1 << TAPE
    return Case(key, "x := 0; r1.x := 1; r2.x := 2; r1.y := 7; r2.y := 8; for m := 0 to %d do begin tape := m; pos := 0; run; writeln end" % ((1 << TAPE) - 1), "".join(exp),
                decl="var m: integer;\nprocedure run; label %s; %s\nbegin %s; 9: end;" % (", ".join(map(str, b.labels)), "var %s: integer;" % ", ".join("i%d" % i for i in range(1, b.maxd + 1)) if b.maxd else "", txt))


def cases():
    l1 = list(level(LEAF))
    for t in l1:
        yield case(name(t), t)
    for form in FORMS:
        for k in ("if", "while", "repeat"):
            for a in LEAF + [("seq", ("S",), ("GC",)), ("if", "c", ("S",)), ("while", "c", ("S",))]:
                yield case(name((k, form, a)), (k, form, a))
        for a, b in itertools.product(LEAF, repeat=2):
            yield case(name(("ifelse", form, a, b)), ("ifelse", form, a, b))
    for form in [f for f in F1 + F2 if f not in FORMS]:
        for k in ("if", "while", "repeat"):
            t = (k, form, ("seq", ("S",), ("S",)))
            yield case(name(t), t)
        t = ("ifelse", form, ("X",), ("S",))
        yield case(name(t), t)
    # depth 2: one-child kinds over all of level 1; two-child kinds with one leaf
    small = [t for t in l1 if not any(c[0] in ("E", "GU") for c in t if isinstance(c, tuple))]
    l2 = [k + (a,) for k in ONE for a in l1]
    for k in TWO:
        for a in l1:
            for l in (LEAF if THOROUGH else (("S",), ("GC",))):
                l2 += [k + (a, l), k + (l, a)]
    for t in l2:
        yield case(name(t), t)
    for k in ("wl", "repl", "ifl", "casel"):
        for a in LEAF + [("if", "c", ("GC",)), ("with", ("GC",)), ("while", "c", ("GC",)), ("for", ("GC",)), ("case", ("GC",), ("S",))]:
            for l in LEAF:
                yield case(name((k, a, l)), (k, a, l))
                if a not in LEAF: yield case(name((k, l, a)), (k, l, a))
    # two-child kinds with two one-child statements
    s1 = [k + (a,) for k in ONE for a in (("S",), ("GC",))]
    for k in TWO:
        for a, b in itertools.product(s1, repeat=2):
            yield case(name(k + (a, b)), k + (a, b))
    # chains of depth 3 and 4
    for ks in itertools.product(ONE + [("L",)], repeat=3):
        for leaf in (("S",), ("GC",), ("GU",)):
            t = leaf
            for k in reversed(ks):
                t = ("lseq", t, ("S",)) if k == ("L",) else k + (t,)
            yield case("chain " + name(t), t)
    if THOROUGH:
        for k in TWO:
            for a, b in itertools.product(small, repeat=2):
                t = k + (a, b)
                yield case("two " + name(t), t)
        for ks in itertools.product(ONE + [("L",)], repeat=4):
            t = ("GC",)
            for k in reversed(ks):
                t = ("lseq", t, ("S",)) if k == ("L",) else k + (t,)
            yield case("chain " + name(t), t)


def main():
    standard("C04", cases, G, HEADER, [("-O0",), ("-O2",)],
             "a case is one statement tree run on every tape of %d answers; distinct by tree" % TAPE, more=(("-O1",), ("-O3",), ("-m32", "-O1")), batch=60)
