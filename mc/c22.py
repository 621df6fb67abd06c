"""C22: units. G: every dependency graph of up to three units with every place of each use and every order of the program's uses; the initialisation
parts run once each, dependencies first. E: one name exported, hidden or absent in two units and the program as every kind of entity. S: sequences of calls
and assignments on the state shared between two units and the program. T: programs of the other checks moved into a unit."""
import itertools
import os
import core
import corpus
from core import THOROUGH, Check, Prog, run_programs, run_tapes


# ---------------------------------------------------------------- G: graphs
def graphs():
    names = ["u1", "u2", "u3"]
    for n in (1, 2, 3):
        pairs = [(i, j) for i in range(n) for j in range(i)]
        for places in itertools.product("-if", repeat=len(pairs)):  # no use, in the interface, in the implementation
            deps = {i: [] for i in range(n)}
            for (i, j), w in zip(pairs, places):
                if w != "-": deps[i].append((j, w))
            for k in range(1, n + 1):
                for order in itertools.permutations(range(n), k):
                    yield n, deps, order


def graph_prog(n, deps, order, inits, form, rev):
    """the program, its files and its output"""
    out, done = [], set()

    def visit(i):
        if i in done: return
        done.add(i)
        for j, w in used(i, "i") + used(i, "f"): visit(j)
        if inits >> i & 1: out.append("i%d" % (i + 1))

    def used(i, w):
        d = [x for x in deps[i] if x[1] == w]
        return d[::-1] if rev else d

    def uses(l):
        if not l: return ""
        if form: return "uses " + ", ".join("u%d" % (j + 1) for j in l) + ";\n"
        return "".join("uses u%d;\n" % (j + 1) for j in l)
    files = {}
    for i in range(n):
        u = i + 1
        # a call of every unit it uses, so that each finds the code of the others
        calls = "".join(" r%d(d + 1);" % (j + 1) for j, w in used(i, "i") + used(i, "f"))
        files["u%d.pas" % u] = ("unit u%d;\ninterface\n%svar x%d: integer;\nprocedure r%d(d: integer);\nimplementation\n%s"
                                "var h: integer;\nprocedure help;\nbegin h := h + 1; x%d := x%d * 2 end;\n"
                                "procedure r%d;\nbegin help; write(' r%d:', h:1, ':', x%d:1, ':', d:1);%s end;\n%s.\n") % (
            u, uses([j for j, _ in used(i, "i")]), u, u, uses([j for j, _ in used(i, "f")]), u, u, u, u, u, calls,
            "begin write('i%d '); h := %d; x%d := 1 end" % (u, 10 * u, u) if inits >> i & 1 else "end")
    for i in order: visit(i)
    src = "program p(output);\n%svar h: integer; procedure help; begin h := h + 1 end;\nbegin h := 1; help; write('main ', h:1);" % uses(order)
    src += "".join(" r%d(0);" % (i + 1) for i in order) + " writeln\nend.\n"
    state = {i: [10 * (i + 1), 1] if inits >> i & 1 else [0, 0] for i in range(n)}
    t = []

    def run(i, d):
        s = state[i]
        s[0] += 1
        s[1] *= 2
        t.append(" r%d:%d:%d:%d" % (i + 1, s[0], s[1], d))
        for j, w in used(i, "i") + used(i, "f"): run(j, d + 1)
    for i in order: run(i, 0)
    return Prog("G n%d %s main%s init%d %s%s" % (n, " ".join("%d<%s" % (i + 1, "".join("%d%s" % (j + 1, w) for j, w in deps[i])) for i in deps), "".join(str(i + 1) for i in order), inits,
                                                "list" if form else "each", " rev" if rev else ""),
                src, "".join(x + " " for x in out) + "main 2" + "".join(t) + "\n", files=files)


def graph_progs():
    k = 0
    for n, deps, order in graphs():
        for inits in range(1 << n):
            for form in (0, 1):
                for rev in ((0, 1) if any(len(d) > 1 for d in deps.values()) else (0,)):
                    k += 1
                    if not THOROUGH and n == 3 and k % 9: continue
                    yield graph_prog(n, deps, order, inits, form, rev)


# ---------------------------------------------------------------- E: one name
OUT = {"A": 1, "B": 2, "P": 3}


def entity(kind, own):
    """(declaration in the interface, in the implementation, initialisation)"""
    o = OUT[own]
    k = kind.lower()
    if k == "c": d = ("const nm = %d;" % (o * 10 + 1), "", "")
    elif k == "v": d = ("var nm: integer;", "", "nm := %d;" % (o * 10 + 2))
    elif k == "p": d = ("procedure nm;", "procedure nm; begin write('p%d') end;" % o, "")
    elif k == "f": d = ("function nm: integer;", "function nm: integer; begin nm := %d end;" % (o * 10 + 4), "")
    elif k == "t": d = ("type nm = record f%d: integer end;" % o, "", "")
    elif k == "e": d = ("type en%d = (%s, nm);" % (o, ", ".join("zz%d%d" % (o, i) for i in range(o))), "", "")
    elif k == "s": d = ("type nm = object q%d: integer; procedure m; virtual; end;" % o, "procedure nm.m; begin write('s', q%d:1) end;" % o, "")
    else: return "", "", ""
    if kind.isupper(): return "", d[1] if k in "pf" else d[0] + " " + d[1], d[2]
    return d


def show(who, res, kinds, state):
    """a procedure's declarations and statements that show what the name means, and the text they give"""
    own, k = res
    k = k.lower()
    o = OUT[own]
    if k == "c": return "", "write('c', nm:1)", "c%d" % (o * 10 + 1)
    if k == "v":
        state[own] = state.get(own, o * 10 + 2) + 100
        return "", "nm := nm + 100; write('v', nm:1)", "v%d" % state[own]
    if k == "p": return "", "nm", "p%d" % o
    if k == "f": return "", "write('f', nm:1)", "f%d" % (o * 10 + 4)
    if k == "t": return "var z: nm;", "z.f%d := 5; write('t', z.f%d:1)" % (o, o), "t5"
    if k == "e": return "", "write('e', ord(nm):1)", "e%d" % o
    return "var z: nm;", "z.q%d := %d; z.m" % (o, o + 6), "s%d" % (o + 6)


def export_progs():
    ukinds = "-cvpftesCVPTS"
    n = 0
    for a, b, p in itertools.product(ukinds, ukinds, "-cvpts"):
        for bua in "-if":
            for pu in ("AB", "BA", "A", "B"):
                n += 1
                if not THOROUGH and n % 5: continue
                yield from export_prog(a, b, p, bua, pu)


def export_prog(a, b, p, bua, pu):
    kinds = {"A": a, "B": b, "P": p}

    def resolve(who):
        if kinds[who] != "-": return who, kinds[who]
        if who == "A": return None
        if who == "B": return ("A", a) if bua != "-" and a.islower() else None
        for u in reversed(pu):
            if kinds[u].islower(): return u, kinds[u]
        return None
    # B's interface does not see what its implementation uses; the routines are all in the implementation
    state, exp = {}, {}
    body = {}
    for who in "A", "B", "P":
        r = resolve(who)
        used = who == "P" or who in pu or who == "A" and bua != "-"
        body[who] = show(who, r, kinds, state) if r and used else ("", "", "")
    key = "E A:%s B:%s P:%s B-uses-A:%s uses %s" % (a, b, p, bua, pu)

    def make(bad=None):
        files = {}
        for who in "A", "B":
            i, m, ini = entity(kinds[who], who)
            d, s, _ = body[who]
            if who == bad: s = "nm"
            uses = "uses ua;\n"
            files["u%s.pas" % who.lower()] = "unit u%s;\ninterface\n%s%s\nprocedure show%s;\nimplementation\n%s%s\nprocedure show%s;\n%s\nbegin %s end;\nbegin write('%s'); %s end.\n" % (
                who.lower(), uses if who == "B" and bua == "i" else "", i, who.lower(), uses if who == "B" and bua == "f" else "", m, who.lower(), d, s, who.lower(), ini)
        i, m, ini = entity(p.upper(), "P") if p != "-" else ("", "", "")
        d, s, _ = body["P"]
        if bad == "P": s = "nm"
        src = "program p(output);\nuses %s;\n%s\nprocedure showp;\n%s\nbegin %s end;\nbegin write('m'); %s %s showp; writeln end.\n" % (
            ", ".join("u" + u.lower() for u in pu), m, d, s, ini, " ".join("show%s;" % u.lower() for u in "AB" if u in pu))
        return src, files
    # order of initialisation: a unit after those it uses
    order = []
    for u in pu:
        if u == "B" and bua != "-" and "A" not in order: order.append("A")
        if u not in order: order.append(u)
    st = {}
    text = "".join(u.lower() for u in order) + "m"
    for who in [u for u in "AB" if u in pu] + ["P"]:
        r = resolve(who)
        if r: text += show(who, r, kinds, st)[2]
    src, files = make()
    yield Prog(key, src, text + "\n", files=files)
    for who in "A", "B", "P":
        if not resolve(who) and (who == "P" or who in pu):
            src, files = make(who)
            yield Prog(key + " unseen in " + who, src, None, files=files)


# ---------------------------------------------------------------- S: shared state
UA = """unit ua;
interface
type
  list = ^node;
  node = record v: integer; next: list end;
  vec = array [1..3] of integer;
  col = (red, green, blue);
  counter = object n: integer; procedure up(k: integer); virtual; function get: integer; end;
var
  x: integer; v: vec; s: set of 0..7; w: string[10]; c: col; l: list; o: counter;
procedure restart;
procedure add(n: integer);
procedure push(n: integer);
function sum: integer;
function each(procedure f(n: integer); m: integer): integer;
implementation
var h: integer;
procedure counter.up(k: integer); begin n := n + k end;
function counter.get: integer; begin get := n + 500 end;
procedure add; begin x := x + n; h := h + 1; v[h mod 3 + 1] := x; s := s + [h mod 8] end;
procedure push; var q: list; begin new(q); q^.v := n; q^.next := l; l := q; w := w + chr(ord('a') + n) end;
function sum; var q: list; t: integer; begin t := 0; q := l; while q <> nil do begin t := t * 10 + q^.v; q := q^.next end; sum := t end;
function each; var i: integer; procedure one; begin f(i + h) end; begin for i := 1 to m do one; each := h end;
procedure restart;
begin x := 0; h := 0; v[1] := 0; v[2] := 0; v[3] := 0; s := []; w := ''; c := red; l := nil; o.n := 0 end;
begin restart end.
"""
UB = """unit ub;
interface
uses ua;
type acc = object(counter) procedure up(k: integer); override; end;
var x: integer; a: acc;
procedure bump;
procedure both(var l: list; k: vec);
function clear: integer;
implementation
var h: integer;
procedure acc.up(k: integer); begin n := n + 10 * k end;
procedure take(n: integer); begin x := x * 2 + n mod 5 end;
procedure bump; var r: integer; begin h := h + 1; r := each(take, 2); x := x + r; add(h); if c = blue then c := red else c := succ(c) end;
procedure both; begin k[2] := k[2] + 1; push(k[2] mod 6); if l <> nil then l^.v := (l^.v + 1) mod 10; a.up(1); o.up(2) end;
function clear; begin h := 0; x := 3; a.n := 0; clear := 7 end;
begin x := clear end.
"""
MAIN = """program p(input, output);
uses ua, ub;
var t: char; h, i: integer; y: vec;
procedure add2; begin h := h + 1 end;
procedure state;
begin write(x:1, ' ', v[1]:1, ',', v[2]:1, ',', v[3]:1, ' '); for i := 0 to 7 do if i in s then write(i:1); write(' ', w, ' ', ord(c):1, ' ', sum:1, ' ', o.get:1, ' ', a.get:1, ' ', h:1); write(';') end;
begin
  while not eof do begin
    restart; i := clear; h := 0;
    while not eoln do begin
      read(t);
      case t of
        'a': add(2);
        'p': push(4);
        'b': bump;
        'k': both(l, v);
        'x': x := x + 1000;
        'w': begin w := 'zz'; s := s - [1] end;
        'v': begin y := v; y[1] := 9; v := y end;
        'o': begin o.up(5); a.up(5) end;
        'e': h := h + each(add, 1)
      end;
      state
    end;
    readln; writeln
  end
end.
"""


class Model:
    def __init__(self):
        self.ax = self.ah = 0  # of ua: neither is touched by the program (x is hidden by that of ub)
        self.bh, self.bx, self.an = 0, 3, 0
        self.v, self.s, self.w, self.c, self.l, self.on, self.ph = [0, 0, 0], set(), "", 0, [], 0, 0

    def add(self, n):
        self.ax += n
        self.ah += 1
        self.v[self.ah % 3] = self.ax
        self.s.add(self.ah % 8)

    def push(self, n):
        self.l.insert(0, n)
        self.w = (self.w + chr(97 + n))[:10]

    def each(self, f, m):
        for i in range(1, m + 1): f(i + self.ah)
        return self.ah

    def take(self, n): self.bx = self.bx * 2 + n % 5

    def op(self, t):
        if t == "a": self.add(2)
        elif t == "p": self.push(4)
        elif t == "b":
            self.bh += 1
            r = self.each(self.take, 2)
            self.bx += r
            self.add(self.bh)
            self.c = (self.c + 1) % 3
        elif t == "k":
            self.push((self.v[1] + 1) % 6)
            if self.l: self.l[0] = (self.l[0] + 1) % 10
            self.an += 10
            self.on += 2
        elif t == "x": self.bx += 1000
        elif t == "w":
            self.w = "zz"
            self.s.discard(1)
        elif t == "v": self.v[0] = 9
        elif t == "o":
            self.on += 5
            self.an += 50
        elif t == "e":
            h0 = self.ph
            self.ph = h0 + self.each(self.add, 1)
        return self.state()

    def state(self):
        t = 0
        for x in self.l: t = t * 10 + x
        t = (t + (1 << 31)) % (1 << 32) - (1 << 31)
        return "%d %d,%d,%d %s %s %d %d %d %d %d;" % (self.bx, *self.v, "".join(str(i) for i in sorted(self.s)), self.w, self.c, t, self.on + 500, self.an + 500, self.ph)


def sequences(depth):
    for n in range(1, depth + 1):
        for t in itertools.product("apbkxwvoe", repeat=n):
            yield "".join(t)


def seq_tapes(depth):
    out = []
    for t in sequences(depth):
        m = Model()
        out.append((t, "".join(m.op(c) for c in t)))
    return out


# ---------------------------------------------------------------- T: programs of the other checks in a unit
def moved(item, form):
    """the cases of a corpus item as a unit and a program that calls them"""
    _, name, cases, header = item
    if callable(header): header = header(cases)
    globs = "".join(c.glob.replace("@N", str(i)) + "\n" for i, c in enumerate(cases) if c.glob)
    procs = "".join("procedure case%d;\n%s\nbegin\n%s\nend;\n" % (i, c.decl.replace("@N", str(i)), c.body.replace("@N", str(i))) for i, c in enumerate(cases))
    heads = "".join("procedure case%d;\n" % i for i in range(len(cases)))
    calls = "".join("writeln('~%d~'); case%d; writeln;\n" % (i, i) for i in range(len(cases)))
    exp = "".join("~%d~\n%s\n" % (i, c.expect) for i, c in enumerate(cases))
    unit = "unit um;\ninterface\n%simplementation\n" % heads
    if form == 0:  # all of it
        return Prog("T " + name, "program p(input, output);\nuses um;\nbegin\n%send.\n" % calls, exp, files={"um.pas": unit + header + "\n" + globs + procs + "end.\n"})
    if form == 1:  # the program has the same names itself
        return Prog("T twice " + name, "program p(input, output);\nuses um;\n%s\n%s%sprocedure both;\nbegin\n%send;\nbegin all; both end.\n" % (header, globs, procs, calls), exp + exp,
                    files={"um.pas": unit.replace("interface\n", "interface\nprocedure all;\n") + header + "\n" + globs + procs + "procedure all;\nbegin\n%send;\nend.\n" % calls})
    # run by the initialisation part
    return Prog("T init " + name, "program p(input, output);\nuses um;\nbegin end.\n", exp, files={"um.pas": "unit um;\ninterface\nimplementation\n" + header + "\n" + globs + procs + "begin\n%send.\n" % calls})


def moved_progs():
    items = [i for i in (corpus.load(120, 0, 0, 40) if THOROUGH else corpus.load(16, 0, 0, 16)) if i[0] == "cases" and not i[1].startswith(("c13", "c22")) and all(c.rc == 0 and not c.stdin for c in i[2])]
    for i in items:
        for form in (0, 1, 2): yield moved(i, form)


def main():
    chk = Check("C22", "exploration")
    pick = os.environ.get("MC_CASE")
    cfgs = [("-O0",), ("-O2",)] if not THOROUGH else [("-O0",), ("-O1",), ("-O2",), ("-O3",), ("-O0", "-g"), ("-O1", "-m32"), ("-O1", "-Cr")]
    count = {}
    seen = set()
    bad = []

    def gen(src):
        for p in src:
            if pick and pick not in p.key: continue
            seen.add(p.key)
            k = p.key.split()[0] + (" rejected" if p.expect is None else "")
            count[k] = count.get(k, 0) + 1
            if count[k] in (1, 700): chk.samples.append({"case": p.key, "predicted": (p.expect or "rejected")[:200]})
            if p.expect is None: bad.append(p)
            else: yield p
    n = 0
    if not pick or pick.startswith("S"):
        tapes = seq_tapes(5 if THOROUGH else 4)
        count["S"] = len(tapes)
        n += run_tapes(chk, [("S", (MAIN, {"ua.pas": UA, "ub.pas": UB}), c, tapes) for c in cfgs])
    n += run_programs(chk, gen(graph_progs()), cfgs if THOROUGH else cfgs[:1])
    n += run_programs(chk, gen(export_progs()), cfgs if THOROUGH else cfgs[:1])
    n += run_programs(chk, gen(moved_progs()), cfgs + ([("-O0", "-g")] if not THOROUGH else []))

    def reject(p):
        r = chk.r.program(p.src, ("-O0",), files=p.files)
        if r.crc != 1 or r.exe:
            chk.fail(p.key, "-O0", "a name that is not visible was not rejected with an error: exit %s\n%s\n%s" % (r.crc, r.cerr.decode("latin1")[-300:], p.src[-1000:]), core.replay_files(p.src, ("-O0",), "rejected", r, b"", p.files))
    for _ in core.pmap(reject, bad): pass
    chk.finish(evaluations=n + len(bad), distinct_nontrivial=len(seen) + count.get("S", 0), case_kinds=count, configurations=[" ".join(c) for c in cfgs], exhaustive=not chk.full,
               rule="G: every directed acyclic graph of up to 3 units x interface or implementation x lists used by the program x which units initialise x one clause or several; "
               "E: kind of entity in two units (exported or hidden) and the program x dependencies x order of uses, with the rejection of every name that is not visible; S: operation sequences; T: programs of the other checks moved into a unit",
               bounds="3 units; sequences of up to %d operations%s" % (5 if THOROUGH else 4, "" if THOROUGH else "; every 9th graph of three units, every 5th combination of E"))


if __name__ == "__main__":
    main()
