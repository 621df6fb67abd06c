"""C12: pointers. For each pointed-to type, each place the pointers are kept in and each way of doing the operation:
every legal sequence of new, dispose, pointer assignment, nil, assignment through the pointer, link updates and traversals
up to the stated depth, driven through one compiled program, with the full state (identity classes, nil, contents of
everything reachable) compared with a model of dynamic variables after each sequence."""
import itertools
from core import Check, run_tapes, THOROUGH
from c11 import value, show, TEXT, HEAD as HEAD11


class G:
    pass


HEAD = HEAD11

# how the pointers are held: declarations (pt is the pointer type), names
PLACES = {
    "glob": ("var p, q, r: pt;", ["p", "q", "r"], ""),
    "arr": ("var a: array [-1..1] of pt;", ["a[-1]", "a[0]", "a[1]"], ""),
    "rec": ("var a: record c: char; p: pt; d: char; q: pt; r: pt end;", ["a.p", "a.q", "a.r"], ""),
    "heap": ("type hp = ^record c: char; p, q: pt; d: array [boolean] of pt end; var a: hp;", ["a^.p", "a^.q", "a^.d[true]"], "new(a);"),
    "local": ("", ["p", "q", "r"], ""),
    "param": ("", ["p", "q", "r"], ""),
}
ROUT = """procedure mk(var x: pt); begin new(x) end;
procedure kill(x: pt); begin dispose(x) end;
function ident(x: pt): pt; begin ident := x end;
function made: pt; var x: pt; begin new(x); made := x end;
procedure cp(x: pt; var y: pt); begin y := x; x := nil end;
"""


class Heap:
    """state: vars -> object id or None; objects: id -> content"""
    __slots__ = ("v", "o", "n")

    def __init__(self, v, o, n): self.v, self.o, self.n = v, o, n

    def copy(self): return Heap(list(self.v), dict(self.o), self.n)


class Plain:
    """pointers to a leaf type or an aggregate of one; operations on the whole value"""
    def __init__(self, t, place, nvars, ways, spec=None):
        self.name, self.place, self.nv = t, place, nvars
        self.val, self.show = (lambda k: value(t, k)), (lambda lv: show(t, lv))
        self.ttext = TEXT.get(t)
        if spec: self.ttext, self.setv, self.show, self.tv = spec
        else: self.setv, self.tv = (lambda lv, k: "%s := %s" % (lv, value(t, k)[0])), (lambda k: value(t, k)[1])
        n = self.names = PLACES[place][1][:nvars]
        ops = []
        k = 0
        for i in range(nvars):
            if "direct" in ways: ops.append(("new(%s)" % n[i], ("new", i)))
            if "mk" in ways: ops.append(("mk(%s)" % n[i], ("new", i)))
            if "made" in ways: ops.append(("%s := made" % n[i], ("new", i)))
            if "direct" in ways: ops.append(("dispose(%s)" % n[i], ("dis", i)))
            if "kill" in ways: ops.append(("kill(%s)" % n[i], ("dis", i)))
            ops.append((self.setv(n[i] + "^", i), ("set", i, i)))
            ops.append(("%s := nil" % n[i], ("nil", i)))
            for j in range(nvars):
                if i == j: continue
                if "direct" in ways: ops.append(("%s := %s" % (n[i], n[j]), ("cp", i, j)))
                else: ops.append((("%s := ident(%s)" % (n[i], n[j])) if (i + j) % 2 else "cp(%s, %s)" % (n[j], n[i]), ("cp", i, j)))
                ops.append(("%s^ := %s^" % (n[i], n[j]), ("cpv", i, j)))
        self.ops = ops

    def start(self): return Heap([None] * self.nv, {}, 0)

    def apply(self, h, op):
        """new heap, or None if the operation is not legal here"""
        k = op[0]
        if k == "new":
            h = h.copy()
            h.n += 1
            h.v[op[1]] = h.n
            h.o[h.n] = None
            return h
        if k == "nil":
            h = h.copy()
            h.v[op[1]] = None
            return h
        if k == "cp":
            h = h.copy()
            h.v[op[1]] = h.v[op[2]]
            return h
        a = h.v[op[1]]
        if a is None or a not in h.o: return None
        if k == "dis":
            h = h.copy()
            del h.o[a]
            for i, x in enumerate(h.v):
                if x == a: h.v[i] = "dead"
            return h
        if k == "set":
            h = h.copy()
            h.o[a] = self.tv(op[2])
            return h
        if k == "cpv":
            b = h.v[op[2]]
            if b is None or b not in h.o or h.o[b] is None: return None
            h = h.copy()
            h.o[a] = h.o[b]
            return h

    def legal(self, h, op):
        # a variable with an undefined value may not be copied or compared
        if op[0] == "cp" and h.v[op[2]] == "dead": return False
        if op[0] in ("set", "cpv", "dis") and h.v[op[1]] == "dead": return False
        if op[0] == "cpv" and h.v[op[2]] == "dead": return False
        return True

    def text(self, h):
        """what dump prints: the tape ends with a mask character telling which variables are defined and which contents"""
        out = []
        for i, a in enumerate(h.v):
            if a == "dead": out.append(" x")
            elif a is None: out.append(" nil")
            else:
                first = h.v.index(a)
                out.append(" =%d" % first + (" ?" if h.o[a] is None else " " + h.o[a]))
        return "".join(out)

    def mask(self, h):
        return "".join("x" if a == "dead" else "n" if a is None else "u" if h.o[a] is None else "d" for a in h.v)

    def source(self):
        n = self.names
        dump = []
        for i in range(self.nv):
            cmp_ = ["if (m[%d] <> 'x') and_then (%s = %s) then f := %d" % (j + 1, n[i], n[j], j) for j in reversed(range(i))]
            dump.append("if m[%d] = 'x' then write(' x') else if %s = nil then write(' nil') else begin f := %d; %s; write(' =', f:1); if m[%d] = 'u' then write(' ?') else %s end"
                        % (i + 1, n[i], i, "; ".join(cmp_) or "f := f", i + 1, self.show(n[i] + "^")))
        return frame(self.ttext, self.place, self.names, self.ops, "; ".join(dump), "; ".join("%s := nil" % x for x in n), self.nv)


def frame(ttext, place, names, ops, dump, init, nv):
    decls, _, setup = PLACES[place]
    body = "".join("%d: begin %s end;\n" % (33 + i, o[0]) for i, o in enumerate(ops))
    run = """procedure run; var c: char; m: array [1..9] of char; f, i: integer;
begin %s; read(c); while c <> ' ' do begin case ord(c) of
%s end; read(c) end; i := 0; while not eoln do begin i := i + 1; read(m[i]) end; readln; %s; writeln end;
""" % (init, body, dump)
    head = "program p(input, output);\n" + HEAD + ttext_decl(ttext) + "procedure zinit; var i: integer; begin for i := 1 to 7 do begin new(zp[i]); zp[i]^ := i * 11 end end;\n" + ROUT
    if place == "local":
        return head + "procedure main;\nvar %s: pt;\n%sbegin while not eof do run end;\nbegin zinit; main end.\n" % (", ".join(names), run)
    if place == "param":
        return head + "procedure main(var %s: pt);\n%sbegin while not eof do run end;\nvar %s: pt;\nbegin zinit; main(%s) end.\n" % (", ".join(names), run, ", ".join("u" + x for x in names), ", ".join("u" + x for x in names))
    return head + decls + "\n" + run + "begin zinit; %s while not eof do run end.\n" % setup


def ttext_decl(t):
    if t.startswith("pt ="): return t + "\nvar zp: array [1..7] of tptr;\n"
    return "pt = ^tt; tt = %s;\nvar zp: array [1..7] of tptr;\n" % t


def sequences(m, depth, budget):
    """all legal sequences of at most `depth` operations, as (tape, expected)"""
    out = []
    ops = m.ops

    def go(h, tape, d):
        out.append((tape + " " + m.mask(h), m.text(h)))
        if d == 0: return
        for i, (st, op) in enumerate(ops):
            if not m.legal(h, op): continue
            g = m.apply(h, op)
            if g is not None: go(g, tape + chr(33 + i), d - 1)
    go(m.start(), "", depth)
    return out


# ------------------------------------------------------------------ aggregates
def agg():
    """(name, type text, set statement, show statement, printed text)"""
    yield ("recs", "record c: char; i: integer; s: tstr; f: boolean end",
           lambda lv, k: "%s.c := %s; %s.i := %s; %s.s := %s; %s.f := %s" % (lv, value("char", k)[0], lv, value("int", k)[0], lv, value("str", k + 1)[0], lv, value("bool", k)[0]),
           lambda lv: "begin %s; %s; %s; %s end" % (show("char", lv + ".c"), show("int", lv + ".i"), show("str", lv + ".s"), show("bool", lv + ".f")),
           lambda k: " ".join((value("char", k)[1], value("int", k)[1], value("str", k + 1)[1], value("bool", k)[1])))
    for n in [1, 2, 3, 7, 8, 23, 24, 25, 40, 41, 56, 57, 1000, 5000]:
        yield ("bytes%d" % n, "array [1..%d] of char" % n,
               lambda lv, k, n=n: "for f := 1 to %d do %s[f] := chr(%d)" % (n, lv, 65 + k),
               lambda lv, n=n: "begin i := 0; for i := 1 to %d do if %s[i] <> %s[1] then write('!', i:1); write(' ', %s[1]) end" % (n, lv, lv, lv),
               lambda k: chr(65 + k))
    for n in (1, 5, 6, 7, 100):
        yield ("ints%d" % n, "array [0..%d] of integer" % (n - 1),
               lambda lv, k, n=n: "for f := 0 to %d do %s[f] := %s" % (n - 1, lv, value("int", k)[0]),
               lambda lv, n=n: "begin for i := 0 to %d do if %s[i] <> %s[0] then write('!', i:1); write(' ', %s[0]:1) end" % (n - 1, lv, lv, lv),
               lambda k: value("int", k)[1])
    for n in (1, 2, 3, 4, 5):
        yield ("longs%d" % n, "array [boolean, 1..%d] of longint" % n,
               lambda lv, k, n=n: "for f := 1 to %d do begin %s[false, f] := %s; %s[true, f] := %s end" % (n, lv, value("long", k)[0], lv, value("long", k)[0]),
               lambda lv, n=n: "begin for i := 1 to %d do if (%s[false, i] <> %s[true, 1]) or (%s[true, i] <> %s[true, 1]) then write('!', i:1); write(' ', %s[true, 1]:1) end" % (n, lv, lv, lv, lv, lv),
               lambda k: value("long", k)[1])
    yield ("variant", "record a: char; case z: boolean of true: (c: char); false: (l, m, n: longint) end",
           lambda lv, k: ("%s.a := 'v'; %s.z := true; %s.c := %s" % (lv, lv, lv, value("char", k)[0])) if k % 2 else "%s.a := 'w'; %s.z := false; %s.l := %d; %s.m := 5; %s.n := 6" % (lv, lv, lv, k + 70, lv, lv),
           lambda lv: "if %s.z then write(' v', %s.c) else write(' w', %s.l:1, %s.m:1, %s.n:1)" % (lv, lv, lv, lv, lv),
           lambda k: "v" + value("char", k)[1] if k % 2 else "w%d56" % (k + 70))


# ------------------------------------------------------------------ linked records
class Linked:
    """nodes with a value and one or two links"""
    def __init__(self, place, nvars, links, val, ways):
        self.place, self.nv, self.links, self.valt = place, nvars, links, val
        n = self.names = PLACES[place][1][:nvars]
        ops = []
        for i in range(nvars):
            a = n[i]
            ops.append(((["new(%s)", "mk(%s)", "%s := made"][(i + ways) % 3] % a) + "; " + "; ".join("%s^.%s := nil" % (a, l) for l in links) + "; %s^.v := %s" % (a, value(val, 9)[0]), ("new", i)))
            ops.append((["dispose(%s)", "kill(%s)"][(i + ways) % 2] % a, ("dis", i)))
            ops.append(("%s^.v := %s" % (a, value(val, i)[0]), ("set", i, i)))
            ops.append(("%s := nil" % a, ("nil", i)))
            for l in range(len(links)):
                f = "%s^.%s" % (a, links[l])
                ops.append(("%s := nil" % f, ("lnil", i, l)))
                ops.append(("new(%s); %s; %s^.v := %s" % (f, "; ".join("%s^.%s := nil" % (f, x) for x in links), f, value(val, i + 5)[0]), ("lnew", i, l, i + 5)))
                ops.append(("dispose(%s)" % f, ("ldis", i, l)))
                ops.append(("%s^.v := %s" % (f, value(val, i + 2)[0]), ("lset", i, l, i + 2)))
                if len(links) > 1 or ways: ops.append(("with %s^ do if v = v then %s := %s" % (f, a, links[0]), ("hop", i, l)))
            for j in range(nvars):
                if i != j: ops.append(("%s := %s" % (a, n[j]), ("cp", i, j)))
                if i != j: ops.append(("%s^ := %s^" % (a, n[j]), ("cpv", i, j)))
                for l in range(len(links)):
                    ops.append(("%s^.%s := %s" % (a, links[l], n[j]), ("link", i, l, j)))
                    ops.append(("%s := %s^.%s" % (a, n[j], links[l]), ("walk", i, j, l)))
        self.ops = ops

    def start(self): return Heap([None] * self.nv, {}, 0)

    def legal(self, h, op): return True

    def apply(self, h, op):
        k, i = op[0], op[1]
        nl = len(self.links)
        live = lambda x: x is not None and x != "dead" and x in h.o
        if k == "cp":
            if h.v[op[2]] == "dead": return None
            h = h.copy()
            h.v[i] = h.v[op[2]]
            return h
        if k == "nil" or k == "new":
            h = h.copy()
            if k == "new":
                h.n += 1
                h.o[h.n] = (value(self.valt, 9)[1],) + (None,) * nl
            h.v[i] = h.n if k == "new" else None
            return h
        if k == "walk":
            b = h.v[op[2]]
            if not live(b): return None
            t = h.o[b][1 + op[3]]
            if t == "dead": return None
            h = h.copy()
            h.v[i] = t
            return h
        a = h.v[i]
        if not live(a): return None
        o = h.o[a]
        if k == "dis": return self.kill(h, a)
        if k == "set": return self.upd(h, a, 0, value(self.valt, op[2])[1])
        if k == "cpv":
            b = h.v[op[2]]
            if not live(b): return None
            if "dead" in h.o[b]: return None
            h = h.copy()
            h.o[a] = h.o[b]
            return h
        l = op[2]
        if k == "lnil": return self.upd(h, a, 1 + l, None)
        if k == "link":
            if h.v[op[3]] == "dead": return None
            return self.upd(h, a, 1 + l, h.v[op[3]])
        if k == "lnew":
            h = h.copy()
            h.n += 1
            h.o[h.n] = (value(self.valt, op[3])[1],) + (None,) * nl
            return self.upd(h, a, 1 + l, h.n)
        b = o[1 + l]
        if not live(b): return None
        if k == "ldis": return self.kill(h, b)
        if k == "lset": return self.upd(h, b, 0, value(self.valt, op[3])[1])
        if k == "hop":
            t = h.o[b][1]
            if t == "dead": return None
            h = h.copy()
            h.v[i] = t
            return h

    def upd(self, h, a, f, v):
        h = h.copy()
        o = list(h.o[a])
        o[f] = v
        h.o[a] = tuple(o)
        return h

    def kill(self, h, a):
        h = h.copy()
        del h.o[a]
        h.v = ["dead" if x == a else x for x in h.v]
        for k, o in list(h.o.items()):
            if a in o[1:]: h.o[k] = (o[0],) + tuple("dead" if x == a else x for x in o[1:])
        return h

    def nodes(self, h):
        """reachable nodes in breadth first order"""
        order = []
        for a in h.v:
            if a is not None and a != "dead" and a not in order: order.append(a)
        for a in order:
            for b in h.o[a][1:]:
                if b is not None and b != "dead" and b not in order: order.append(b)
        return order

    def mask(self, h):
        """tells the program which links are undefined: variables, then each reachable node's links"""
        s = "".join("x" if a == "dead" else "d" for a in h.v)
        for a in self.nodes(h): s += "".join("x" if b == "dead" else "d" for b in h.o[a][1:])
        return s

    def text(self, h):
        nodes = self.nodes(h)
        ref = lambda b: "x" if b == "dead" else "nil" if b is None else str(nodes.index(b) + 1)
        out = [" " + ref(a) for a in h.v]
        for a in nodes: out.append(" | " + h.o[a][0] + "".join(" " + ref(b) for b in h.o[a][1:]))
        return "".join(out)

    def source(self):
        n, L = self.names, self.links
        tt = "pt = ^tt; tt = record %s: pt; v: %s%s end;" % (L[0], TEXT[self.valt], "".join("; %s: pt" % x for x in L[1:]))
        dump = "cnt := 0; " + "; ".join("if m[%d] <> 'x' then add(%s)" % (i + 1, n[i]) for i in range(self.nv))
        dump += "; i := 1; f := %d; while i <= cnt do begin %s; i := i + 1 end" % (self.nv, "; ".join("f := f + 1; if m[f] <> 'x' then add(w[i]^.%s)" % l for l in L))
        dump += "; " + "; ".join("ref(%s, m[%d])" % (n[i], i + 1) for i in range(self.nv))
        dump += "; i := 1; f := %d; while i <= cnt do begin write(' |'); %s; %s; i := i + 1 end" % (self.nv, show(self.valt, "w[i]^.v"), "; ".join("f := f + 1; ref(w[i]^.%s, m[f])" % l for l in L))
        aux = """var cnt: integer; w: array [1..30] of pt;
procedure add(x: pt); var i: integer; b: boolean;
begin if x <> nil then begin b := false; for i := 1 to cnt do if w[i] = x then b := true; if not b then begin cnt := cnt + 1; w[cnt] := x end end end;
procedure ref(x: pt; c: char); var i: integer;
begin if c = 'x' then write(' x') else if x = nil then write(' nil') else for i := 1 to cnt do if x = w[i] then write(' ', i:1) end;
"""
        s = frame(tt, self.place, n, self.ops, dump, "; ".join("%s := nil" % x for x in n), self.nv)
        return s.replace("array [1..9]", "array [1..60]").replace(ROUT, ROUT + aux)


# ------------------------------------------------------------------ pointers to pointers
class Twice:
    def __init__(self, place, val):
        self.place, self.valt = place, val
        n = self.names = PLACES[place][1][:2]
        ops = []
        for i in (0, 1):
            a, b = n[i], n[1 - i]
            w = "w%d" % i
            ops += [("new(%s); %s^ := nil" % (a, a), ("new", i)), ("new(%s^); %s^^ := %s" % (a, a, value(val, 4 + i)[0]), ("lnew", i, 4 + i)), ("dispose(%s)" % a, ("dis", i)), ("dispose(%s^)" % a, ("ldis", i)),
                    ("%s^^ := %s" % (a, value(val, i)[0]), ("lset", i, i)), ("%s^ := nil" % a, ("lnil", i)), ("%s := %s" % (a, b), ("cp", i, 1 - i)), ("%s^ := %s^" % (a, b), ("cpl", i, 1 - i)),
                    ("%s^^ := %s^^" % (a, b), ("cpv", i, 1 - i)), ("%s := nil" % a, ("nil", i)), ("%s := %s^" % (w, a), ("out", i)), ("%s^ := %s" % (a, w), ("in", i)), ("%s^ := %s" % (w, value(val, 2 + i)[0]), ("wset", i, 2 + i))]
        self.ops = ops

    # v: two outer pointers, then two inner pointers w0, w1; objects: id -> ("o", inner) or ("i", value)
    def start(self): return Heap([None] * 4, {}, 0)

    def legal(self, h, op): return True

    def apply(self, h, op):
        k, i = op[0], op[1]
        live = lambda x: x is not None and x != "dead" and x in h.o
        g = h.copy()
        if k == "new":
            g.n += 1
            g.v[i], g.o[g.n] = g.n, ("o", None)
            return g
        if k == "nil":
            g.v[i] = None
            return g
        if k == "cp":
            if h.v[op[2]] == "dead": return None
            g.v[i] = h.v[op[2]]
            return g
        if k == "wset":
            if not live(h.v[2 + i]): return None
            g.o[h.v[2 + i]] = ("i", value(self.valt, op[2])[1])
            return g
        a = h.v[i]
        if not live(a): return None
        if k == "dis": return self.kill(g, a)
        inner = h.o[a][1]
        if k == "lnil": g.o[a] = ("o", None); return g
        if k == "lnew":
            g.n += 1
            g.o[g.n], g.o[a] = ("i", value(self.valt, op[2])[1]), ("o", g.n)
            return g
        if k == "cpl":
            b = h.v[op[2]]
            if not live(b) or h.o[b][1] == "dead": return None
            g.o[a] = h.o[b]
            return g
        if k == "in":
            if h.v[2 + i] == "dead": return None
            g.o[a] = ("o", h.v[2 + i])
            return g
        if k == "out":
            if inner == "dead": return None
            g.v[2 + i] = inner
            return g
        if not live(inner): return None
        if k == "ldis": return self.kill(g, inner)
        if k == "lset": g.o[inner] = ("i", value(self.valt, op[2])[1]); return g
        if k == "cpv":
            b = h.v[op[2]]
            if not live(b) or not live(h.o[b][1]): return None
            g.o[inner] = h.o[h.o[b][1]]
            return g

    def kill(self, g, a):
        del g.o[a]
        g.v = ["dead" if x == a else x for x in g.v]
        for k, o in list(g.o.items()):
            if o == ("o", a): g.o[k] = ("o", "dead")
        return g

    def inner(self, h):
        return [h.v[2], h.v[3]] + [h.o[a][1] if a is not None and a != "dead" else None for a in h.v[:2]]

    def mask(self, h):
        out = ["x" if a == "dead" else "d" for a in h.v]
        out += ["x" if b == "dead" else "d" for b in self.inner(h)[2:]]
        return "".join(out)

    def text(self, h):
        out = []
        for i in (0, 1): out.append(" x" if h.v[i] == "dead" else " nil" if h.v[i] is None else " =%d" % h.v.index(h.v[i]))
        inn = self.inner(h)
        for b in inn:
            if b == "dead": out.append(" x")
            elif b is None: out.append(" nil")
            else: out.append(" =%d %s" % (inn.index(b), h.o[b][1]))
        return "".join(out)

    def source(self):
        n = self.names
        d = []
        for i in (0, 1):
            eq = "f := %d; " % i + ("if (m[1] <> 'x') and_then (%s = %s) then f := 0; " % (n[0], n[1]) if i else "")
            d.append("if m[%d] = 'x' then write(' x') else if %s = nil then write(' nil') else begin %swrite(' =', f:1) end" % (i + 1, n[i], eq))
        d.append("v0 := nil; v1 := nil; if m[1] <> 'x' then if %s <> nil then if m[5] <> 'x' then v0 := %s^; if m[2] <> 'x' then if %s <> nil then if m[6] <> 'x' then v1 := %s^" % (n[0], n[0], n[1], n[1]))
        vs, ms = ["w0", "w1", "v0", "v1"], [3, 4, 5, 6]
        for i in range(4):
            d.append("if m[%d] = 'x' then write(' x') else if %s = nil then write(' nil') else begin f := %d; %swrite(' =', f:1); %s end"
                     % (ms[i], vs[i], i, "".join("if (m[%d] <> 'x') and_then (%s = %s) then f := %d; " % (ms[j], vs[i], vs[j], j) for j in reversed(range(i))), show(self.valt, vs[i] + "^")))
        s = frame("pt = ^ptt; ptt = ^tt; tt = %s;" % TEXT[self.valt], self.place, n, self.ops, "; ".join(d), "; ".join("%s := nil" % x for x in n + ["w0", "w1"]), 2)
        return s.replace(ROUT, "var w0, w1, v0, v1: ptt;\n")


def main():
    chk = Check("C12", "exploration")
    cfgs = [("-O0",), ("-O2",)]
    if THOROUGH: cfgs += [("-O1",), ("-O3",), ("-m32", "-O0"), ("-m32", "-O2"), ("-no-memcpy", "-O1"), ("-O1", "-g")]
    pl = list(PLACES)
    nd = [0]
    extra = 1

    def jobs():
        k = 0
        for t in [x for x in TEXT] + list(agg()):
            name = t if isinstance(t, str) else t[0]
            spec = None if isinstance(t, str) else t[1:]
            k += 1
            for w, (ways, nv, depth) in enumerate(((("direct",), 2, 5 + THOROUGH), (("mk", "made", "kill"), 2, 5), (("direct",), 3, 4))):
                if w == 2 and spec and not THOROUGH: depth = 3
                ps = pl if THOROUGH else [pl[(k + w) % 6], pl[(k + w + 3) % 6]]
                tp = None
                for pi, place in enumerate(ps):
                    m = Plain(name, place, nv, ways, spec)
                    if tp is None: tp = sequences(m, depth - (1 if spec and not THOROUGH and w < 2 and name != "recs" else 0), 0)
                    for ci, cfg in enumerate(cfgs):
                        if not THOROUGH and ci != pi: continue
                        nd[0] += 1
                        if nd[0] % 13 == 1: chk.samples.append({"type": name, "place": place, "operations": [o[0] for o in m.ops][:4], "tape": tp[-1][0], "expected": tp[-1][1]})
                        yield "%s %s %s %d" % (name, place, "+".join(ways), nv), m.source(), cfg, tp
        for pi, place in enumerate(pl):
            for ways in (0, 1):
                for links, val, nv, depth in ((["next"], "int", 2, 4), (["next"], "str", 2, 3), (["l", "r"], "char", 2, 3), (["next"], "long", 3, 3), (["next"], "big", 1, 5), (["l", "r"], "int", 1, 4)):
                    m = Linked(place, nv, links, val, ways)
                    tp = None
                    for ci, cfg in enumerate(cfgs):
                        if not THOROUGH and (ci + pi + ways) % 2: continue
                        if tp is None: tp = sequences(m, depth + (extra if nv < 3 else 0), 0)
                        nd[0] += 1
                        yield "links %s %s %d %s ways%d" % ("+".join(links), val, nv, place, ways), m.source(), cfg, tp
        for pi, place in enumerate(pl):
            for vi, val in enumerate(("int", "char", "str", "real", "big")):
                m = Twice(place, val)
                tp = None
                for ci, cfg in enumerate(cfgs):
                    if not THOROUGH and (ci + pi + vi) % 2: continue
                    if tp is None: tp = sequences(m, 3 + extra, 0)
                    nd[0] += 1
                    yield "twice %s %s" % (val, place), m.source(), cfg, tp
    ev = run_tapes(chk, jobs(), chunk=20000)
    chk.finish(evaluations=ev, distinct_nontrivial=ev // len(cfgs), exhaustive=True, drivers=nd[0], rule="a case is one legal sequence of operations on one set of pointers; distinct by type, place, form and sequence",
               configurations=[" ".join(c) for c in cfgs])
