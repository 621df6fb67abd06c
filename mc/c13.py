"""C13: files. Every legal sequence of file operations up to a depth on one file, and on two files, of each component type
and for each way of naming the file variable, against a model of sequences of components."""
from core import Check, run_tapes, THOROUGH
from ptypes import V, GLOBALS, ZINIT, assign, shows, text


class G:
    sequences = states = 0


# operations on one file; upper case: the same on the second file
# r rewrite, o reset, a append, c close, w write(next value), m write(two values), p f^ := next; put, q f^ twice, put
# e eof, i read, j read two, s show f^, g get, l eoln, n readln/writeln
PLACES = {
    "global": ("var f: FT; g: FT;", "f", "g", "", ""),
    "array": ("var fs: array [1..3] of FT; k: integer;", "fs[k]", "fs[k + 1]", "k := 2; ", ""),
    "field": ("var fr: record n: integer; f: FT; c: char; g: FT end;", "fr.f", "fr.g", "", ""),
    "heap": ("type pft = ^FT; var fp, gp: pft;", "fp^", "gp^", "new(fp); new(gp); ", ""),
    "temp": ("", "f", "g", "", "var f: FT; g: FT;"),
}


def sub_nl(s): return s


def driver(t, place, names=True):
    if t == "text":
        ft, ty = "text", "char"
    else:
        ty = V[t][0]
        ft = "file of " + ty
    glob, f, g, init, loc = PLACES[place]
    out = ["program p(input, output);\n", GLOBALS, "type FT = %s; vt = %s;\n" % (ft, ty), glob, "\n", ZINIT]
    out.append("var c: char; n: integer; eo: boolean;\n")
    if t == "text":
        out.append("procedure setv(k: integer; var v: char); begin v := chr(ord('a') + k mod 26) end;\n")
        out.append("procedure show(v: char); begin write(v) end;\n")
    else:
        vals = V[t][1]
        out.append("procedure setv(k: integer; var v: vt); var zi, zs: integer; begin case k mod 3 of %s end end;\n" % "; ".join(
            "%d: begin %s end" % (i, assign(t, "v", v)) for i, v in enumerate(vals)))
        out.append("procedure show(v: vt); var zi, zs: integer; begin %s end;\n" % shows(t, "v"))
    out.append("procedure ops; var v, u: vt; more: boolean; zi, zs: integer; %s\nbegin\n%s" % (loc, ""))
    if place != "temp":
        out.append("assign(%s, 'c13f.dat'); assign(%s, 'c13g.dat');\n" % (f, g))
    out.append("rewrite(%s); close(%s); rewrite(%s); close(%s); n := 0; more := true;\n" % (f, f, g, g) if place != "temp" else "rewrite(%s); rewrite(%s); n := 0; more := true;\n" % (f, g))
    out.append("while more do begin read(c); case c of\n")
    for up, F in ((False, f), (True, g)):
        def lab(x): return "'%s'" % (x.upper() if up else x)
        ops = {"r": "rewrite(@)", "o": "reset(@)", "a": "append(@)", "c": "close(@)",
               "w": "setv(n, v); n := n + 1; write(@, v)", "m": "setv(n, v); setv(n + 1, u); n := n + 2; write(@, v, u)",
               "p": "setv(n, v); n := n + 1; @^ := v; put(@)", "q": "setv(n, u); setv(n + 1, v); n := n + 2; @^ := u; @^ := v; put(@)",
               "e": "if eof(@) then write('T') else write('F')", "i": "read(@, v); show(v)", "j": "read(@, v, u); show(v); show(u)", "s": "show(@^)",
               "g": "get(@)"}
        if t != "text":
            ops.update({"b": "seekread(@, 0)", "d": "seekread(@, 1)", "t": "write(position(@):1, ';')", "z": "if empty(@) then write('T') else write('F')"})
        if t == "text":
            ops.update({"l": "if eoln(@) then write('T') else write('F')", "n": "writeln(@)", "k": "setv(n, v); n := n + 1; writeln(@, v)", "x": "readln(@)", "y": "readln(@, v); show(v)"})
        for k, s in ops.items():
            out.append("%s: begin %s end;\n" % (lab(k), s.replace("@", F)))
    dump = "reset(@); write(' ['); while not eof(@) do begin %s end; write(']'); close(@);\n" % (
        "if eoln(@) then begin write('/'); readln(@) end else begin read(@, v); write(v) end" if t == "text" else "read(@, v); show(v); write(',')")
    out.append("'.': more := false end end;\n%s%s end;\n" % (dump.replace("@", f), dump.replace("@", g)))
    out.append("begin zinit; %s\nwhile not eof do begin ops; readln; writeln end end.\n" % init)
    src = "".join(out)
    return src


class File:
    __slots__ = ("data", "mode", "pos")

    def __init__(s, data=(), mode="c", pos=0): s.data, s.mode, s.pos = data, mode, pos


def legal(f, t, depth_ops):
    m = f.mode
    if m == "c": return [o for o in "roa" if o in depth_ops]
    if m == "w": ops = "roacwmpqe" + ("nk" if t == "text" else "t")
    else:
        left = len(f.data) - f.pos
        ops = "roace"
        if t == "text":
            ops += "l" if left else ""
            if left and f.data[f.pos] != "/": ops += "isgy"
            if left > 1 and f.data[f.pos] != "/" and f.data[f.pos + 1] != "/": ops += "j"
            if left: ops += "x"
        else:
            ops += "btz" + ("d" if len(f.data) > 1 else "")
            if left: ops += "isg" + ("j" if left > 1 else "")
    return [o for o in ops if o in depth_ops]


def step(f, o, n, t, val):
    """-> (new file, output, new n)"""
    d, m, p = f.data, f.mode, f.pos
    tx = lambda x: x if t == "text" else text(t, V[t][1][x % 3])
    if o == "r": return File((), "w"), "", n
    if o == "o": return File(d, "r"), "", n
    if o == "a": return File(d, "w"), "", n
    if o == "c": return File(d, "c"), "", n
    if o in "wp": return File(d + (val(n),), "w"), "", n + 1
    if o == "m": return File(d + (val(n), val(n + 1)), "w"), "", n + 2
    if o == "q": return File(d + (val(n + 1),), "w"), "", n + 2
    if o == "n": return File(d + ("/",), "w"), "", n
    if o == "k": return File(d + (val(n), "/"), "w"), "", n + 1
    if o == "e": return f, "T" if m == "w" or p == len(d) else "F", n
    if o in "bd": return File(d, "r", "bd".index(o)), "", n
    if o == "t": return f, "%d;" % (p if m == "r" else len(d)), n
    if o == "z": return f, "F" if d else "T", n
    if o == "l": return f, "T" if d[p] == "/" else "F", n
    if o == "i": return File(d, "r", p + 1), tx(d[p]), n
    if o == "j": return File(d, "r", p + 2), tx(d[p]) + tx(d[p + 1]), n
    if o == "s": return f, tx(d[p]), n
    if o == "g": return File(d, "r", p + 1), "", n
    if o in "xy":
        q = p
        while q < len(d) and d[q] != "/": q += 1
        return File(d, "r", min(q + 1, len(d))), tx(d[p]) if o == "y" else "", n
    raise KeyError(o)


def sequences(t, depth, two, ops, start):
    val = (lambda n: "abcdefghijklmnopqrstuvwxyz"[n % 26]) if t == "text" else (lambda n: n)
    res = []

    def dump(f):
        if t == "text": return " [" + "".join(f.data) + "]"
        return " [" + "".join(text(t, V[t][1][x % 3]) + "," for x in f.data) + "]"

    def go(fs, n, tape, out, d):
        G.states += 1
        if d == 0:
            res.append((tape + ".", out + dump(fs[0]) + dump(fs[1])))
            return
        any_ = False
        for i in ((0, 1) if two else (0,)):
            for o in legal(fs[i], t, ops):
                # operations that change nothing are not repeated
                if tape and o in "esltz" and tape[-1] == (o.upper() if i else o): continue
                if o in "esltz" and d == 1 and two: continue
                nf, s, n2 = step(fs[i], o, n, t, val)
                any_ = True
                go((nf, fs[1]) if i == 0 else (fs[0], nf), n2, tape + (o.upper() if i else o), out + s, d - 1)
        if not any_: res.append((tape + ".", out + dump(fs[0]) + dump(fs[1])))
    go((File((), start), File((), start)), 0, "", "", depth)
    return res


def main():
    chk = Check("C13", "exploration")
    cfgs = [("-O0",), ("-O2",)] + ([("-m32", "-O1"), ("-O1",)] if THOROUGH else [])
    plan = []
    for t in ["text"] + [t for t in V if t not in ("ptr", "strd")]:
        big = t in ("text", "int", "rec")
        for place in PLACES:
            if place != "global" and t not in ("text", "int", "mix", "char", "stra"): continue
            start = "w" if place == "temp" else "c"
            seqs = []
            if place == "global":
                seqs += sequences(t, (6 if t == "text" else 7) + THOROUGH if big else 5 + THOROUGH, False, "roacwpeisg" + ("lnx" if t == "text" else ""), start)
                seqs += sequences(t, 5 + THOROUGH if big else 4 + THOROUGH, False, "roacwmpqeisgjlnkxybdtz", start)
                seqs += sequences(t, 5 + THOROUGH if big else 4, True, "rowis" + ("n" if t == "text" else ""), start)
            else:
                seqs += sequences(t, 4 + THOROUGH, False, "roacwmpqeisgjlnkxy", start)
                seqs += sequences(t, 4 + THOROUGH, True, "rowpisg", start)
            plan.append((t, place, sorted(set(seqs))))
    for i, (t, place, s) in enumerate(plan):
        G.sequences += len(s)
        if i % 6 == 0: chk.samples.append({"case": t + " " + place, "sequence": s[len(s) // 2][0], "expected": s[len(s) // 2][1]})
    n = run_tapes(chk, ((t + " " + place, driver(t, place), cfg, s) for t, place, s in plan for cfg in cfgs))
    chk.finish(evaluations=n, distinct_nontrivial=G.sequences, exhaustive=True, states=G.states, programs=len(plan),
               rule="a case is one operation sequence on one or two files of one component type and place", configurations=[" ".join(c) for c in cfgs])
