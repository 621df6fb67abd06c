"""C14: reading text. Every text up to a length over an alphabet, read by every sequence of read operations up to a depth; the
values, eof and eoln are compared with a model of a position in a text. Files of every kind, standard input, and strings (readstr)."""
import itertools, re
from core import Case, Check, run_cases, run_tapes, pmap, replay_files, THOROUGH

WS = " \t\n\v\f\r"
ENC = {"\n": "/", "\t": "~", " ": "_", "\r": "#"}


class G:
    sequences = texts = readstr = stdin_runs = 0


NUM = re.compile(r"[+-]?[0-9]+")
REAL = re.compile(r"[+-]?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?")
WORD = re.compile(r"[^ \t\n\v\f\r]+")


def skip(t, p):
    while p < len(t) and t[p] in WS: p += 1
    return p


def rd_int(t, p, lo, hi):
    q = skip(t, p)
    m = NUM.match(t, q)
    if not m or not lo <= int(m[0]) <= hi: return None
    return int(m[0]), m.end()


def rd_real(t, p):
    q = skip(t, p)
    m = REAL.match(t, q)
    if not m: return None
    e = m.end()
    if e < len(t):  # a number that goes on in a way the language does not allow is an error
        if m[1] is None and m[2] is None and t[e] == ".": return None
        if m[2] is None and t[e] in "eE": return None
    v = float(m[0])
    if abs(v) > 1e300: return None
    return v, e


def nl(t, p):
    q = t.find("\n", p)
    return len(t) if q < 0 else q + 1


def eol(t, p):
    q = t.find("\n", p)
    return len(t) if q < 0 else q


def shr(v): return "% .15E;" % v


def step(o, t, p, end):
    """(output, new position) or None where the language does not define the outcome. end: the position nothing may reach (a sentinel)."""
    if o == "i": r = rd_int(t, p, -2**31, 2**31 - 1); return r and ("%d;" % r[0], r[1])
    if o == "l": r = rd_int(t, p, -2**63, 2**63 - 1); return r and ("%d;" % r[0], r[1])
    if o == "b": r = rd_int(t, p, 0, 255); return r and ("%d;" % r[0], r[1])
    if o == "h": r = rd_int(t, p, -100, 100); return r and ("%d;" % r[0], r[1])
    if o == "r": r = rd_real(t, p); return r and (shr(r[0]), r[1])
    if o == "c":
        if p >= len(t): return None
        return "%d;" % ord(t[p]), p + 1
    if o == "d":
        if p + 1 >= len(t): return None
        return "%d;%d;" % (ord(t[p]), ord(t[p + 1])), p + 2
    if o in "stu":
        n = {"s": 3, "t": 255, "u": 1}[o]
        e = min(eol(t, p), p + n)
        return "%d%s;" % (e - p, t[p:e]), e
    if o == "a":
        e = min(eol(t, p), p + 2)
        return (t[p:e] + "??")[:2] + ";", e
    if o == "n": return "", nl(t, p)
    if o == "I":
        r = step("i", t, p, end)
        return r and (r[0], nl(t, r[1]))
    if o == "J":
        r = step("i", t, p, end)
        q = r and step("c", t, r[1], end)
        return q and (r[0] + q[0], q[1])
    if o == "K":
        r = step("i", t, p, end)
        q = r and step("i", t, r[1], end)
        return q and (r[0] + q[0], nl(t, q[1]))
    if o == "S":
        r = step("s", t, p, end)
        return r and (r[0], nl(t, r[1]))
    if o == "p":
        return None if p >= len(t) else ("%d;" % ord(t[p]), p)
    if o == "g": return None if p >= len(t) else ("", p + 1)
    if o == "e": return "FT"[p >= len(t)], p
    if o == "o": return "FT"[p >= len(t) or t[p] == "\n"], p
    if o == "B":
        q = skip(t, p)
        m = WORD.match(t, q)
        if not m or m[0].upper() not in ("TRUE", "FALSE"): return None
        return m[0].upper() + ";", m.end()
    raise KeyError(o)


STMT = {
    "i": "read(@, vi); write(vi:1, ';')", "l": "read(@, vl); write(vl:1, ';')", "b": "read(@, vb); write(vb:1, ';')", "h": "read(@, vh); write(vh:1, ';')",
    "r": "read(@, vr); write(vr:22, ';')", "c": "read(@, vc); write(ord(vc):1, ';')", "d": "read(@, vc, vd); write(ord(vc):1, ';', ord(vd):1, ';')",
    "s": "read(@, v3); write(length(v3):1, v3, ';')", "t": "read(@, vs); write(length(vs):1, vs, ';')", "u": "read(@, v1); write(length(v1):1, v1, ';')",
    "a": "va := '??'; read(@, va); write(va, ';')", "n": "readln(@)", "I": "readln(@, vi); write(vi:1, ';')", "J": "read(@, vi, vc); write(vi:1, ';', ord(vc):1, ';')",
    "K": "readln(@, vi, vj); write(vi:1, ';', vj:1, ';')", "S": "readln(@, v3); write(length(v3):1, v3, ';')", "p": "vc := @^; write(ord(vc):1, ';')", "g": "get(@)",
    "e": "if eof(@) then write('T') else write('F')", "o": "if eoln(@) then write('T') else write('F')", "B": "read(@, vq); write(vq, ';')",
}
VARS = "vi, vj: integer; vl: longint; vb: 0..255; vh: -100..100; vr: real; vc, vd: char; vs: string; v3: string[3]; v1: string[1]; va: array [1..2] of char; vq: boolean;"
PLACES = {  # declarations, file expression, opening for writing and reading
    "global": ("var f: text;", "", "f", ""),
    "named": ("var f: text;", "", "f", "assign(f, 'c14.txt');"),
    "local": ("", "var f: text;", "f", ""),
    "field": ("var fr: record n: integer; f: text; c: char end;", "", "fr.f", "assign(fr.f, 'c14.txt');"),
    "param": ("var ff: text;", "", "f", ""),
    "array": ("var fs: array [1..3] of text; k: integer;", "", "fs[k]", "k := 2; assign(fs[k], 'c14.txt');"),
}


def driver(place, ops):
    glob, loc, f, ini = PLACES[place]
    o = ["program p(input, output);\n%s\nvar c: char; n, i: integer; x: text;\nprocedure ops%s; var %s %s\nbegin\n" % (glob, "(var f: text)" if place == "param" else "", VARS, loc)]
    o.append("%s rewrite(%s);\n" % (ini, f))
    # <number>:<text>|<operations>
    o.append("read(n); for i := 1 to n do write(@, chr(ord('a') + i mod 26)); if n > 0 then writeln(@); read(c); read(c);\n"
             "while c <> '|' do begin if c = '/' then writeln(@) else if c = '~' then write(@, chr(9)) else if c = '#' then write(@, chr(13)) else if c = '_' then write(@, ' ') else write(@, c); read(c) end;\n"
             "reset(@); if n > 0 then begin for i := 1 to n div 2 do read(@, c); readln(@) end; while not eoln do begin read(c); case c of\n".replace("@", f))
    for k in ops: o.append("'%s': begin %s end;\n" % (k, STMT[k].replace("@", f)))
    o.append("end end end;\nbegin while not eof do begin %s; readln; writeln end end.\n" % ("ops(ff)" if place == "param" else "ops"))
    return "".join(o)


def enc(t): return "".join(ENC.get(c, c) for c in t)


def tapes(texts, ops, depth, pads=(0,), final=False):
    out = []
    for t in texts:
        for pad in pads:
            head = "%d:%s|" % (pad, enc(t))

            def rec(pre, o, p, d):
                for x in ops:
                    r = step(x, t, p, len(t))
                    if r is None: continue
                    if not final or d == 1 or r[1] > len(t): out.append((head + pre + x, o + r[0]))
                    if d > 1: rec(pre + x, o + r[0], r[1], d - 1)
            rec("", "", 0, depth)
    G.sequences += len(out)
    G.texts += len(texts)
    return out


def words(al, n, lo=0): return ["".join(x) for k in range(lo, n + 1) for x in itertools.product(al, repeat=k)]


SPECIAL = ["2147483647 -2147483648\n9223372036854775807 -9223372036854775808 +5", "true FALSE\nTrue\n  false", "  12.5e1 -0.25E-2\n1e+3 +7.75 100000 0.1\n", "\n\n\n12\n\n", "12", "a\n", "1 2 3\n4 5 6\n\n7", "\t\t1\t2\n\t3",
           "abc def\nghi\n", "x" * 300 + "\n" + "y", "007 -010 +08\n", "255 256 0 100 -100\n", "1\r2\r\n3\n", "-5-6+7", "1.5.5 1", "3a4b", "a1b2\n c", "0.000001 123456789.125\n1E-5 9e9", "''\n'", "true\nfalse true"]


def jobs():
    A1, A2 = "1-a \n", "1.e- \n"
    ev = "icsneopgI"
    d3 = 4 if THOROUGH else 3
    for place, texts, ops, depth in (
            ("global", words("1a \n", 4), ev, d3), ("local", words("1-\n", 5), "icneopuK", 3), ("named", words(A1, 4), "iceonsgJ", 2), ("global", words(A2, 5 if not THOROUGH else 6), "rcneo", 2),
            ("field", words("1a \n", 3), ev, 3), ("param", words("1a \n", 3), ev, 3), ("array", words("1 \n", 4), ev + "dSt", 2), ("named", words("a\n", 5), "ctsuaneogpS", 3), ("global", SPECIAL, "ilbhrcdstuanIJKSpgeoB", 3)):
        for cfg in ((("-O0",), ("-O2",)) if place == "global" else (("-O1",),)) + ((("-m32", "-O1"),) if THOROUGH else ()):
            src = driver(place, ops)
            for i in range(0, len(texts), 400):
                yield "T %s" % place, src, cfg, tapes(texts[i:i + 400], ops, depth)
    # runs: the length of a run of zeros, blanks, line ends or letters makes no difference
    ns = list(range(0, 45)) + [62, 63, 64, 65, 98, 99, 100, 101, 126, 127, 128, 129, 253, 254, 255, 256, 257, 308, 400, 511, 513, 1021, 1022, 1023, 1024, 1025] + ([1500, 2047, 2048, 2049, 4096, 5000] if THOROUGH else [])
    runs = [u % (z * n) for n in ns for u, z in (("%s12 7\n", "0"), ("-%s5 6\n", "0"), ("1%s 2\n", " "), ("%s3\n4", "\n"), ("\t%s+8 9\n", "\t"), ("%s.25 1\n", "0"), ("1.5%s 2\n", "0"), ("2.%s5 3\n", "0"), ("1e%s3 4\n", "0"), ("a%s 5\n", "b"))
            if u[0] != "2" or n < 280]
    for cfg in (("-O0",), ("-O2",)):
        for i in range(0, len(runs), 200): yield "R", driver("global", "ilrcntIJ"), cfg, tapes(runs[i:i + 200], "ilrcntIJ", 2)
    # lines as long as the buffer of the run-time library
    src = driver("named", "ctne")
    yield "P", src, ("-O1",), tapes(words("1a\n", 3), "ctneo".replace("o", ""), 2, pads=list(range(1015, 1030)) + [2046, 2047, 2048] if THOROUGH else (1019, 1020, 1021, 1022, 1023, 1024, 2047))


# ---------------------------------------------------------------- standard input: the text ends with a sentinel
def stdin_driver(ops):
    o = ["program p(input, output);\nvar c: char; more: boolean; fo: text; %s\nbegin assign(fo, 'ops.txt'); reset(fo); while not eof(fo) do begin while not eoln(fo) do begin read(fo, c); case c of\n" % VARS]
    for k in ops: o.append("'%s': begin %s end;\n" % (k, STMT[k].replace("@", "input")))
    o.append("end end; writeln; readln(fo); if not eof(fo) then begin repeat read(c) until c = chr(3) end end end.\n")
    return "".join(o)


def stdin_check(chk):
    """many texts on one standard input, the operations in a file"""
    ops = "icsneopgIr"
    cfgs = [("-O0",), ("-O2",)]
    jobs = []
    texts = words("1a \n", 4 if THOROUGH else 3)
    rows = []
    for t in texts:
        s = t + "\x03"

        def rec(pre, o, p, d):
            for x in ops:
                r = step(x, s, p, len(t))
                if r is None or r[1] > len(t): continue
                if x in "In" and "\n" not in s[p:]: continue
                if r[1] == len(t) and x in "ir" : pass
                rows.append((t, pre + x, o + r[0]))
                if d > 1: rec(pre + x, o + r[0], r[1], d - 1)
        rec("", "", 0, 3)
    src = stdin_driver(ops)

    def run(job):
        cfg, part = job
        files = {"ops.txt": "\n".join(x[1] for x in part) + "\n"}
        inp = "".join(x[0] + "\x03" for x in part).encode("latin1")
        for attempt in (0, 1):
            r = chk.r.program(src, cfg, inp, files, cpu=30)
            got = r.out.decode("latin1").split("\n")
            bad = [i for i in range(len(part)) if i >= len(got) or got[i] != part[i][2]]
            if r.crc == 0 and r.rc == 0 and not bad: return len(part)
        i = bad[0] if bad else 0
        one = part[i]
        f = replay_files(src, cfg, one[2], r, inp)
        f["ops.txt"] = files["ops.txt"]
        chk.fail("I %r %s" % (one[0], one[1]), " ".join(cfg), "text %r on standard input, operations %s\nexpected %r\ngot %r %s" % (one[0], one[1], one[2], got[i] if i < len(got) else None, r.brief()[:300]), f)
        return 0
    for cfg in cfgs:
        for i in range(0, len(rows), 3000): jobs.append((cfg, rows[i:i + 3000]))
    for _, k in pmap(run, jobs): G.stdin_runs += k
    # the end of standard input: one process per text and sequence
    src2 = stdin_driver("icsneogI")
    d = chk.r.newdir()
    open(d + "/p.pas", "w").write(src2)
    rc, out, err = chk.r.compile(d, ("-O1",))
    if rc != 0:
        chk.fail("I compile", "-O1", "does not compile " + err.decode("latin1"), {"p.pas": src2})
        return
    work = []
    for t in words("1a\n", 3) + ["12\n", "1 ", " 1", "a\n\n"]:
        def rec(pre, o, p, n):
            for x in "icsneogI":
                r = step(x, t, p, len(t))
                if r is None: continue
                work.append((t, pre + x, o + r[0]))
                if n > 1 and len(pre) < 2: rec(pre + x, o + r[0], r[1], n - 1)
        rec("", "", 0, 2)
    import os

    def run2(w):
        t, o, want = w
        for a in (0, 1):
            e = chk.r.newdir()
            os.link(d + "/p", e + "/p")
            open(e + "/ops.txt", "w").write(o + "\n")
            rc, out, err = chk.r.exec(e, t.encode("latin1"))
            if rc == 0 and out.decode("latin1") == want + "\n": return 1
        chk.fail("E %r %s" % (t, o), "-O1", "standard input %r, operations %s\nexpected %r\ngot exit %s %r" % (t, o, want, rc, out), {"p.pas": src2, "ops.txt": o + "\n", "stdin.txt": t, "expected.txt": want})
        return 0
    for _, k in pmap(run2, work):
        G.stdin_runs += k
        if chk.full: return


# ---------------------------------------------------------------- readstr
RS = {"i": ("vi@", "integer", "write(vi@:1, ';')"), "l": ("vl@", "longint", "write(vl@:1, ';')"), "r": ("vr@", "real", "write(vr@:22, ';')"), "c": ("vc@", "char", "write(ord(vc@):1, ';')"),
      "s": ("vs@", "string[3]", "write(length(vs@):1, vs@, ';')"), "a": ("va@", "array [1..2] of char", "write(va@, ';')"), "b": ("vb@", "0..255", "write(vb@:1, ';')")}


def readstr_jobs():
    texts = words("1a -", 4) + ["12 34 56", "1.5 -2.5e1", "-7abc", "  5", "255", "+1", "0012x", "a1b2", "9223372036854775807", "x" * 255]
    seqs = ["".join(x) for n in (1, 2, 3) for x in itertools.product(RS, repeat=n)]
    for cfg in (("-O0",), ("-O2",)):
        for b in range(0, len(seqs), 100):
            part = seqs[b:b + 100]
            o = ["program p(input, output);\nvar c: char; n: integer; s: string;\n"]
            for i, q in enumerate(part):
                vs = [(RS[k][0].replace("@", str(j)), RS[k][1], RS[k][2].replace("@", str(j))) for j, k in enumerate(q)]
                o.append("procedure q%d; var %s begin %s readstr(s, %s); %s end;\n" % (i, " ".join("%s: %s;" % v[:2] for v in vs), " ".join("%s := '??';" % v[0] for v in vs if v[0][1] == "a"), ", ".join(v[0] for v in vs), "; ".join(v[2] for v in vs)))
            o.append("begin while not eof do begin read(n); read(c); s := ''; while not eoln do begin read(c); if c = '_' then c := ' '; s := s + c end; case n of %s end; readln; writeln end end.\n" % "; ".join("%d: q%d" % (i, i) for i in range(len(part))))
            rows = []
            for t in texts:
                for i, q in enumerate(part):
                    p, out = 0, ""
                    for k in q:
                        r = step(k, t, p, len(t)) if k != "b" or True else None
                        if r is None: break
                        if k in "sa" and p >= len(t): r = None; break
                        out += r[0]
                        p = r[1]
                    else:
                        rows.append(("%d:%s" % (i, enc(t)), out))
            G.readstr += len(rows)
            yield "R", "".join(o), cfg, rows


def findings():
    yield Case("char at end of line", "rewrite(f); writeln(f, 'a'); reset(f); read(f, c); read(f, c); write(ord(c):1); reset(f); get(f); write(' ', ord(f^):1)", "32 32", decl="var f: text; c: char;\n")


def main():
    chk = Check("C14", "exploration")
    n = run_cases(chk, findings(), [("-O0",)])
    n += run_tapes(chk, jobs())
    n += run_tapes(chk, readstr_jobs())
    stdin_check(chk)
    chk.samples.append({"tape": "0:1_aN|ic", "meaning": "text '1 a\\n', read an integer, then a char"})
    chk.finish(evaluations=n + G.stdin_runs, distinct_nontrivial=G.sequences + G.readstr, exhaustive=True, sequences=G.sequences, texts=G.texts, readstr_evaluations=G.readstr, stdin_evaluations=G.stdin_runs,
               rule="a sequence is one text and one list of read operations, every step of which the language defines; all results are compared with the model's")
