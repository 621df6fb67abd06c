"""C19: the programs of the corpus, copies of values of every size, and halting, under the product of all options: always the predicted
output and exit status."""
import itertools, os
import core, corpus
from core import Case, Check, THOROUGH, pmap, run_cases

OPTS = (("-O0", "-O1", "-O2", "-O3"), ("", "-g"), ("", "-no-memcpy"), ("", "-m32"), ("", "-Cr"))
ALL = [tuple(x for x in c if x) for c in itertools.product(*OPTS)]


def part(k):
    """8 of the 64 lists in which every pair of options occurs in all combinations; the eight parts make up ALL"""
    out = []
    for o, g in itertools.product(range(4), range(2)):
        lo, hi = o & 1, o >> 1
        out.append(tuple(x for x in (OPTS[0][o], OPTS[1][g], OPTS[2][g ^ lo ^ (k & 1)], OPTS[3][g ^ hi ^ (k >> 1 & 1)], OPTS[4][g ^ lo ^ hi ^ (k >> 2 & 1)]) if x))
    return out


assert set(c for k in range(8) for c in part(k)) == set(ALL)


# ---------------------------------------------------------------- copies
def fields(kind, n):
    """(declaration, statements that fill v from a seed, expression that makes a checksum) of a type of about n bytes"""
    if kind == "chars":
        return "packed array [1..%d] of char" % n, "for i := 1 to %d do @v[i] := chr((i * 7 + s) mod 256)" % n, lambda s: [(i * 7 + s) % 256 for i in range(1, n + 1)], "for i := 1 to %d do put1(ord(@v[i]))" % n
    if kind == "ints":
        return "array [0..%d] of integer" % (n - 1), "for i := 0 to %d do @v[i] := i * 11 + s" % (n - 1), lambda s: [i * 11 + s for i in range(n)], "for i := 0 to %d do put1(@v[i])" % (n - 1)
    if kind == "bytes":  # a record of n one-byte fields
        fs = ["b%d" % i for i in range(n)]
        return "record %s: char end" % ", ".join(fs), "; ".join("@v.%s := chr((%d + s) mod 256)" % (f, i * 3) for i, f in enumerate(fs)), lambda s: [(i * 3 + s) % 256 for i in range(n)], "; ".join("put1(ord(@v.%s))" % f for f in fs)
    if kind == "mixed":  # char, integer, char, longint ...
        ts = [("char", "chr((%d + s) mod 256)", "ord(%s)"), ("integer", "%d + s", "%s"), ("boolean", "odd(%d + s)", "ord(%s)"), ("longint", "%d + s", "L%s")]
        fs = [(("f%d" % i,) + ts[i % 4]) for i in range(n)]
        val = lambda i, s: ((i * 5 + s) % 256, i * 5 + s, (i * 5 + s) % 2, (i * 5 + s) % 65536)[i % 4]
        return "record %s end" % "; ".join("%s: %s" % (f, t) for f, t, _, _ in fs), "; ".join("@v.%s := %s" % (f, e % (i * 5)) for i, (f, t, e, _) in enumerate(fs)), lambda s: [val(i, s) for i in range(n)], "; ".join("putl(@v.%s)" % f if o[0] == "L" else "put1(%s)" % (o % ("@v." + f)) for f, t, e, o in fs)
    if kind == "nest":  # an array of pairs in a record, between odd fields
        return "record h: char; a: array [1..%d] of record x: char; y: integer end; t: boolean end" % n, "@v.h := chr(s mod 256); @v.t := odd(s); for i := 1 to %d do begin @v.a[i].x := chr((i + s) mod 256); @v.a[i].y := i * s end" % n, \
            lambda s: [s % 256] + [x for i in range(1, n + 1) for x in ((i + s) % 256, i * s)] + [s % 2], "put1(ord(@v.h)); for i := 1 to %d do begin put1(ord(@v.a[i].x)); put1(@v.a[i].y) end; put1(ord(@v.t))" % n
    if kind == "variant":
        return "record h: char; case k: boolean of false: (a: packed array [1..%d] of char); true: (w: integer) end" % n, "@v.h := chr(s mod 256); @v.k := false; for i := 1 to %d do @v.a[i] := chr((i * 5 + s) mod 256)" % n, \
            lambda s: [s % 256, 0] + [(i * 5 + s) % 256 for i in range(1, n + 1)], "put1(ord(@v.h)); put1(ord(@v.k)); for i := 1 to %d do put1(ord(@v.a[i]))" % n
    if kind == "string":
        return "string[%d]" % n, "@v := ''; for i := 1 to %d do @v := @v + chr(65 + (i + s) mod 26)" % n, lambda s: [n] + [65 + (i + s) % 26 for i in range(1, n + 1)], "put1(length(@v)); for i := 1 to %d do put1(ord(@v[i]))" % n
    raise KeyError(kind)


def checksum(vals):
    h = 17
    for v in vals: h = (h * 31 + v) % 1000003
    return h


CTX = ["x := y", "val", "ref", "result", "elem", "field", "heap", "with", "swap", "chain"]
COPYHEAD = """
type pint = ^integer;
var hash: integer;
procedure put1(n: integer); begin hash := (hash * 31 + n) mod 1000003; if hash < 0 then hash := hash + 1000003 end;
procedure putl(n: longint); var i: integer; begin i := 0; while n > i do i := i + 1; put1(i) end;
"""


def copy_case(kind, n):
    text, fill, vals, show = fields(kind, n)
    glob = "type t@N = %s; w@N = record g1: char; v: t@N; g2: char end;\n" % text
    glob += "var x@N, y@N: t@N; a@N: array [1..3] of t@N; r@N: w@N; p@N: ^w@N;\n"
    glob += "procedure fill@N(var q: t@N; s: integer); var i: integer; begin %s end;\n" % fill.replace("@v", "q")
    glob += "procedure sum@N(var q: t@N); var i: integer; begin hash := 17; %s; write(hash, ' ') end;\n" % show.replace("@v", "q")
    glob += "procedure val@N(q: t@N); begin sum@N(q); fill@N(q, 99); sum@N(q) end;\n"
    glob += "procedure twice@N(c: char; q: t@N; d: char; z: t@N); begin write(c, d); sum@N(q); sum@N(z); q := z; fill@N(z, 3); sum@N(q); sum@N(z) end;\n"
    glob += "procedure keep@N(protected q: t@N); begin val@N(q) end;\n"
    glob += "function res@N(s: integer): t@N; var l: t@N; begin fill@N(l, s); res@N := l end;\n"
    glob += "function pass@N(q: t@N): t@N; begin pass@N := q end;\n"
    cs = lambda s: "%s " % checksum(vals(s))
    st, exp = [], []

    def step(s, e):
        st.append(s)
        exp.append(e)
    W = lambda v: "write(%s:1)" % v
    num = lambda s: "%d " % checksum(vals(s))
    step("fill@N(x@N, 1); fill@N(y@N, 2); x@N := y@N; sum@N(x@N); fill@N(y@N, 4); sum@N(x@N); sum@N(y@N)", [2, 2, 4])
    step("val@N(y@N); sum@N(y@N)", [4, 99, 4])
    step("fill@N(x@N, 5); twice@N('<', x@N, '>', y@N); sum@N(x@N); sum@N(y@N)", ["<>", 5, 4, 4, 3, 5, 4])
    step("keep@N(x@N); sum@N(x@N)", [5, 99, 5])
    step("x@N := res@N(6); sum@N(x@N); y@N := pass@N(x@N); sum@N(y@N); y@N := pass@N(pass@N(res@N(7))); sum@N(y@N); sum@N(x@N)", [6, 6, 7, 6])
    step("for k := 1 to 3 do fill@N(a@N[k], k + 20); k := 2; a@N[k + 1] := a@N[k - 1]; for k := 1 to 3 do sum@N(a@N[k]); a@N[1] := y@N; a@N[2] := res@N(8); for k := 1 to 3 do sum@N(a@N[k]); val@N(a@N[3])", [21, 22, 21, 7, 8, 21, 21, 99])
    step("r@N.g1 := '('; r@N.g2 := ')'; r@N.v := y@N; write(r@N.g1); sum@N(r@N.v); write(r@N.g2); val@N(r@N.v); x@N := r@N.v; sum@N(x@N)", ["(", 7, ")", 7, 99, 7])
    step("new(p@N); p@N^.g1 := '['; p@N^.g2 := ']'; p@N^.v := res@N(9); write(p@N^.g1); sum@N(p@N^.v); write(p@N^.g2); r@N := p@N^; fill@N(p@N^.v, 10); write(r@N.g1); sum@N(r@N.v); write(r@N.g2)", ["[", 9, "]", "[", 9, "]"])
    step("with r@N do begin v := p@N^.v; sum@N(v); val@N(v) end; p@N^ := r@N; sum@N(p@N^.v); dispose(p@N)", [10, 10, 99, 10])
    step("l1 := x@N; l2 := y@N; l3 := l1; l1 := l2; l2 := l3; fill@N(l3, 30); sum@N(l1); sum@N(l2); sum@N(l3); x@N := x@N; sum@N(x@N)", [7, 7, 30, 7])
    step("fill@N(x@N, 40); l1 := x@N; fill@N(l2, 41); rec(2, l1, l2); sum@N(l1); sum@N(l2)", [40, 41, 40, 41, 40, 41, 41, 40])
    decl = "var k: integer; l1, l2, l3: t@N;\nprocedure rec(d: integer; q: t@N; var z: t@N); var m: t@N; begin sum@N(q); sum@N(z); m := z; if d > 0 then rec(d - 1, q, m); if d = 2 then begin z := q; fill@N(q, 41) ; l1 := q end end;"
    e = "".join(x if isinstance(x, str) else "%d " % checksum(vals(x)) for xs in exp for x in xs)
    return Case("copy %s %d" % (kind, n), "\n" + ";\n".join(st) + "\n", e, decl=decl, glob=glob)


def copies():
    sizes = list(range(1, 41)) + [47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255]
    if not THOROUGH: sizes = [1, 2, 4, 7, 8, 15, 16, 17, 24, 33, 64, 255]
    for kind in ("chars", "ints", "bytes", "mixed", "nest", "variant", "string"):
        for n in sizes:
            if kind in ("bytes", "mixed") and n > (70 if THOROUGH else 33): continue
            if kind in ("ints", "nest") and not THOROUGH and n > 20 and n not in (31, 32, 33, 64, 100): continue
            if kind == "string" and n > 255: continue
            yield copy_case(kind, n)


# ---------------------------------------------------------------- halt
HALT = """program p(input, output);
type rec = record a: array [1..20] of integer end;
var n, w, depth: integer; ch: char; f: text;
procedure stop; begin write('stop', n:1); halt(n) end;
function fstop(k: integer): integer; begin write('f'); if k = 0 then halt(n); fstop := k end;
procedure deep(k: integer; r: rec); procedure inner; begin if k = 0 then stop else deep(k - 1, r) end; begin inner end;
procedure viaproc(procedure q); begin q; write('never') end;
procedure viaarg; var r: rec; begin deep(3, r) end;
begin
  readln(w, n);
  write('start '); writeln(w:1);
  case w of
    0: ;
    1: halt(n);
    2: stop;
    3: writeln(1, fstop(0), 2);
    4: viaarg;
    5: viaproc(stop);
    6: repeat n := n; if n >= 0 then halt(n) until false;
    7: begin for depth := 3 downto 0 do if fstop(depth) < 0 then writeln('no') end;
    8: begin if n >= 0 then writeln('short') else w := fstop(0); halt(n + 0) end;
    9: begin rewrite(f); writeln(f, 'x'); reset(f); while not eof(f) do begin read(f, ch); if ch = 'x' then stop end end;
    10: halt;
    11: with output do begin write('w'); stop end
  end;
  writeln('end')
end.
"""
HALT = HALT.replace("    11: with output do begin write('w'); stop end\n", "    11: begin write('w'); viaarg end\n")


def halt_expect(w, n):
    o = "start %d\n" % w
    s = "stop%d" % n
    if w == 0: return o + "end\n", 0
    if w == 1 or w == 6: return o, n
    if w in (2, 4, 5, 9): return o + s, n
    if w == 3: return o + "f", n
    if w == 7: return o + "ffff", n
    if w == 8: return o + "short\n", n
    if w == 10: return o, 0
    return o + "w" + s, n


def halts(chk, cfgs):
    ns = list(range(256)) if THOROUGH else [0, 1, 2, 3, 7, 42, 100, 126, 127, 128, 129, 200, 254, 255]
    done = 0

    def one(cfg):
        p = core.TapeProgram(chk, HALT, cfg)
        k = 0
        try:
            if not p.ok:
                chk.fail("halt compile", " ".join(cfg), "does not compile: " + p.err[-1500:], {"p.pas": HALT})
                return 0
            for w in range(12):
                for n in (ns if w == 1 else [0, 1, 3, 200] if w not in (0, 10) else [5]):
                    want, rc = halt_expect(w, n)
                    r, _ = p.lines(["%d %d" % (w, n)], 10)
                    k += 1
                    o = r.out.decode("latin1")
                    if (r.rc != rc or w == 3 and not o.startswith("start") or w != 3 and o != want) and not chk.full:
                        chk.fail("halt %d %d" % (w, n), " ".join(cfg), "expected exit %d and %r\ngot %s" % (rc, want, r.brief()),
                                 core.replay_files(HALT, cfg, want, r, ("%d %d\n" % (w, n)).encode()))
            return k
        finally:
            p.close()
    for _, k in pmap(one, cfgs): done += k
    return done


def main():
    chk = Check("C19", "exploration")
    items = corpus.load(300, 16, 200, 60) if THOROUGH else corpus.load(30, 2, 100, 30)
    cs = list(copies())
    n = [0, 0]
    for i, it in enumerate(items[::9]): chk.samples.append({"program": it[1], "kind": it[0], "options": "all" if THOROUGH else [" ".join(c) for c in part(i)][:4]})

    def jobs():
        for i, it in enumerate(items):
            for cfg in (ALL if THOROUGH else part(i)): yield it, cfg

    def one(job):
        return 0 if chk.full else corpus.run_item(chk, *job)
    for _, k in pmap(one, jobs()): n[0] += k
    chunks = [cs[i:i + 16] for i in range(0, len(cs), 16)]

    def cjobs():
        for i, c in enumerate(chunks):
            for cfg in (ALL if THOROUGH else part(i)): yield ("cases", "", c, COPYHEAD), cfg
    for _, k in pmap(one, cjobs()): n[1] += k
    h = halts(chk, ALL)
    total = sum(len(i[2] if i[0] == "cases" else i[3]) for i in items)
    chk.finish(evaluations=n[0] + n[1] + h, distinct_nontrivial=total + len(cs), exhaustive=True, corpus_programs=len(items), corpus_cases=total, copies=len(cs), halts=h,
               configurations=len(ALL), rule="every corpus program (cases of the other checks, evenly spread over their enumerations) and every copy program under %s; every halt under all 64 option lists; "
               "output and exit status compared with the prediction" % ("all 64 option lists" if THOROUGH else "an eighth of the 64 option lists in which every pair of options meets, the eighths taking turns"))


if __name__ == "__main__":
    main()
