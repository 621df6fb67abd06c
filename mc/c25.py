"""C25: every corpus program in every output mode: the emitted IR is accepted by the LLVM tools without complaint and, compiled and linked with
the runtime, behaves as predicted; the AST dump succeeds; the executable links and runs; nothing reports an internal error. Programs under every
kind of file name. One type of every kind (and nest of two) in every place a variable can be, with debug information."""
import itertools, os, re, shutil, subprocess
import core, corpus
from core import Case, Check, THOROUGH, pmap, LLVM

IRCFG = [c for c in itertools.product(("-O0", "-O1", "-O2", "-O3"), ("", "-g"), ("", "-m32"), ("", "-Cr"), ("", "-no-memcpy"))]
IRCFG = [tuple(x for x in c if x) for c in IRCFG]
BAD = re.compile(r"Internal compiler error|Condition failed|LLVM ERROR|PLEASE submit|Stack dump|Assertion", re.I)


def part(k):
    """8 of the 64: every pair of options meets"""
    import c19
    return c19.part(k)


def sh(chk, d, cmd, env=None):
    chk.r.compiles += 0
    return chk.r.popen([chk.r.b.runlim, "60", "64", "0"] + cmd, d, wall=300, env=env or chk.r.realenv)


def emit(chk, d, name, cfg, mode):
    return chk.r.popen([chk.r.b.runlim, "60", "64", "0", chk.r.b.lacsap, "-emit=" + mode] + list(cfg) + [name], d, wall=300)


def through_ir(chk, d, cfg):
    """p.pas -> p.ll -> executable p made by the LLVM tools. Returns an error text or None"""
    rc, out, err = emit(chk, d, "p.pas", cfg, "llvm")
    chk.r.compiles += 1
    text = (err + out).decode("latin1")
    if rc != 0 or not os.path.exists(d + "/p.ll"): return "-emit=llvm fails (exit %s): %s" % (rc, text[-1200:])
    if BAD.search(text): return "internal error with -emit=llvm: " + text[-1200:]
    if os.path.exists(d + "/p"): return "-emit=llvm made an executable"
    rc, out, err = sh(chk, d, [LLVM + "/bin/llvm-as", "p.ll", "-o", "p.bc"])
    if rc != 0 or err.strip(): return "llvm-as (exit %s): %s" % (rc, (err + out).decode("latin1")[-1200:])
    rc, out, err = sh(chk, d, [LLVM + "/bin/opt", "-passes=verify", "-disable-output", "p.bc"])
    if rc != 0 or err.strip(): return "opt -passes=verify (exit %s): %s" % (rc, (err + out).decode("latin1")[-1200:])
    m32 = "-m32" in cfg
    rc, out, err = sh(chk, d, [LLVM + "/bin/llc", "-O0", "-filetype=obj", "-relocation-model=pic"] + (["-mcpu=pentium4"] if m32 else []) + ["p.bc", "-o", "p.o"])
    if rc != 0: return "llc (exit %s): %s" % (rc, (err + out).decode("latin1")[-1200:])
    rc, out, err = sh(chk, d, ["/usr/bin/gcc"] + (["-m32"] if m32 else []) + ["p.o", "-L" + chk.r.b.dir, "-lruntime" + ("-m32" if m32 else ""), "-lm", "-o", "p"])
    if rc != 0: return "linking (exit %s): %s" % (rc, (err + out).decode("latin1")[-1200:])
    return None


def judge(item, r):
    """what is wrong with the output of a corpus program"""
    text = r.out.decode("latin1")
    if r.rc != 0: return "program exit %s: %s" % (r.rc, r.brief()[-600:])
    if item[0] == "cases":
        seg = core.segments(text)
        for i, c in enumerate(item[2]):
            if seg.get(i) != c.expect + "\n": return "case %r: expected %r, got %r" % (c.key, c.expect[:400], (seg.get(i) or "")[:400])
    else:
        got = text.split("\n")
        for j, (t, w) in enumerate(item[3]):
            if j >= len(got) or not (w == got[j] or got[j] == w): return "sequence %r: expected %r, got %r" % (t, w, got[j] if j < len(got) else None)
    return None


def source(item):
    if item[0] == "cases": return core.render(item[2], item[3]), "".join(c.stdin for c in item[2]).encode("latin1")
    return item[2], ("\n".join(t for t, _ in item[3]) + "\n").encode("latin1")


def run_item(chk, item, cfg):
    if chk.full: return 0
    src, stdin = source(item)
    d = chk.r.newdir()
    try:
        with open(d + "/p.pas", "wb") as f: f.write(src.encode("latin1"))
        why = through_ir(chk, d, cfg)
        r = core.Res()
        r.crc = 0
        if not why:
            r.rc, r.out, r.err = chk.r.exec(d, stdin, cpu=20, fsize=64)
            why = judge(item, r)
        if why:
            if item[0] == "cases" and len(item[2]) > 1:  # the case itself
                before = len(chk.violations)
                for c in item[2]:
                    run_item(chk, ("cases", item[1], [c], item[3]), cfg)
                    if len(chk.violations) > before: return len(item[2])
            key = item[2][0].key if item[0] == "cases" else item[1]
            chk.fail("ir " + key, " ".join(cfg), why, core.replay_files(src, cfg, "", r, stdin))
        return len(item[2] if item[0] == "cases" else item[3])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ast_item(chk, item, cfg):
    if chk.full: return 0
    src, _ = source(item)
    d = chk.r.newdir()
    try:
        with open(d + "/p.pas", "wb") as f: f.write(src.encode("latin1"))
        rc, out, err = emit(chk, d, "p.pas", cfg, "ast")
        chk.r.compiles += 1
        left = sorted(set(os.listdir(d)) - {"p.pas"})
        if rc != 0 or BAD.search((err + out).decode("latin1")) or not (err + out).strip() or left:
            if item[0] == "cases" and len(item[2]) > 1:
                before = len(chk.violations)
                for c in item[2]:
                    ast_item(chk, ("cases", item[1], [c], item[3]), cfg)
                    if len(chk.violations) > before: return 1
            r = core.Res()
            r.crc, r.cerr = rc, (err + out)[-1500:]
            chk.fail("ast " + (item[2][0].key if item[0] == "cases" else item[1]), " ".join(cfg), "-emit=ast: exit %s, files %s: %s" % (rc, left, (err + out).decode("latin1")[-800:]), core.replay_files(src, cfg, "", r))
        return 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- file names
NAMES = ["a", "Prog", "x.y", "two words", "it's", 'quo"te', "dol$HOME", "back`id`", "semi;touch hacked", "amp&x", "par(en)", "pipe|cat", "star*", "q?", "tilde~", "a#b", "per%cent", "eq=1", "comma,x", "bang!", "new'\"mix", "ue\xc3\xbc", "long" * 50,
         "sub/p", "sub dir/p q", "./dot", "../up", "sub/../p", "-dash", "a.pas", "lt<gt>", "back\\slash", "brace{a,b}", "[x]", "tab\there", "@at", "1", "caret^"]


def names(chk):
    n = [0]
    src = "program nm(output);\nvar i: integer;\nbegin\n  for i := 1 to 3 do write(i:1);\n  writeln(' ok')\nend.\n"

    def one(job):
        nm, mode, cfg = job
        if chk.full: return
        top = chk.r.newdir()
        d = top + "/cwd"
        os.makedirs(d + "/sub")
        os.makedirs(d + "/sub dir")
        try:
            path = os.path.join(d, nm)
            with open(path + ".pas", "w") as f: f.write(src)
            before = set(os.path.join(a, f) for a, _, fs in os.walk(top) for f in fs)
            arg = ("./" if nm.startswith("-") else "") + nm + ".pas"
            rc, out, err = emit(chk, d, arg, cfg, mode)
            chk.r.compiles += 1
            made = set(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(top) for f in fs) - set(os.path.relpath(b, d) for b in before)
            want = {os.path.normpath(nm), os.path.normpath(nm) + ".o"} if mode == "exe" else {os.path.normpath(nm) + ".ll"}
            why = None
            if rc != 0: why = "exit %s: %s" % (rc, (err + out).decode("latin1")[-600:])
            elif made - want or os.path.normpath(nm) + ("" if mode == "exe" else ".ll") not in made: why = "made the files %s, expected %s" % (sorted(made), sorted(want))
            elif mode == "exe":
                rc, out, err = chk.r.popen([chk.r.b.runlim, "10", "16", "0", "./" + nm], d)
                if rc != 0 or out != b"123 ok\n": why = "the program gives exit %s, %r" % (rc, out)
            else:
                rc, out, err = sh(chk, d, [LLVM + "/bin/llvm-as", "./" + nm + ".ll", "-o", "/dev/null"])
                if rc != 0: why = "llvm-as: " + err.decode("latin1")[-500:]
            n[0] += 1
            if why: chk.fail("name %s %s" % (nm, mode), " ".join(cfg), why, {"p.pas": src})
        finally:
            shutil.rmtree(top, ignore_errors=True)
    for _ in pmap(one, [(nm, m, c) for nm in NAMES for m in ("exe", "llvm") for c in (("-O1",), ("-O0", "-g"), ("-m32", "-O2"))]): pass
    return n[0]


# ---------------------------------------------------------------- every type everywhere
TY = {"int": "integer", "char": "char", "bool": "boolean", "real": "real", "long": "longint", "enum": "(e1@N, e2@N, e3@N)", "sub": "-3..7", "csub": "'a'..'f'", "str": "string[7]", "string": "string", "chars": "packed array [1..5] of char", "cplx": "complex",
      "ptr": "^integer", "text": "text", "file": "file of integer", "set": "set of 0..40", "cset": "set of char", "eset": "set of (f1@N, f2@N)", "fn": None}
W = {"plain": "%s", "arr": "array [1..3] of %s", "neg": "array [-5..-2] of %s", "arr2": "array [boolean, 'a'..'c'] of %s", "rec": "record h: char; v: %s; t: integer end", "var": "record h: integer; case boolean of false: (c: char); true: (v: %s) end", "ptr": "^%s", "file": "file of %s",
     "set": "set of %s", "packed": "packed record h: boolean; v: %s end"}
SCALAR = {"char", "bool", "enum", "csub", "sub"}


def typed(ty, w, w2=None):
    """a program using a type in every place: the compiler must give valid code (content is checked elsewhere)"""
    base = TY[ty] if not w2 or ty != "string" else "string[20]"  # with -no-memcpy, long arrays take the compiler minutes
    # a name for the element type, as most type constructors need one in parameters
    decl = "type b@N = %s; w@N = %s;\n" % (base, W[w] % "b@N")
    tn = "w@N"
    if w2:
        decl += "type z@N = %s;\n" % (W[w2] % "w@N")
        tn = "z@N"
    isfile = ty in ("text", "file") or w == "file" or w2 == "file"
    g = decl + "var gv@N: %s;\nprocedure vp@N(var q: %s); begin end;\n" % (tn, tn)
    body = "vp@N(gv@N); vp@N(lv); write(nest:1)"
    if not isfile:
        g += "procedure vv@N(q: %s); var r: %s; procedure inn; begin r := q; vp@N(r) end; begin inn end;\n" % (tn, tn)
        g += "function ff@N(var q: %s): integer; begin with rr@N do begin end; ff@N := 1 end;\n".replace("with rr@N do begin end; ", "") % tn
        body += "; lv := gv@N; gv@N := lv; vv@N(gv@N); vv@N(lv); write(ff@N(lv):1); new(hp); hp^ := lv; gv@N := hp^; dispose(hp); fr.f := lv; lv := fr.f; fa[2] := lv; gv@N := fa[2]; write('k')"
        d = "var lv: %s; hp: ^%s; fr: record c: char; f: %s end; fa: array [1..2] of %s;\nfunction nest: integer; begin vp@N(lv); nest := 7 end;" % (tn, tn, tn, tn)
        e = "71k"
    else:
        d = "var lv: %s;\nfunction nest: integer; begin vp@N(lv); nest := 7 end;" % tn
        e = "7"
    return Case("type %s %s%s" % (ty, w, " " + w2 if w2 else ""), body, e, decl=d, glob=g)


def types():
    for t in TY:
        if not TY[t]: continue
        for w in W:
            if w == "set" and t not in SCALAR or w == "file" and t in ("text", "file"): continue
            if w == "var" and t in ("text", "file"): continue
            yield typed(t, w)
            for w2 in W:
                if w2 == "set" or w2 in ("file", "var") and (w == "file" or t in ("text", "file")): continue
                if w2 == "plain": continue
                if not THOROUGH and (hash3(t, w, w2) % 4): continue
                yield typed(t, w, w2)


def hash3(*a):
    h = 0
    for x in "".join(a): h = (h * 31 + ord(x)) % 1000003
    return h


def main():
    chk = Check("C25", "exploration")
    items = corpus.load(200, 10, 60, 60) if THOROUGH else corpus.load(14, 1, 40, 14)
    ty = list(types())
    items += [("cases", "types %d" % i, ty[i:i + 24], "") for i in range(0, len(ty), 24)]
    total = sum(len(i[2]) if i[0] == "cases" else len(i[3]) for i in items)
    n = 0
    for i in items[::8]: chk.samples.append({"program": i[1], "kind": i[0], "first": i[2][0].key if i[0] == "cases" else i[3][0][0][:80]})

    def jobs():
        for i, it in enumerate(items):
            cf = IRCFG if THOROUGH else part(i)
            t = it[1].startswith("types")
            for k, cfg in enumerate(cf):
                if THOROUGH or k % 2 == i // 2 % 2: yield run_item, it, cfg
                if t and (THOROUGH or k % 4 == (i + 1) // 2 % 4): yield corpus.run_item, it, cfg
            yield ast_item, it, ()
            yield ast_item, it, ("-Cr",)
    for _, k in pmap(lambda j: j[0](chk, *j[1:]), jobs()): n += k
    nm = names(chk)
    chk.finish(evaluations=n + nm, distinct_nontrivial=total + len(NAMES), exhaustive=True, programs=len(items), cases=total, types=len(ty), file_names=len(NAMES),
               rule="every program (corpus cases; every kind of type and nest of two in every place) x output modes executable, IR and AST x option lists in which all pairs of options meet; "
               "IR is assembled, verified, compiled by llc and linked with the runtime, and the program's output compared with the prediction; every kind of file name in both modes")


if __name__ == "__main__":
    main()
