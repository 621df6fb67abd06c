"""The corpus: programs of the other checks, chosen by a fixed rule (evenly spread over each check's enumeration), with their predicted output.
Each item is ("cases", name, [Case], header text) or ("tape", name, source, [(tape, expected line)])."""
import importlib, json, os, pickle, subprocess, sys, time
import core

SOURCES = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c20", "c21", "c23", "c24"]


class _Done(Exception):
    pass


class _Any:
    """stands in for a Check: takes anything, holds nothing"""
    full = False

    def __init__(self, *a, **k):
        self.samples, self.known, self.assumptions, self.cov = [], {}, [], {}

    def finish(self, **k):
        raise _Done

    def fail(self, *a, **k):
        pass


def spread(n, want):
    if n <= want: return list(range(n))
    return [i * n // want + (n // want) // 2 for i in range(want)]


def capture(name, ncases, ndrivers, ntapes, size):
    if name == "c10": ncases, size = ncases // 2, size // 2
    m = importlib.import_module(name)
    cases, tapes, known = [], {}, core.known_findings(name.upper())

    def take(gen, header):
        for c in gen:
            if c is not None and c.key not in known: cases.append((c, header))

    def standard(prop, gen, g, header, cfgs, rule, **kw):
        take(gen(), header)
        raise _Done

    def run_cases(chk, gen, cfgs, batch=60, header="", **kw):
        if kw.get("stdin"): return 0
        take(gen, header)
        return 0

    def run_tapes(chk, jobs, chunk=0):
        for nm, src, cfg, tp in jobs:
            if name == "c03" and "-m32" not in cfg: continue
            if (nm, src) not in tapes and tp: tapes[nm, src] = [tp[i] for i in spread(len(tp), ntapes)] + tp[-2:]
        return 0
    core.run_cases = run_cases
    if hasattr(m, "sequences") and name == "c12":  # shorter histories are enough here
        full = m.sequences
        m.sequences = lambda mod, depth, *a: full(mod, min(depth, 3), *a)
    for n, f in (("standard", standard), ("run_cases", run_cases), ("run_tapes", run_tapes), ("Check", _Any), ("run_programs", lambda *a: 0), ("stdin_check", lambda c: None), ("findings", lambda: [])):
        if hasattr(m, n): setattr(m, n, f)
    try:
        m.main()
    except _Done:
        pass
    except AttributeError as e:  # the parts of a check after its cases need a real Check
        if "_Any" not in str(e): raise
    out = []
    byhdr = {}
    for c, h in cases: byhdr.setdefault(h if isinstance(h, str) else id(h), (h, []))[1].append(c)
    for h, cs in byhdr.values():
        want = max(1, ncases * len(cs) // len(cases))
        ch = [cs[i] for i in spread(len(cs), want)]
        if name == "c08":  # its cases share program-level names with their neighbours only
            ch = [c for j in spread(len(cs) // 50, max(1, want // size)) for c in cs[j * 50:j * 50 + size]]
        for i in range(0, len(ch), size):
            b = ch[i:i + size]
            out.append(("cases", "%s %d" % (name, i // size), b, h(b) if callable(h) else h))
    ks = list(tapes)
    for i in spread(len(ks), ndrivers):
        out.append(("tape", "%s %s" % (name, ks[i][0]), ks[i][1], tapes[ks[i]]))
    return out


def load(ncases=120, ndrivers=6, ntapes=150, size=30, only=None):
    """runs the captures in processes of their own"""
    have = [s for s in (only or SOURCES) if os.path.exists(core.VERIF + "/mc/%s.py" % s)]

    def one(s):
        p = subprocess.run([sys.executable, "-B", core.VERIF + "/mc/corpus.py", s, str(ncases), str(ndrivers), str(ntapes), str(size)], stdout=subprocess.PIPE, cwd=core.VERIF + "/mc")
        if p.returncode: raise RuntimeError("corpus %s" % s)
        return pickle.loads(p.stdout)
    res = []
    for _, r in core.pmap(one, have): res += r
    return res


def run_item(chk, item, cfg, cpu=20):
    """one corpus program under one list of options: the predicted output. Returns the number of cases."""
    if item[0] == "cases":
        core._run_batch(chk, item[2], cfg, item[3], b"", cpu)
        return len(item[2])
    core.run_tapes(chk, [(item[1], item[2], cfg, item[3])], chunk=20000)
    return len(item[3])


if __name__ == "__main__":
    sys.modules["__main__"].__dict__.pop("corpus", None)
    out, sys.stdout = sys.stdout, sys.stderr
    t = time.time()
    r = capture(sys.argv[1], *map(int, sys.argv[2:6]))
    if os.environ.get("MC_V"): print(sys.argv[1], len(r), sum(len(x[2]) if x[0] == "cases" else len(x[3]) for x in r), "%.1fs" % (time.time() - t), file=sys.stderr)
    out.buffer.write(pickle.dumps(r))
