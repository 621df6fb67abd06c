"""Pascal types with sample values, used by several checks. Each type knows how to assign a sample value to a variable
component by component, and how to print one together with the text that prints."""


class T:
    def __init__(self, name, decl, values, ordinal=False, simple=False, glob=""):
        self.name, self.decl, self.values, self.simple, self.glob = name, decl, values, simple, glob


TYPES = """en9 = (qa, qb, qc, qd, qe);
tsub = -5..9; tbyte = 0..255; tlong = longint; tstr = string[10]; tpac = packed array [1..4] of char;
trec = record a: integer; b: char end;
tmix = record c: char; r: real; s: string[5]; d: boolean; l: longint end;
tset = set of 0..9; tbig = set of 0..255; tchs = set of char;
tarr = array [1..3] of integer; tmat = array ['a'..'b', 0..1] of real; tlarge = array [-50..49] of integer;
tra = array [1..2] of trec; tbool = array [boolean] of char; tptr = ^integer; trp = ^trec;
tvar = record k: integer; case z: boolean of true: (i: integer); false: (c: char; e: en9) end;
tnest = record o: record p: tarr; q: char end; w: tset end;
tbytes = array [0..6] of char; tchr1 = record c: char end; trr = record x, y: real end;
tstrd = string; tstra = array [1..2] of tstr;
"""


def q(s):
    return "'" + s.replace("'", "''") + "'"


# name -> pascal type name, [values]
V = {
    "int": ("integer", [7, -30001, 2147483647]),
    "long": ("tlong", [5000000000, -1, -9000000000000000000]),
    "char": ("char", ["x", "Q", " "]),
    "bool": ("boolean", [True, False, True]),
    "enum": ("en9", ["qb", "qe", "qa"]),
    "sub": ("tsub", [-5, 9, 0]),
    "byte": ("tbyte", [255, 0, 128]),
    "real": ("real", [1.5, -2.25, 1048576.125]),
    "str": ("tstr", ["abc", "", "0123456789"]),
    "strd": ("tstrd", ["hello world", "x", "a" * 60]),
    "pac": ("tpac", ["abcd", "wx  ", "::::"]),
    "rec": ("trec", [(1, "a"), (-2, "b"), (2000000000, "c")]),
    "mix": ("tmix", [("m", 0.5, "five5", True, 1), ("n", -8.0, "", False, -1), ("o", 3.25, "xy", True, 1 << 40)]),
    "set": ("tset", [{1, 5}, set(), {0, 9}]),
    "big": ("tbig", [{1, 31, 32, 255}, set(), set(range(100, 140))]),
    "chs": ("tchs", [{97, 98, 48}, set(), set(range(65, 91))]),
    "arr": ("tarr", [(1, 2, 3), (-1, 0, 1), (7, 7, 7)]),
    "mat": ("tmat", [(0.5, 1.5, 2.5, 3.5), (0.0, 0.0, 0.0, 0.0), (-1.0, -2.0, -3.0, -4.0)]),
    "large": ("tlarge", [(1, 3), (5, -7), (0, 0)]),  # element i = a + b*i
    "ra": ("tra", [((1, "a"), (2, "b")), ((3, "c"), (4, "d")), ((-5, "e"), (-6, "f"))]),
    "tbool": ("tbool", [("f", "t"), ("0", "1"), ("-", "+")]),
    "ptr": ("tptr", [1, 2, 3]),
    "var": ("tvar", [(5, True, 99), (6, False, ("v", "qd")), (-7, True, -1)]),
    "nest": ("tnest", [((1, 2, 3), "n", {4}), ((4, 5, 6), "m", {0, 1, 2}), ((0, 0, 0), "z", set())]),
    "bytes": ("tbytes", ["abcdefg", "       ", "7654321"]),
    "chr1": ("tchr1", [("a",), ("b",), ("c",)]),
    "rr": ("trr", [(0.5, -0.5), (1e3, 2e3), (0.0, 1.0)]),
    "stra": ("tstra", [("ab", "cde"), ("", "z"), ("0123456789", "9876543210")]),
}


def lit(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, float): return repr(v) if "e" not in repr(v) else "%.1f" % v
    if isinstance(v, int): return str(v)
    if isinstance(v, set): return "[" + ", ".join(map(str, sorted(v))) + "]"
    return q(v)


def lset(name, v):
    if name != "chs": return lit(v)
    return "[" + ", ".join(q(chr(x)) for x in sorted(v)) + "]"


def assign(name, lv, v):
    """Statements that give lv the value v, component by component; '; '-separated, no trailing ';'."""
    if name == "enum": return "%s := %s" % (lv, v)
    if name in ("set", "big", "chs"): return "%s := %s" % (lv, lset(name, v))
    if name == "rec": return "%s.a := %d; %s.b := %s" % (lv, v[0], lv, q(v[1]))
    if name == "chr1": return "%s.c := %s" % (lv, q(v[0]))
    if name == "rr": return "%s.x := %s; %s.y := %s" % (lv, lit(v[0]), lv, lit(v[1]))
    if name == "mix": return "; ".join("%s.%s := %s" % (lv, f, lit(x)) for f, x in zip("crsdl", v))
    if name == "arr": return "; ".join("%s[%d] := %d" % (lv, i + 1, x) for i, x in enumerate(v))
    if name == "mat": return "; ".join("%s['%s', %d] := %s" % (lv, "ab"[i // 2], i % 2, lit(x)) for i, x in enumerate(v))
    if name == "large": return "for zi := -50 to 49 do %s[zi] := %d + %d * zi" % (lv, v[0], v[1])
    if name == "ra": return "; ".join("%s[%d].a := %d; %s[%d].b := %s" % (lv, i + 1, x[0], lv, i + 1, q(x[1])) for i, x in enumerate(v))
    if name == "tbool": return "%s[false] := %s; %s[true] := %s" % (lv, q(v[0]), lv, q(v[1]))
    if name == "ptr": return "%s := zp[%d]" % (lv, v)
    if name == "var":
        if v[1]: return "%s.k := %d; %s.z := true; %s.i := %d" % (lv, v[0], lv, lv, v[2])
        return "%s.k := %d; %s.z := false; %s.c := %s; %s.e := %s" % (lv, v[0], lv, lv, q(v[2][0]), lv, v[2][1])
    if name == "nest": return assign("arr", lv + ".o.p", v[0]) + "; %s.o.q := %s; %s.w := %s" % (lv, q(v[1]), lv, lit(v[2]))
    if name == "bytes": return "; ".join("%s[%d] := %s" % (lv, i, q(x)) for i, x in enumerate(v))
    if name == "stra": return "; ".join("%s[%d] := %s" % (lv, i + 1, q(x)) for i, x in enumerate(v))
    return "%s := %s" % (lv, lit(v))


def shows(name, lv):
    """Statement printing the value of lv."""
    if name in ("int", "sub", "byte"): return "write(' ', %s:1)" % lv
    if name == "long": return "write(' ', %s:1)" % lv
    if name in ("char",): return "write(' ', %s)" % lv
    if name == "bool": return "if %s then write(' T') else write(' F')" % lv
    if name == "enum": return "write(' ', ord(%s):1)" % lv
    if name == "real": return "write(' ', %s:1:4)" % lv
    if name in ("str", "strd"): return "write(' <', %s, '>', length(%s):1)" % (lv, lv)
    if name == "pac": return "write(' ', %s)" % lv
    if name == "rec": return "write(' ', %s.a:1, %s.b)" % (lv, lv)
    if name == "chr1": return "write(' ', %s.c)" % lv
    if name == "rr": return "write(' ', %s.x:1:2, '/', %s.y:1:2)" % (lv, lv)
    if name == "mix": return "begin write(' ', %s.c, %s.r:1:3, '<', %s.s, '>', %s.l:1); %s end" % (lv, lv, lv, lv, shows("bool", lv + ".d"))
    if name in ("set", "big"): return "begin write(' {'); for zi := 0 to %d do if zi in %s then write(zi:1, ','); write('}') end" % (9 if name == "set" else 255, lv)
    if name == "chs": return "begin write(' {'); for zi := 32 to 126 do if chr(zi) in %s then write(chr(zi)); write('}') end" % lv
    if name == "arr": return "write(' [', %s[1]:1, ' ', %s[2]:1, ' ', %s[3]:1, ']')" % (lv, lv, lv)
    if name == "mat": return "write(' [', %s)" % ", ' ', ".join("%s['%s', %d]:1:2" % (lv, "ab"[i // 2], i % 2) for i in range(4))
    if name == "large": return "begin zs := 0; for zi := -50 to 49 do zs := (zs * 31 + %s[zi]) mod 1000003; write(' ', zs:1) end" % lv
    if name == "ra": return "write(' ', %s[1].a:1, %s[1].b, %s[2].a:1, %s[2].b)" % (lv, lv, lv, lv)
    if name == "tbool": return "write(' ', %s[false], %s[true])" % (lv, lv)
    if name == "ptr": return "write(' ^', %s^:1)" % lv
    if name == "var": return "if %s.z then write(' ', %s.k:1, 'i', %s.i:1) else write(' ', %s.k:1, %s.c, ord(%s.e):1)" % (lv, lv, lv, lv, lv, lv)
    if name == "nest": return "begin %s; write(%s.o.q); %s end" % (shows("arr", lv + ".o.p"), lv, shows("set", lv + ".w"))
    if name == "bytes": return "begin write(' '); for zi := 0 to 6 do write(%s[zi]) end" % lv
    if name == "stra": return "begin %s; %s end" % (shows("str", lv + "[1]"), shows("str", lv + "[2]"))
    raise KeyError(name)


def text(name, v):
    """What shows prints for v."""
    if name in ("int", "sub", "byte", "long"): return " %d" % v
    if name in ("char", "pac", "bytes"): return " " + v
    if name == "bool": return " T" if v else " F"
    if name == "enum": return " %d" % "abcde".index(v[1])
    if name == "real": return " %.4f" % v
    if name in ("str", "strd"): return " <%s>%d" % (v, len(v))
    if name == "rec": return " %d%s" % v
    if name == "chr1": return " " + v[0]
    if name == "rr": return " %.2f/%.2f" % v
    if name == "mix": return " %s%.3f<%s>%d" % (v[0], v[1], v[2], v[4]) + text("bool", v[3])
    if name in ("set", "big"): return " {%s}" % "".join("%d," % x for x in sorted(v))
    if name == "chs": return " {%s}" % "".join(chr(x) for x in sorted(v))
    if name == "arr": return " [%d %d %d]" % v
    if name == "mat": return " [%.2f %.2f %.2f %.2f" % v
    if name == "large":
        s = 0
        for i in range(-50, 50):
            t = s * 31 + v[0] + v[1] * i
            s = abs(t) % 1000003 * (1 if t >= 0 else -1)
        return " %d" % s
    if name == "ra": return " %d%s%d%s" % (v[0] + v[1])
    if name == "tbool": return " %s%s" % v
    if name == "ptr": return " ^%d" % (v * 11)
    if name == "var": return " %di%d" % (v[0], v[2]) if v[1] else " %d%s%d" % (v[0], v[2][0], "abcde".index(v[2][1][1]))
    if name == "nest": return text("arr", v[0]) + v[1] + text("set", v[2])
    if name == "stra": return text("str", v[0]) + text("str", v[1])
    raise KeyError(name)


LOCALS = "var zi, zs: integer;"  # helpers needed by assign/shows, in each routine that uses them
GLOBALS = "type " + TYPES + "var zp: array [1..3] of tptr;\n"  # zp set up by zinit
ZINIT = "procedure zinit; var i: integer; begin for i := 1 to 3 do begin new(zp[i]); zp[i]^ := i * 11 end end;\n"
