"""The programs of T01: C functions of three int arguments, systematic ones made here and written ones in harness/e2e."""
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ITY = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long"]
SHORT = {"char": "c", "signed char": "sc", "unsigned char": "uc", "short": "s", "unsigned short": "us", "int": "i", "unsigned": "u", "long": "l", "unsigned long": "ul", "float": "f"}
OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">="]
UNS = ("unsigned", "unsigned long")


def guard(op, y, x=None):
    """What C needs for x op y to be defined."""
    if op in ("<<", ">>"):
        return "if (%s < 0 || %s > 31) return -1;" % (y, y)
    if op in ("/", "%"):
        return "if (%s == 0 || %s == -1) return -1;" % (y, y)
    return ""


def lvalues():
    """name, declarations at file scope, declarations in the function, the lvalue (of type T)"""
    return [("global", "T g_@;", "", "g_@"), ("static", "", "static T v;", "v"), ("local", "", "T v;", "v"), ("array", "", "T v[5];", "v[c & 3]"), ("carray", "T g_@[7];", "", "g_@[5]"),
            ("pointer", "T g_@;", "T *p = &g_@;", "*p"), ("member", "struct s_@ { char x; T m; int y; } g_@;", "", "g_@.m"), ("arrow", "struct s_@ { char x; T m; int y; };", "struct s_@ v[2], *p = v;", "p[1].m"), ("param", "", "", "*q")]


def binary():
    """x op y for each pair of types and each operator"""
    out = []
    for t1 in ITY:
        for t2 in ITY:
            for op in OPS:
                out.append(("", "T x; U y; x = a; y = b; %s return x %s y;".replace("T", t1, 1).replace("U", t2, 1) % (guard(op, "(int)y" if t2 in UNS else "y"), op)))
    return out


def assign():
    """v op= b, ++ and -- on every kind of lvalue of each type"""
    out = []
    for ty in ITY:
        for n, (name, g, d, lv) in enumerate(lvalues()):
            sig = ty if name == "param" else ""
            for op in OPS[:10]:
                y = "(b & 31)" if op in ("<<", ">>") else "b"
                gd = guard(op, y) if op in ("/", "%") else ""
                if name == "param":
                    out.append(("static int h_@(%s *q, int b) { *q %s= %s; return *q; }" % (ty, op, y), "%s v; int r; v = a; %s r = h_@(&v, b); return v * 7 + r;" % (ty, gd)))
                else:
                    out.append((g.replace("T", ty), "%s int r; %s = a; %s r = (%s %s= %s); return %s * 7 + r;" % (d.replace("T", ty), lv, gd, lv, op, y, lv)))
            for e in ("++%s", "--%s", "%s++", "%s--"):
                if name == "param":
                    out.append(("static int h_@(%s *q) { return %s; }" % (ty, e % "(*q)"), "%s v; int r; v = a; r = h_@(&v); return v * 7 + r;" % ty))
                else:
                    out.append((g.replace("T", ty), "%s int r; %s = a; r = %s; return %s * 7 + r;" % (d.replace("T", ty), lv, e % ("(%s)" % lv), lv)))
    return out


KS = ["0", "1", "-1", "2", "3", "-3", "8", "-8", "31", "100", "127", "128", "255", "256", "-128", "32767", "32768", "-32768", "65535", "65536", "0x40000000", "0x7fffffff", "(-0x7fffffff-1)"]
KU = ["0u", "1u", "2u", "3u", "8u", "31u", "255u", "65536u", "0x7fffffffu", "0x80000000u", "0xfffffff0u", "0xffffffffu"]


def constant():
    """an operand is a constant: folding, identities, powers of two"""
    out = []
    for ty, ks in (("int", KS), ("unsigned", KU), ("int", KU), ("unsigned", KS), ("short", KS[:14]), ("unsigned char", KS[:14])):
        for op in OPS:
            for k in ks:
                v = int(eval(k.rstrip("u"))) if k != "(-0x7fffffff-1)" else -2 ** 31
                if op in ("<<", ">>"):
                    if 0 <= v <= 31:
                        out.append(("", "%s x; x = a; return x %s %s;" % (ty, op, k)))
                    out.append(("", "return %s %s (a & 31);" % (k, op)))
                elif op in ("/", "%"):
                    if v != 0 and (v != -1 or ty in UNS or k.endswith("u")):
                        out.append(("", "%s x; x = a; return x %s %s;" % (ty, op, k)))
                    out.append(("", "%s x; x = a; if (x == 0 || (int)x == -1) return 5; return %s %s x;" % (ty, k, op)))
                else:
                    out.append(("", "%s x; x = a; return x %s %s;" % (ty, op, k)))
                    out.append(("", "%s x; x = a; return %s %s x;" % (ty, k, op)))
    return out


def fold():
    """both operands constant"""
    out = []
    for ks in (KS, KU):
        for op in OPS:
            for i, k in enumerate(ks):
                for j, l in enumerate(ks):
                    if (i * 5 + j * 3) % 7 and (i, j) != (len(ks) - 1, len(ks) - 1):
                        continue
                    v, w = (int(eval(x.rstrip("u"))) if x != "(-0x7fffffff-1)" else -2 ** 31 for x in (k, l))
                    if op in ("<<", ">>") and not 0 <= w <= 31 or op in ("/", "%") and (w == 0 or (w == -1 and ks is KS)):
                        continue
                    if ks is KS and op in "+-*" and not -2 ** 31 <= eval("%d%s%d" % (v, op, w) if w >= 0 else "%d%s(%d)" % (v, op, w)) < 2 ** 31:
                        continue
                    if ks is KS and op == "<<" and not 0 <= v << w < 2 ** 31:
                        continue
                    out.append(("int k_@ = (%s %s %s) + 1;" % (k, op, l), "return (%s %s %s) + k_@ + a;" % (k, op, l)))
    return out


def casts():
    out = []
    for t1 in ITY:
        for t2 in ITY:
            out.append(("", "return (%s)(%s)a;" % (t1, t2)))
            out.append(("static %s h_@(%s x, %s y) { return x + y; }" % (t1, t2, t1), "return h_@(a, b);"))
        for k in KS:
            if "short" in t1:   # the assembler rejects initialised 16-bit data
                out.append(("", "%s k = (%s)%s; return (%s)%s + k * 3 + a;" % (t1, t1, k, t1, k)))
            else:
                out.append(("%s k_@ = (%s)%s;" % (t1, t1, k), "return (%s)%s + k_@ * 3 + a;" % (t1, k)))
        out.append(("", "return -(%s)a;" % t1))
        out.append(("", "return ~(%s)a;" % t1))
        out.append(("", "return !(%s)a;" % t1))
        out.append(("", "return (%s)a ? b : c;" % t1))
        out.append(("", "%s x; unsigned y; x = a; y = b; return (x < b ? x : y) > 5;" % t1))
        out.append(("", "%s x; x = a; return c > 0 ? x : b;" % t1))
        for u1 in ITY:
            out.append(("", "%s x; %s y; x = a; y = b; return (c & 1 ? x : y) < 0;" % (t1, u1)))
    return out


def branch():
    """conditions in if, loops, && and ||"""
    out = []
    for ty in ("int", "unsigned", "char", "unsigned char", "short"):
        for op in OPS[10:]:
            out.append(("", "%s x, y; x = a; y = b; if (x %s y) return 1; return 2;" % (ty, op)))
            out.append(("", "%s x, y; x = a; y = b; if (!(x %s y)) return 1; return 2;" % (ty, op)))
            out.append(("", "%s x, y; x = a; y = b; if (x %s y && c %s a) return 1; return 2;" % (ty, op, op)))
            out.append(("", "%s x, y; x = a; y = b; if (x %s y || b %s c) return 1; return 2;" % (ty, op, op)))
            out.append(("", "%s x, y; x = a; y = b; return (x %s y) + (b %s c) * 2 + !(a %s c) * 4;" % (ty, op, op, op)))
            out.append(("", "%s x; int n; x = a; for (n = 0; x %s b && n < 4; n++) x += c; return n * 3 + x;" % (ty, op)))
            out.append(("", "%s x; int n = 0; x = a; while (n < 3) { n++; if (x %s c) continue; if (x %s b) break; x -= c; } return n * 5 + x;" % (ty, op, op)))
            out.append(("", "%s x; int n = 0; x = a; do x ^= b; while (++n < 3 && x %s 7); return n + x;" % (ty, op)))
            for k in ("0", "1", "-1", "127", "0x7fffffff"):
                out.append(("", "%s x; x = a; return x %s %s ? b : c;" % (ty, op, k)))
    return out


def floats():
    out = []
    pre = "union { float f; int i; } u; float x, y; x = %s; y = %s;"
    forms = ["(float)a", "(float)(b & 1023) / 8", "(float)(unsigned char)c", "(float)(short)b", "-1.5f", "3", "(float)(a >> 3) * 0.25f"]
    for i, f in enumerate(forms):
        g = forms[(i * 3 + 1) % len(forms)]
        for op in "+-*":
            out.append(("", (pre + " u.f = x %s y; return u.i;") % (f, g, op)))
            out.append(("float g_@;", (pre + " g_@ = x; g_@ %s= y; u.f = g_@; return u.i;") % (f, g, op)))
        out.append(("", (pre + " if (y == 0) return 1; u.f = x / y; return u.i;") % (f, g)))
        for op in OPS[10:]:
            out.append(("", (pre + " if (x %s y) return 1; return 2;") % (f, g, op)))
            out.append(("", (pre + " return (x %s y) * 2 + (x %s 1.0f);") % (f, g, op, op)))
        out.append(("", (pre + " u.f = -x + -y; return u.i;") % (f, g)))
        out.append(("", (pre + " return x ? (y ? 3 : 2) : !y;") % (f, g)))
        out.append(("", (pre + " u.f = a > 0 ? x : y; return u.i;") % (f, g)))
        out.append(("", (pre + " u.f = x++ + --y; u.f += x; return u.i;") % (f, g)))
    for t in ITY:
        if t not in UNS:
            out.append(("", "float x; x = (float)(%s)(a >> 8); return (int)x;" % t))
            out.append(("", "%s v; v = (float)(a & 127); return v;" % t))
            out.append(("", "union { float f; int i; } u; %s v; v = a; u.f = v; return u.i;" % t))
            out.append(("", "union { float f; int i; } u; %s v; v = a; u.f = v + 1.5f; return u.i;" % t))
        else:
            out.append(("", "float x; x = (float)(%s)(a & 0xffffff); return (int)x;" % t))
            out.append(("", "float x; %s v; x = (float)(a & 0xffffff); v = x; return v;" % t))
    for k in ("0.0f", "1.0f", "-2.5f", "1e10f", "3.14159f", "0.1f", ".5", "1.", "16777217.0f", "1e-10f", "100", "0x10"):
        out.append(("float k_@ = %s;" % k, "union { float f; int i; } u; u.f = (float)(a >> 4) * %s + k_@; return u.i;" % k))
        out.append(("", "union { float f; int i; } u; u.f = %s; return u.i + a;" % k))
    return out


def bits():
    """bit-fields"""
    out = []
    for ty in ("int", "unsigned"):
        for w1, w2, w3 in ((1, 7, 8), (5, 3, 16), (31, 1, 2), (16, 16, 4), (9, 11, 12), (3, 29, 30), (32, 8, 1), (8, 24, 17)):
            g = "struct b_@ { %s x:%d; %s y:%d; %s z:%d; } g_@;" % (ty, w1, ty, w2, ty, w3)
            out.append((g, "g_@.x = a; g_@.y = b; g_@.z = c; return g_@.x * 5 + g_@.y * 3 + g_@.z;"))
            out.append((g, "int r; g_@.y = b; g_@.x = a; r = (g_@.y = c); return r * 3 + g_@.x + g_@.y * 5 + g_@.z;"))
            out.append((g, "int r; g_@.y = b; g_@.z = -1; r = g_@.y++; r = r * 3 + --g_@.y; return r * 7 + g_@.y + g_@.x + g_@.z;"))
            for op in ("+", "-", "*", "&", "|", "^"):
                if op == "*" and w2 > 8:   # no solver decides these within the time given
                    continue
                out.append((g, "struct b_@ v, *p = &v; int r; v.x = c; v.z = b; v.y = a; r = p->y %s= b; return r * 3 + p->y * 5 + v.x + v.z;" % op))
            for k in (0, 1, 2):
                ks = [[(1 << w - 1) - 1, -1, 1][(k + i) % 3] & ((1 << w) - 1) if ty == "unsigned" else [(1 << w - 1) - 1, -(1 << w - 1), -1][(k + i) % 3] for i, w in enumerate((w1, w2, w3))]
                ks = ["0x%xu" % x if ty == "unsigned" else "(-0x%x%s)" % (-x - 1, "-1") if x < 0 else str(x) for x in ks]
                out.append((g.replace("g_@;", "g_@ = { %s };" % ", ".join(ks)), "if (a & 1) g_@.y = b; return g_@.x * 5 + g_@.y * 3 + g_@.z;"))
                out.append((g, "struct b_@ v = { %s }; if (a & 1) v.z = b; return v.x * 5 + v.y * 3 + v.z;" % ", ".join(ks)))
            out.append((g, "struct b_@ v; v.x = a; v.y = b; v.z = c; g_@ = v; if (g_@.y < 0) return g_@.x; if (g_@.z > g_@.x) return 3; return g_@.y ? 9 : 8;"))
    return out


def aliases():
    """Reads and writes of one object under two names, without a label in between: what the compiler remembers of a block has to be forgotten at the right places"""
    out = []
    for ty in ("int", "char", "short", "unsigned char"):
        kinds = [  # declarations at file scope, in the function (x is the object, y another one), and the names of x
            ("", "T x, y, *p = &x, *q = &y;", ["x", "*p"], ["y", "*q"]),
            ("T g_@, k_@, *h_@ = &g_@;", "T *p = &g_@, *q = &k_@;", ["g_@", "*p", "*h_@"], ["k_@", "*q"]),
            ("", "T v[4], *p = v, *q = &v[1]; int i = 0, j = 1;", ["v[0]", "v[i]", "*p", "q[-1]", "p[i]"], ["v[1]", "v[j]", "*q", "p[1]"]),
            ("T v_@[4];", "T *p = v_@; int i = 0;", ["v_@[0]", "v_@[i]", "*p"], ["v_@[1]", "p[1]"]),
            ("struct s_@ { char c; T x; T y; } g_@;", "struct s_@ *p = &g_@; T *q = &g_@.x;", ["g_@.x", "p->x", "*q"], ["g_@.y", "p->y"]),
            ("struct s_@ { T y; T x; };", "struct s_@ v, *p = &v; T *q = &v.x;", ["v.x", "p->x", "*q"], ["v.y", "p->y"]),
            ("", "static T x, y; T *p = &x, *q = &y;", ["x", "*p"], ["y", "*q"]),
            ("", "union { T x; T z[2]; } u, w; T *p = &u.x;", ["u.x", "u.z[0]", "*p"], ["w.x", "u.z[1]"]),
        ]
        for g, d, xs, ys in kinds:
            g, d = g.replace("T", ty), d.replace("T", ty)
            pre = d + " int r, s; %s = c; %s = %s; %s = a; " % (ys[0], ys[-1], ys[0], xs[0])
            for l in xs:
                for m in xs:
                    out.append((g, pre + "r = %s; %s = b; r = (r << 3) ^ %s; return (r << 2) - %s;" % (l, m, l, ys[0])))
                    if ty == "int":
                        out.append((g, pre + "r = %s + 1; s = %s * 3; %s += b; return r + (%s + 1) * 5 + s * 7 + %s * 3;" % (l, m, m, l, m)))
                        out.append((g, pre + "r = %s; (%s)++; r = (r << 3) ^ (%s ^ %s); (%s)--; return r + %s;" % (l, m, l, m, l, m)))
                        out.append((g, pre + "*(&(%s)) = %s + b; %s = %s - c; return %s * 3 + %s;" % (l, m, m, l, l, m)))
                        out.append((g, pre + "r = %s; ((char *)&(%s))[1] = b; return (r << 3) ^ %s;" % (l, m, l)))
                        out.append((g + " static void w_@(int *p, int v) { *p = v; }", pre + "r = %s; w_@(&(%s), b); return (r << 3) ^ %s;" % (l, m, l)))
            for l in xs:
                for m in ys:
                    out.append((g, pre + "r = %s; %s = b; r = (r << 3) ^ %s; return (r << 2) - %s;" % (l, m, l, m)))
                    if ty == "int":
                        out.append((g, pre + "r = %s; %s = %s; %s = r + b; return %s * 7 + %s;" % (l, l, m, m, l, m)))
        out.append(("T *g_@;".replace("T", ty), "%s x, y, *p; int r; x = a; y = b; p = &x; r = *p; p = &y; r = (r << 3) - *p; g_@ = p; *g_@ = c; return (r << 2) - *p + y;" % ty))
        out.append(("", "%s x, y, *p, **h; int r; x = a; y = b; p = &x; h = &p; r = **h; *h = &y; r = (r << 3) - *p; **h = c; return (r << 2) - *p + y + x;" % ty))
        out.append(("struct n_@ { T v; struct n_@ *next; };".replace("T", ty), "struct n_@ x, y, *p; int r; x.v = a; y.v = b; x.next = &y; y.next = &x; p = &x; r = p->v; p = p->next; r = (r << 3) - p->v; p->next->v = c; return (r << 2) - x.v + p->next->next->v;"))
        out.append(("struct n_@ { T v, w; };".replace("T", ty), "struct n_@ x, y, *p = &x; int r; x.v = a; x.w = b; y.v = c; y.w = a; r = p->v + x.w; *p = y; r = (r << 3) - p->v + x.w; y.v = b; x = y; return (r << 2) - p->v + x.w;"))
    return out


def dispatcher(calls):
    """vmMain has to be the first function of an image"""
    return "".join("static int %s(int a, int b, int c);\n" % x for x in calls) + "int vmMain(int k, int a, int b, int c) {\n  switch (k) {\n" + "".join("  case %d: return %s(a, b, c);\n" % x for x in enumerate(calls)) + "  }\n  return 0;\n}\n"


def render(name, fs):
    """list of (declarations, body) -> program text, number of functions"""
    out = []
    for i, (g, body) in enumerate(fs):
        sfx = "%s_%d" % (name, i)
        if g:
            out.append(g.replace("@", sfx))
        out.append("static int t%d(int a, int b, int c) { %s }" % (i, body.replace("@", sfx)))
    return dispatcher(["t%d" % i for i in range(len(fs))]) + "\n".join(out) + "\n", len(fs)


def render_written(name):
    """harness/e2e/<name>.c: the functions called t_... with three int arguments"""
    t = open(os.path.join(HERE, "harness/e2e", name + ".c")).read()
    fs = re.findall(r"^static int (t_\w+)\(int a, int b, int c\)", t, re.M)
    return dispatcher(fs) + t, len(fs)


def split(fs, n):
    return [fs[i:i + n] for i in range(0, len(fs), n)]


SYSTEMATIC = dict(binary=binary, assign=assign, constant=constant, fold=fold, casts=casts, branch=branch, floats=floats, bits=bits, aliases=aliases)
PER = 120


def families():
    """family -> list of (program name, text, number of functions)"""
    out = {}
    for n, f in SYSTEMATIC.items():
        out[n] = [("%s%d" % (n, i),) + render("%s%d" % (n, i), part) for i, part in enumerate(split(f(), PER))]
    out["written"] = [(f[:-2],) + render_written(f[:-2]) for f in sorted(os.listdir(os.path.join(HERE, "harness/e2e"))) if f.startswith("p_") and f.endswith(".c")]
    return {k: v for k, v in out.items() if v}


def prepare(tmp, repo):
    """Builds the tool chain from the current sources and compiles every program with it; one table of images per family."""
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    d = os.path.join(tmp, "e2e")
    os.makedirs(d, exist_ok=True)

    def tool(x):
        name, src, fl = x
        fs = [os.path.join(repo, src, f) for f in sorted(os.listdir(os.path.join(repo, src))) if f.endswith(".c")]
        p = subprocess.run(["gcc", "-w", "-O1", "-fno-strict-aliasing", "-fno-common"] + fs + ["-o", os.path.join(d, name), "-lm"] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError("cannot build %s: %s" % (name, p.stdout.decode("latin-1")[-1500:]))

    def prog(x):
        name, text, n = x
        src = os.path.join(d, name + ".c")
        open(src, "w").write(text)
        open(os.path.join(d, name + "_ref.c"), "w").write("#define long int\n#define double float\n" + text)
        why, img = "", b""
        for cmd in (["./cpp", "-DQ3_VM", name + ".c", name + ".i"], ["./rcc", "-target=bytecode", name + ".i", name + ".asm"], ["./q3asm", "-o", name, name + ".asm"]):
            try:
                p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                if p.returncode:
                    why = "%s: status %d: %s" % (cmd[0], p.returncode, p.stdout.decode("latin-1")[-300:])
            except subprocess.TimeoutExpired:
                why = cmd[0] + ": does not end"
            if why:
                break
        if not why:
            try:
                img = open(os.path.join(d, name + ".qvm"), "rb").read()
            except OSError:
                why = "no image"
        return name, n, img, why
    fam = families()
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(tool, (("cpp", "lcc/cpp", []), ("rcc", "lcc/src", []), ("q3asm", "q3asm", []))))
        for f, ps in fam.items():
            res = list(pool.map(prog, ps))
            with open(os.path.join(d, f + ".h"), "w") as h:
                for name, n, img, why in res:
                    h.write("extern int ref_%s(int, int, int, int);\nstatic const unsigned char img_%s[] = {%s};\n" % (name, name, ",".join(map(str, img)) or "0"))
                h.write("static const struct { const unsigned char* img; int n; int (*ref)(int, int, int, int); const char* why; } P[] = {\n")
                for name, n, img, why in res:
                    h.write("  { img_%s, %d, ref_%s, \"%s\" },\n" % (name, len(img), name, re.sub(r"[^ -~]|[\"\\\\]", " ", why)))
                h.write("};\n")


if __name__ == "__main__":
    for n, ps in families().items():
        print(n, len(ps), sum(p[2] for p in ps))
