"""The checks: property -> jobs."""
import os
import re
from vp import corpus
from vp.driver import Unit, Job, REPO
VM = {"goto": ("repo:src/vm/vm.c", []), "switch": ("har:vm/vm_switch.c", []), "debug": ("repo:src/vm/vm.c", ["-DDEBUG_VM"])}
_u = {}


def vmunit(h, variant="goto", extra=()):
    k = (h, variant, tuple(extra))
    if k not in _u:
        _u[k] = Unit("vm-%s-%s" % (h, variant), [("har:vm/%s.c" % h, list(extra) + (["-DDEBUG_VM"] if variant == "debug" else [])), VM[variant]])
    return _u[k]


OPS = "UNDEF IGNORE BREAK ENTER LEAVE CALL PUSH POP CONST LOCAL JUMP EQ NE LTI LEI GTI GEI LTU LEU GTU GEU EQF NEF LTF LEF GTF GEF LOAD1 LOAD2 LOAD4 STORE1 STORE2 STORE4 ARG BLOCK_COPY SEX8 SEX16 NEGI ADD SUB DIVI DIVU MODI MODU MULI MULU BAND BOR BXOR BCOM LSH RSHI RSHU NEGF ADDF SUBF DIVF MULF CVIF CVFI".split()
OP = {n: i for i, n in enumerate(OPS)}
CHECKS = {}


def check(prop, jobs, bounds, assumptions=(), **kw):
    CHECKS[prop] = dict(jobs=jobs, bounds=bounds, assumptions=list(assumptions), **kw)


def arith(ops, need):
    def f(tier):
        out = []
        for v in ("goto", "switch", "debug"):
            for lo, hi in ops:
                out.append(Job("%s-%s-%s" % (v, OPS[lo], OPS[hi]), vmunit("arith", v), dict(lo=lo, hi=hi), max_time=200 if tier == "quick" else 800, query_timeout=100000, need=need))
        return out
    return f



check("V06", arith([(OP["SEX8"], OP["MODU"]), (OP["MULI"], OP["RSHU"])], ["arith"]), "one instruction, all 2^64 operand pairs (shift counts 0..31)")
check("V07", arith([(OP["EQ"], OP["GEU"]), (OP["EQF"], OP["GEF"])], ["taken", "not taken"]), "one branch instruction, all 2^64 operand pairs, forward and backward target")
check("V08", arith([(OP["NEGF"], OP["CVFI"])], ["arith"]), "one instruction, all operand bit patterns")



VARS = ("goto", "switch", "debug")
SIZES = (65536, 100, 131072)


def V01(tier):
    out = []
    q = tier == "quick"
    S = ["--split-index"]
    for v in VARS:
        u = vmunit("step", v)
        for bss in SIZES:
            out.append(Job("one-%s-%d" % (v, bss), u, dict(bss=bss), max_time=120, query_timeout=20000, opts=S, need=["syscall", "error"] if bss > 200 else [], bounds="ENTER, CONST, CONST, any instruction, CALL -3; any memory, any program stack position"))
        out.append(Job("leave-%s" % v, u, dict(lo=OP["LEAVE"], hi=OP["LEAVE"], noleave=0, fuel=620), max_time=120, query_timeout=20000, opts=S))
        for sled, consts in ((0, 0), (0, 1), (252, 2), (253, 2), (254, 2), (255, 2), (255, 0)):
            if v == "goto" or sled in (0, 254):
                out.append(Job("sled-%s-%d-%d" % (v, sled, consts), u, dict(bss=65536, sled=sled, consts=consts, fuel=(-12500 if v == "switch" else -10300) if sled else 4000), max_time=120, query_timeout=20000, opts=S, bounds="operand stack moved by %d entries first" % sled))
    for v in VARS if not q else ():
        u = vmunit("step", v)
        for lo in range(0, 60, 4):
            hi = min(59, lo + 3)
            slow = lo <= 34 and hi >= 27
            out.append(Job("two-%s-%d" % (v, lo), u, dict(bss=65536, two=1, lo=lo, hi=hi), max_time=150 if q else 1200, query_timeout=5000 if slow else 20000, opts=S, prio=1, need=["syscall", "error"], bounds="all pairs of instructions whose first is number %d..%d" % (lo, hi)))
    return out


check("V01", V01, "one arbitrary instruction (pairs of instructions in part) from an arbitrary memory, program stack position and operand stack depth; memory sizes 2^7 2^16 2^17 (data) incl. stack; all operand values")


def V02(tier):
    return [Job("flow-%s-%d" % (v, t), vmunit("flow", v), dict(tail=t), max_time=200, query_timeout=20000, opts=["--split-index"], need=["valid", "invalid", "syscall", "rejected", "bad return"]) for v in VARS for t in (0, 4)]


check("V02", V02, "programs of up to 24 instructions with one transfer whose 32-bit target is arbitrary")


def loadjobs(oracle, tier):
    out = []
    q = tier == "quick"
    L = [("hdr", 33, 16, 1), ("hdr", 44, 16, 1), ("code", 44, 15, 0), ("code", 48, 15, 0), ("codepos", 36, 1 + 4 + 32 + 256, 0), ("data", 40, 1 + 2 + 32 + 64, 0)]
    if not q:
        L += [("code", 52, 15, 0), ("codepos", 40, 1 + 4 + 32 + 256, 0), ("data", 48, 1 + 2 + 32 + 64, 0), ("full", 36, 32, 1), ("full", 40, 32, 1), ("full", 44, 33, 0)]
    for v in VARS:
        u = vmunit("load", v)
        for n, l, fix, al in L:
            if q and v != "goto" and (n, l) == ("code", 48):
                continue
            out.append(Job("%s-%s-%d" % (n, v, l), u, dict(mode=3, len=l, fix=fix, oracle=oracle, anylen=al, run=1 - oracle), max_time=150 if q else 1000, query_timeout=20000, opts=["--split-index"]))
    return out


check("V03", lambda t: loadjobs(0, t), "all images of up to 44 bytes and all declared lengths up to the buffer size")
check("V04", lambda t: loadjobs(1, t), "all images of up to 44 bytes (12 bytes of code)")
check("V05", lambda t: [Job("%s-%s" % (n, v), vmunit("load", v), dict(mode=m), max_time=200, query_timeout=20000) for v in VARS for n, m in (("faithful", 5), ("operands", 6))], "images with data up to 16 and lit up to 3 bytes, any bss up to the limit, any operands")
check("V09", lambda t: [Job("mem-%s-%s-%d" % (v, OPS[o], b), vmunit("mem", v), dict(lo=o, hi=o, bss=b), max_time=200, query_timeout=30000, need=["load"] if o <= OP["LOAD4"] else ["stored", "other byte"]) for v in VARS for o in range(OP["LOAD1"], OP["STORE4"] + 1) for b in ((1000, 200000) if t == "quick" else (1000, 100, 65536, 200000))], "each load/store with all 32-bit addresses and values, all memory contents, memories of 2^10 and 2^18 (thorough also 2^7, 2^17) bytes")
check("V10", lambda t: [Job("frames-%s" % v, vmunit("conv", v), dict(mode=10, depth=4 if t == "quick" else 8), max_time=300, query_timeout=30000, need=["v10", "rec", "pushpop"]) for v in VARS], "frames of any size and offset for one call, call depth 4 (thorough 8), all argument values")
check("V11", lambda t: [Job("vmcall-%s-%d" % (v, b), vmunit("conv", v), dict(mode=11, bss=b), max_time=300, query_timeout=30000, need=["v11", "nested"]) for v in VARS for b in (65536, 131072)], "all command and argument words (12 further arguments), one nested entry, memories of 2^17 and 2^18 bytes")
check("V12", lambda t: [Job("syscall-%s" % v, vmunit("conv", v), dict(mode=12), max_time=300, query_timeout=30000, need=["v12", "nested"]) for v in VARS], "all system call numbers, argument words and host results; one nested VM call")
check("V13", lambda t: [Job("errors-%s" % v, vmunit("err", v), {}, max_time=400, query_timeout=30000, opts=["--split-index"], need=["done", "nested"]) for v in VARS], "13 kinds of error with all operand values, in the first or second frame, in the outer or a nested VM call, followed by one further call")
check("V14", lambda t: [Job("blockcopy-%s-%d" % (v, b), vmunit("mem", v), dict(lo=OP["BLOCK_COPY"], hi=OP["BLOCK_COPY"], bss=b), max_time=300, query_timeout=60000, need=["copied", "valid", "range error"]) for v in VARS for b in ((1000, 200000) if t == "quick" else (1000, 100, 4000, 65536, 200000))], "all 2^96 triples of destination, source and length; memory 2^10 and 2^18 (thorough also 2^7, 2^12, 2^17) bytes, all contents")
check("V15", lambda t: [Job("range-%s" % v, vmunit("help", v), dict(mode=0), max_time=200, query_timeout=60000, need=["valid", "invalid", "accepted"]) for v in VARS], "all 2^128 address/length pairs, every memory size up to 2^24")
check("V16", lambda t: [Job("ptr-%s" % v, vmunit("help", v), dict(mode=1), max_time=200, query_timeout=60000, need=["ptr", "float"]) for v in VARS] + [Job("guard-%s-%d" % (v, b), vmunit("guard", v), dict(bss=b), max_time=200, query_timeout=20000, opts=["--split-index"], need=["guard"]) for v in VARS for b in (1000, 65536)], "all 64-bit addresses, all 32-bit patterns, every memory size; two arbitrary stores of any kind before a string is handed out")
check("V17", lambda t: [Job("alloc-%s" % v, vmunit("alloc", v), {}, max_time=300, query_timeout=30000, need=["freed", "bad image", "failed allocation"]) for v in VARS], "create / call / free sequences of 3 steps with every allocation failing in turn, valid and invalid images")
check("V18", lambda t: [Job("trap-%s" % v, vmunit("trap", v), {}, max_time=300, query_timeout=60000, need=["zero", "value"]) for v in VARS], "all operand pairs of the division, modulus, shift and conversion instructions")


def V19(tier):
    out = []
    for v in VARS:
        for lo in range(0, 60, 15):
            if tier != "quick":
                for l2 in range(lo, lo + 15, 3):
                    out.append(Job("det2-%s-%d" % (v, l2), vmunit("det", v), dict(lo=l2, hi=l2 + 2, two=1), max_time=900, query_timeout=10000, opts=["--split-index"], prio=1))
            out.append(Job("det-%s-%d" % (v, lo), vmunit("det", v), dict(lo=lo, hi=lo + 14), max_time=200, query_timeout=20000, opts=["--split-index"]))
    return out


check("V19", V19, "each instruction after 0..2 pops at four operand stack depths, all operands and memories of 2^9 bytes; programs overwriting their own return slots left out")
PUB = "VM_Create VM_Call VM_Free VM_ArgPtr VM_IntToFloat VM_FloatToInt VM_MemoryRangeValid VM_VmProfile_f VM_Debug _vmf VM_CreateEx".split()
REN = ["-D%s=b_%s" % (n, n) for n in PUB]


def eqv(variant):
    k = ("equiv", variant)
    if k not in _u:
        src, fl = VM[variant]
        _u[k] = Unit("vm-equiv-%s" % variant, [("har:vm/equiv.c", ["-DQS_FILE_STUBS"]), VM["goto"], (src, fl + REN)])
    return _u[k]


def V20(tier):
    out = []
    for v in ("switch", "debug"):
        for lo in range(0, 60, 10):
            if tier != "quick":
                for l2 in range(lo, lo + 10, 2):
                    out.append(Job("equiv2-%s-%d" % (v, l2), eqv(v), dict(lo=l2, hi=l2 + 1, two=1, debug=int(v == "debug")), max_time=900, query_timeout=10000, opts=["--split-index"], prio=1))
            out.append(Job("equiv-%s-%d" % (v, lo), eqv(v), dict(lo=lo, hi=lo + 9, debug=int(v == "debug")), max_time=200, query_timeout=20000, opts=["--split-index"], need=["compared"]))
    return out


check("V20", V20, "each instruction (thorough: pairs) with all operands at three operand stack depths, memory 2^9 bytes; saved return slots not overwritten")
HREN = ["-I" + REPO + "/src/vm", "-Dmain=host_main", "-Dprintf=h_printf", "-Dfprintf=h_fprintf", "-Dexit=h_exit", "-DCom_malloc=host_malloc", "-DCom_free=host_free"]


def V21(tier):
    if "host" not in _u:
        _u["host"] = Unit("vm-host", [("har:vm/host.c", []), VM["goto"], ("repo:src/main.c", HREN + ["-DCom_Error=host_Com_Error"])])
        _u["hostx"] = Unit("vm-hostx", [("har:vm/host.c", ["-DCom_Error=vmh_Com_Error"]), VM["goto"], ("repo:src/main.c", HREN)])
    out = []
    for b in (250, 200000) if tier == "quick" else (250, 1000, 4000, 65536, 200000):
        out.append(Job("host-%d" % b, _u["host"], dict(bss=b), max_time=300, query_timeout=30000, need=["print", "memset", "memset refused", "memcpy", "memcpy refused", "unknown"]))
        out.append(Job("hostexit-%d" % b, _u["hostx"], dict(bss=b), max_time=300, query_timeout=30000, need=["print", "memset", "memcpy", "host exit", "unknown"]))
    return out


check("V21", V21, "all argument words and memory contents; memory 2^8 and 2^18 (thorough also 2^10, 2^12, 2^17) bytes")
check("V22", lambda t: [Job("stk-%s-%d" % (v, b), vmunit("stk", v), dict(big=b), max_time=300, query_timeout=30000, need=["balanced", "unbalanced"]) for v in VARS for b in (0, 1)], "pushes and pops 0..5 each and eight large imbalances up to 255, four kinds of push")


# ---------------------------------------------------------------- q3asm
HARD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
BND = ["-fsanitize=array-bounds", "-fsanitize-trap=array-bounds"]
NBND = ["-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"]


def asmunit(h, image_max=0, vm=False, extra=()):
    k = ("asm", h, image_max, vm, tuple(extra))
    if k not in _u:
        fl = ["-include", HARD + "/asm/pre.h"] + (["-DQS_IMAGE_MAX=%d" % image_max] if image_max else [])
        src = [("har:asm/%s.c" % h, list(extra)), ("repo:q3asm/q3asm.c", fl), ("repo:q3asm/cmdlib.c", fl)] + ([("repo:src/vm/vm.c", [])] if vm else [])
        _u[k] = Unit("asm-%s-%d%s%s" % (h, image_max, "-vm" if vm else "", "".join(extra)), src, bcdefs=BND, natdefs=NBND)
    return _u[k]


def A01(tier):
    u = asmunit("enc", 0x8000)
    out = [Job("all-%d%s" % (lo, "-neg" if neg else ""), u, dict(all=1, lo=lo, hi=lo + 18, digits=10, neg=neg), max_time=200, need=["image"]) for lo in range(0, 97, 19) for neg in (0, 1) if not neg or lo < 28]
    if tier == "quick":
        out += [Job("pair-%d" % a, u, dict(all=0, one=a, digits=10, neg=a & 1), max_time=200, need=["image"]) for a in range(0, 97, 5)]
    else:
        out += [Job("pair-%d" % a, u, dict(all=0, one=a, digits=d, neg=n), max_time=200, need=["image"]) for a in range(97) for d, n in ((10, 0), (10, 1)) if n == 0 or a < 29]
    return out


check("A01", A01, "every mnemonic with an operand of up to 10 arbitrary digits (all 32-bit values), in sequences of 19 and in pairs")


def A02(tier):
    u = asmunit("expr", 0x4000)
    return [Job("ctx-%d" % c, u, dict(ctx=c, lens=3 if tier == "quick" else 7), max_time=300, need=["image"]) for c in range(8)]


check("A02", A02, "numbers of 1 to 18 digits with and without minus sign, expressions of up to three terms over numbers and seven symbols, in code operands, address, byte and equ directives")


def A03(tier):
    u = asmunit("sym", 0x4000)
    q = tier == "quick"
    out = []
    need = ["duplicate", "undefined", "resolved"]
    for o in range(4):
        for k in range(36):
            if not q or (k * 7 + o) % 9 == 0:
                out.append(Job("pool-%d-%d" % (o, k), u, dict(order=o, kinds=k, buckets=(0, 1, 2, 7)[(k + o) % 4], free=0, alpha=2 if q else 4, pad=(0, 0, 14, 30, 62, 126, 254, 510)[(k + o) % 8]), max_time=300, need=need))
            for i, m in enumerate((3, 5, 9, 6, 10, 12)):
                if not q or (k * 7 + o * 5 + i) % 48 == 0:
                    out.append(Job("free-%d-%d-%d" % (o, k, m), u, dict(order=o, kinds=k, buckets=1, alpha=2, free=m), max_time=300, query_timeout=20000, need=need))
            if not q or (o == 0 and k % 5 == 0):
                for g in (1, 2, 3, 7, 9, 15):
                    if not q or g == (1, 3, 7, 9, 15, 2, 7, 15)[k // 5]:
                        out.append(Job("gap-%d-%d-%d" % (o, k, g), u, dict(order=4, kinds=k, buckets=1 + o, alpha=2, free=0, gap=g, pad=o), max_time=300, need=need))
            if not q:
                out.append(Job("free-%d-%d-15" % (o, k), u, dict(order=o, kinds=k, buckets=1, alpha=2, free=15), max_time=900, query_timeout=20000, need=need))
    return out


check("A03", A03, "programs of two to three files with two definitions (procedure, code label, data, lit, bss, equ) and two references whose two-character names are arbitrary; file-local names included")


def A04(tier):
    u = asmunit("layout", 0x4000, vm=True)
    q = tier == "quick"
    out = [Job("n2-%d" % lo, u, dict(n=2, lo=lo, cseg=(lo + lo // 3) % 3, tail=lo // 6 % 4), max_time=200, need=["image"]) for lo in range(48) if not q or lo % 3 == (lo // 6) % 3]
    if not q:
        out += [Job("n3-%d-%d" % (lo, l), u, dict(n=3, lo=lo, last=l, cseg=l % 3, tail=(lo + l // 3) % 4), max_time=300, need=["image"]) for lo in range(48) for l in range(48)]
    return out


check("A04", A04, "programs of four objects (data, lit, bss; align 1 or 4; byte, word, address and skip items mixed) with arbitrary item values")


def A05(tier):
    q = tier == "quick"
    u, u2 = asmunit("text", 0x400), asmunit("text", 0x4000)
    out = []

    def add(name, unit, need=(), t=None, **kw):
        out.append(Job(name, unit, kw, max_time=t or (120 if q else 600), query_timeout=20000, opts=["--split-index"], need=list(need)))
    for d in range(26):
        for p in range(6):
            add("dir-%d-%d" % (d, p), u, mode=0, n=2, dir=d, pre=p, post=(d + p) % 5)
            if not q:
                add("dir3-%d-%d" % (d, p), u, t=900, mode=0, n=3, dir=d, pre=p, post=(d + p) % 5)
    for n in (1, 2) if q else (1, 2, 3):
        for i in range((1, 1, 8, 64)[n]):
            add("text-%d-%d" % (n, i), u, mode=1, n=n, parts=(1, 1, 8, 64)[n], part=i, t=None if n < 3 else 900)
    for p in (0, 1, 2):
        add("long-%d" % p, u, mode=2, pre=p)
    for d in range(4):
        for f in range(12):
            for w in (0, 1):
                for p in (1, 2, 3, 4):
                    if not q or (d + f + w + p) % 4 == 0:
                        add("amount-%d-%d-%d-%d" % (d, f, w, p), u2, mode=3, n=1 if q else 2, dir=d, pfx=f, twice=w, pre=p, post=1 + (f + p) % 4)
    for p in range(9):
        add("list-%d" % p, u, mode=4, n=2 if q else 3, pre=p)
    return out


check("A05", A05, "each directive, in each segment, followed by two (thorough three) arbitrary bytes and further directives; texts of 1..2 (3) arbitrary bytes; lines of 1020..1028 characters; operands around 0, the segment size and 2^31, 2^32 with the last one (two) digits arbitrary; list files with two (three) arbitrary bytes; segment size scaled to 1 KB / 16 KB")


def A06(tier):
    u, v = asmunit("frame", 0x4000), asmunit("call", 0x4000, vm=True)
    out = [Job("frame-%d-%d-%d-%d" % (lp, a, ap, b), u, dict(dl=a, da=b, lp=lp, ap=ap), max_time=200, need=["frame"] if lp < 90 else ["too large"]) for lp, a, ap, b in ((0, 1, 0, 1), (0, 3, 0, 1), (0, 2, 0, 2), (0, 1, 0, 3), (3, 3, 0, 1), (32, 3, 0, 1), (0, 1, 32, 3), (31, 2, 7, 2), (99, 3, 0, 1))]
    out += [Job("args-%d" % n, u, dict(n=n), max_time=100, need=["args"] if n < 63 else ["too many"]) for n in (1, 2, 3, 30, 61, 62, 63, 64)]
    for np in (4, 5, 6, 9, 13):
        for pick in (0, 3, np - 1):
            for gl, ga in ((0, 0), (12, 8), (4, 0), (100, 40)):
                out.append(Job("call-%d-%d-%d" % (np, pick, gl), v, dict(np=np, pick=pick, keep=(np + pick) % 4, gl=gl, ga=ga), max_time=100, need=["returned"]))
    return out


check("A06", A06, "procedures with any local and argument sizes of up to five digits; calls with up to 64 arguments; executed calls with up to 13 arguments of any value")


# ---------------------------------------------------------------- lcc/cpp
CPPSRC = ("cpp", "cpplex", "eval", "getopt", "hideset", "include", "macro", "nlist", "tokens", "unix")


def cpp_scaled(tmp, repo):
    """A copy of the preprocessor with a smaller input buffer, so that refills and rewinds are within reach."""
    src, dst = os.path.join(repo, "lcc/cpp"), os.path.join(tmp, "cpp")
    os.makedirs(dst, exist_ok=True)
    for f in os.listdir(src):
        if f.endswith((".c", ".h")):
            t = open(os.path.join(src, f), encoding="latin-1").read()
            if f == "cpp.h":
                t = re.sub(r"(#\s*define\s+INS\s+)\d+", r"\g<1>512", t)
                t = re.sub(r"(#\s*define\s+OBS\s+)\d+", r"\g<1>64", t)
            open(os.path.join(dst, f), "w", encoding="latin-1").write(t)


def cppunit(h, scaled=False):
    k = ("cpp", h, scaled)
    if k not in _u:
        fl = ["-include", HARD + "/cpp/pre.h", "-fno-builtin-memmove", "-w"]
        _u[k] = Unit("cpp-%s%s" % (h, "-s" if scaled else ""), [("har:cpp/%s.c" % h, [])] + [("%s/%s.c" % ("tmp:cpp" if scaled else "repo:lcc/cpp", f), fl) for f in CPPSRC], bcdefs=BND, natdefs=NBND)
    return _u[k]


def C02(tier):
    q = tier == "quick"
    u, s = cppunit("text"), cppunit("text", True)
    out = []

    def add(name, unit, need=(), t=None, **kw):
        out.append(Job(name, unit, kw, max_time=t or (120 if q else 900), query_timeout=20000, opts=["--split-store"], need=list(need)))
    for p in range(86):
        add("pre-%d" % p, u, mode=0, n=1 if q and p % 8 != 3 else 2, pre=p, post=p % 7)
        if not q:
            for po in range(7):
                if po != p % 7:
                    add("pre-%d-%d" % (p, po), u, mode=0, n=2, pre=p, post=po)
    for k in range(18):
        add("nest-%d" % k, u, mode=1, n=1, kind=k, few=q, step=4 if q and k >= 12 else 1, fuel=6000000 if q else 60000000)
    for k in range(8):
        for l in (56, 120, 248) + (() if q else (500, 1000)):
            if k != 6 or l > 250 or q and l == 248:
                add("long-%d-%d" % (k, l), u, mode=2, n=1, kind=k, len=l if k != 6 else 2100, few=q or k == 1)
    for k in range(7):
        for pad in range(0, 520, 40):
            if not q or (pad // 40 + k) % 4 == 0:
                add("buf-%d-%d" % (k, pad), s, mode=3, n=1, kind=k, pad=pad, pads=40, post=1 + k % 6)
        for ch in (1, 3):
            add("chunk-%d-%d" % (k, ch), s, mode=3, n=1, kind=k, pad=100, pads=8, post=1 + k % 6, chunk=ch)
    for o in range(10):
        add("opt-%d" % o, u, mode=4, n=1 if q else 2, opt=o)
    return out


check("C02", C02, "each of 86 beginnings (every directive, macro calls, literals, comments, expressions) followed by one or two arbitrary bytes and one of seven endings; expressions, groups, macros and calls nested around the size of every fixed table; tokens, lines and names around the size of every fixed buffer; arbitrary bytes at every position of a scaled input buffer (512 bytes); option values with one or two arbitrary bytes; quick: one byte in most jobs", prepare=cpp_scaled)


def C01(tier):
    q = tier == "quick"
    u = cppunit("eval")
    out = []

    def add(name, need=("yes", "no"), t=None, split=False, **kw):
        out.append(Job(name, u, kw, max_time=t or (120 if q else 900), query_timeout=20000, opts=["--split-index"] if split else [], need=list(need)))
    BIG = {1: 32, 2: 33, 3: 34, 5: 35, 10: 36}
    for f in range(24):
        for m in (0, 0o1, 0o10, 0o24, 0o512, 0o36):
            if q and f in BIG:
                if m in (0, 0o36):
                    add("form-%d-%o" % (f, m), mode=0, form=BIG[f], mix=m, rel=2 if m else 3, kk=1 if m != 0o24 else 0, ops=6 if f != 10 else 3, c3=1 if m == 0 else -1)
                if m == 0 and f == 1:
                    add("all-%d" % f, mode=0, form=f, mix=m, rel=1, c3=f - 1)
            elif (m != 0o36 or f in (0, 7, 9, 11)) and (m != 0o512 or f not in (17, 19)) and (not q or m in (0o1, 0o36, 0o512) or f == 0):
                add("form-%d-%o" % (f, m), mode=0, form=f, mix=m, rel=3 if q else 4, kk=1 if m != 0o24 else 0)
    for f in range(24, 32):
        for m in (0o4000,) if q else (0, 0o4000, 0o1010, 0o24):
            add("form-%d-%o" % (f, m), mode=0, form=f, mix=m, rel=1 if q else 3, ops=3 if q else 10, c3=2 if q else -1)
    for k in range(8):
        add("const-%d" % k, mode=1, kind=k, digits=3 if q else 5)
    for pre in (0, 1):
        add("groups-%d" % pre, need=["text"], mode=2, n=3 if q else 4, pre=pre, conds=3, t=120 if q else 3000)
    for n, sh in ((4, 0), (6, 1)):
        add("deep-%d" % sh, need=["text"], mode=3, n=n, shape=sh)
    return out


check("C01", C01, "expressions of two to four (thorough five) operands in 37 shapes (parentheses, unary chains, ?: in every position, unevaluated division by zero), every binary and unary operator in every position, operands with one or two arbitrary digits (small, around 2^31, 2^32, 2^63 and 2^64, unsigned, hexadecimal, octal), compared with an arbitrary two digit number by ==, < and >; integer constants of up to three (five) arbitrary digits and every one-character constant and escape; sequences of three (four) arbitrary directives with arbitrary conditions, nested to depth four and six with arbitrary conditions; expressions whose value C leaves undefined are excluded; hexadecimal and octal constants below 2^31")


C03_HOLES = [6, 8, 5, 5, 9, 5, 8, 6, 7, 9, 10, 9, 8, 11, 11, 11, 6, 7, 5, 9, 5, 7, 9, 11, 8, 7]   # holes of each template of harness/cpp/macro.c


def C03(tier):
    q = tier == "quick"
    u = cppunit("macro")
    out = []
    for t, h in enumerate(C03_HOLES):
        w = 3 if q else 4
        for f in range(0, max(1, h - w + 2), 2):
            for a in range(8):
                if not q or (f // 2 + a) % 2 == 0:
                    out.append(Job("tpl-%d-%d-%d" % (t, f, a), u, dict(tpl=t, alph=a, max=w, **{"from": f}), max_time=120 if q else 900, query_timeout=20000))
    return out


check("C03", C03,
      "26 texts (object-like and function-like macros, self-reference, mutual recursion, ## and #, empty replacements, calls over several lines, "
      "nested calls, redefinition after #undef), each with every window of 3 consecutive places (thorough: 4) holding any bytes of one of 8 alphabets; "
      "texts that C89 leaves undefined or unspecified are left out",
      ["arguments that are empty, and numbers with two e in a row, are left out", "the output is compared as a sequence of tokens"])




def rccsrc():
    return sorted(f[:-2] for f in os.listdir(os.path.join(REPO, "lcc/src")) if f.endswith(".c"))


def rccunit(h, pur=False):
    k = ("rcc", h, pur)
    if k not in _u:
        fl = ["-include", HARD + "/rcc/pre.h", "-w"] + (["-DPURIFY"] if pur else [])
        _u[k] = Unit("rcc-%s%s" % (h, "-p" if pur else ""), [("har:rcc/%s.c" % h, [])] + [("repo:lcc/src/%s.c" % f, fl) for f in rccsrc()], bcdefs=BND, natdefs=NBND)
    return _u[k]


def L01(tier):
    q = tier == "quick"
    rccunit("fold")
    k = ("rcc", "fold", False)
    if not any("cap.c" in x[0] for x in _u[k].srcs):
        _u[k].srcs.append(("har:rcc/cap.c", ["-I" + os.path.join(REPO, "lcc/src"), "-w"]))
    u = _u[k]
    out = []

    def add(name, **kw):
        out.append(Job(name, u, kw, max_time=120 if q else 900, query_timeout=20000, opts=["--split-store"]))
    for op in range(18):
        for lt in range(6):
            for rt in range(6):
                if op in (2, 3, 4) and (lt != 1 or rt != 1 or op == 2):
                    # products and quotients: three octal digits of each operand (products: two), with others around them
                    ws = [(w, p) for w in ((0x3, 0x18, 0xc0, 0x600) if q and op == 2 else (0x7, 0x38, 0x1c0, 0x700)) for p in (0, -1, 0x7fffffff, 0x80000000 - (1 << 32), 1, 0x8000, 0x7fff)]
                    for i in range(2 if q else 24):
                        (wa, pa), (wb, pb) = ws[(op * 5 + lt * 7 + rt * 11 + i * 9) % 28], ws[(op * 3 + lt * 5 + rt + i * 11 + (0 if i % 2 else 7)) % 28]
                        add("bin-%d-%d-%d-%d" % (op, lt, rt, i), mode=0, op=op, lt=lt, rt=rt, dst=(op + lt) % 2, wa=wa, wb=wb, pa=pa, pb=pb)
                    continue
                add("bin-%d-%d-%d" % (op, lt, rt), mode=0, op=op, lt=lt, rt=rt, dst=(op + lt) % 2)
                if not q:
                    add("ebin-%d-%d-%d" % (op, lt, rt), mode=0, op=op, lt=lt, rt=rt, enum=1)
    for lt in range(6):
        for rt in range(6):
            for d in range(4):
                if not q or (lt + rt + d) % 4 == 0:
                    add("cvt-%d-%d-%d" % (lt, rt, d), mode=1, lt=lt, rt=rt, dst=d)
        for op in range(4):
            add("un-%d-%d" % (op, lt), mode=2, op=op, lt=lt, dst=lt % 2)
    for op in range(18):
        for lt, rt, sa, sb in ((1, 1, 0, 0), (0, 0, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 1, 1), (0, 1, 0, 0), (1, 0, 0, 0)):
            if op == 2 or op in (3, 4) and not lt * rt:
                continue
            add("fn-%d-%d%d%d%d" % (op, lt, rt, sa, sb), mode=4, op=op, lt=lt, rt=rt, sa=sa, sb=sb, **(dict(wa=0x1c0, wb=0x7, pa=0x7ff) if op in (2, 3, 4) else {}))
    for t in range(26):
        add("mix-%d" % t, mode=3, tpl=t, **(dict(wa=0x38, wb=0x7, pa=-1) if t == 19 else {}))
    return out


check("L01", L01, "constant initialisers and enumerators: 18 binary operators over pairs of int, unsigned, char, unsigned char, short and unsigned short "
      "(in a function also as the condition of ?:, for int and unsigned), "
      "conversions of conversions, 4 unary operators and 26 mixed expressions, each over all 2^32 values of every operand (spelled in octal digits that are symbolic); products, and quotients of other than two unsigned, "
      "over 9 symbolic bits of each operand (quick, products: 6) with the other bits from a list of patterns; expressions whose value C leaves undefined are left out; floating operands are outside",
      ["the values are taken where the compiler hands them to its code generator (Interface.defconst); how they are printed is L02's and T01's"])


def L02(tier):
    q = tier == "quick"
    u = rccunit("const")
    out = []
    for mode, (name, n) in enumerate((("int", 39), ("float", 16), ("char", 13), ("string", 16))):
        for t in range(n):
            out.append(Job("%s-%d" % (name, t), u, dict(mode=mode, tpl=t), max_time=120 if q else 900, query_timeout=20000, opts=["--split-store"]))
    return out


check("L02", L02, "39 templates of integer constants (decimal, octal, hexadecimal; each suffix; values at and around every limit of int, unsigned and long), "
      "16 of floating, 13 of character and 16 of string constants, with 1-4 symbolic characters each (digits, escapes, letters or any byte); value and type observed in the data lcc emits; "
      "the decimal conversion strtod is a stub that gives back exactly which text it was given; longer constants are outside")


OVER = {0: 1, 3: 1, 4: 1, 7: 2, 8: 1, 12: 2.5, 13: 1, 14: 1}


def L03(tier):
    q = tier == "quick"
    u = rccunit("text", True)
    out = []

    def add(name, **kw):
        out.append(Job(name, u, kw, max_time=100 if q else 900, query_timeout=20000, opts=["--split-store"]))
    for p in range(132):
        add("pre-%d" % p, mode=0, n=1, pre=p, post=p % 10)
        if not q:
            add("pre2-%d" % p, mode=0, n=2, pre=p, post=2 + p % 2)
            for po in range(10):
                if po != p % 10:
                    add("pre-%d-%d" % (p, po), mode=0, n=1, pre=p, post=po)
    for k in range(32):
        add("nest-%d" % k, mode=1, kind=k, base=1 if k % 2 else 29, cnts=3 if q else 16, fuel=20000000)
    for k in range(18):
        for l in (28, 508, 1020, 4090) if q else (28, 250, 508, 1020, 2040, 4090, 8190):
            if q and (k + l) % 3 and l > 28:
                continue
            add("long-%d-%d" % (k, l), mode=2, n=1, kind=k, len=l, lens=3 if q else 8, post=2 + k % 4, fuel=60000000)
        if k in OVER:   # where the 4096 characters of a buffer are what is produced and not what is read
            add("over-%d" % k, mode=2, n=1, kind=k, len=int(4094 * OVER[k]), lens=int(5 * OVER[k]), post=2 + k % 4, fuel=90000000)
    for k in range(13):
        for pad in range(4060, 4100, 8):
            if not q or (pad // 8 + k) % 2 == 0:
                add("buf-%d-%d" % (k, pad), mode=3, n=1, kind=k, pad=pad, pads=8, post=2 + k % 8, lines=k & 1, fuel=60000000)
        add("chunk-%d" % k, mode=3, n=1, kind=k, pad=20, pads=3, chunk=1 + k % 7, post=2 + k % 8)
    for c in range(59):
        add("tok-%d" % c, mode=4, n=2, cx=c, end=c % 6 if q else -1, fuel=60000000)
        if not q and c % 6 == 0:
            add("tok3-%d" % c, mode=4, n=3, cx=c, end=c // 6 % 6, fuel=60000000)
    return out


check("L03", L03, "source texts of rcc -target=bytecode: 132 beginnings of programs, any next byte (thorough: two), one of 10 ends; 59 beginnings with names of every kind of type declared, any two of 75 tokens, "
      "one of 6 ends (thorough: all 6, and three tokens for a sixth of the beginnings); 32 repetitions up to 31 deep (thorough: 44); long tokens, lines and strings around each buffer's size; tokens across the refilled input buffer; "
      "reads of 1-7 bytes at a time; every allocation of rcc is an object of its own (its PURIFY build), so that the default arena build differs in alloc.c alone; other options, longer programs and a failing malloc are outside")


def T01(tier):
    q = tier == "quick"
    out = []
    for fam, ps in corpus.families().items():
        k = ("e2e", fam)
        if k not in _u:
            _u[k] = Unit("e2e-" + fam, [("har:e2e/run.c", ['-DTABLE="e2e/%s.h"' % fam, "-I."]), VM["goto"]] + [("tmp:e2e/%s_ref.c" % n, ["-w", "-fwrapv", "-std=gnu89", "-DvmMain=ref_" + n]) for n, t, c in ps], tmpinc=True)
        for i, (n, t, c) in enumerate(ps):
            step = 15 if fam == "written" else 40
            for lo in range(0, c, step):
                out.append(Job("%s-%d" % (n, lo), _u[k], dict(prog=i, lo=lo, n=min(step, c - lo), calls=(3 if q else 4) if n == "p_state" else 1), max_time=120 if q else 900, query_timeout=20000, opts=["--split-store"], need=["called"]))
    return out


check("T01", T01, "for every value of the three int arguments (2^96 combinations) of each of about 9300 corpus functions: every pair of integer types under every binary operator, every compound assignment and increment on nine kinds of lvalue, constant operands and constant expressions, casts, conditions, floats, bit-fields, one object under two names (systematic, generated by vp/corpus.py), and 160 written ones (switches, loops, calls, pointers, structs, unions, initialised data, state over three calls); programs outside the corpus, doubles as wider than float, initialised 16-bit data (the assembler rejects it) and what C leaves undefined are outside", prepare=corpus.prepare)
