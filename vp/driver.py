"""Check driver: builds bitcode and native replay binaries from /repo's current sources, runs the symbolic engine on
every job of a check, replays counterexamples natively and writes evidence/<id>.json."""
import os, sys, json, time, shutil, subprocess, tempfile, hashlib, re, threading, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QS_REPO", "/repo")
RT = os.path.join(VERIF, "rt")
HAR = os.path.join(VERIF, "harness")
BC = ["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-ffp-contract=off", "-fno-builtin", "-fno-stack-protector",
      "-mlong-double-64", "-emit-llvm", "-c", "-w", "-I" + RT, "-I" + HAR, "-I" + REPO, "-DQS_ENGINE"]
NAT = ["gcc", "-O1", "-U_FORTIFY_SOURCE", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-ffp-contract=off", "-w", "-c", "-I" + RT, "-I" + HAR, "-I" + REPO, "-DQS_NATIVE"]
ASAN = "detect_leaks=0:exitcode=99:abort_on_error=0:redzone=256:max_redzone=2048:detect_stack_use_after_return=0:handle_segv=1:handle_sigfpe=1:allocator_may_return_null=1:malloc_fill_byte=%d:max_malloc_fill_size=%d:detect_odr_violation=0:hard_rss_limit_mb=5000"


def say(*a):
    print(*a, flush=True)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("latin-1")[-4000:]))
    return p.stdout


def ensure_engine():
    q = os.path.join(VERIF, "build", "qsym")
    src = [os.path.join(VERIF, "engine", f) for f in os.listdir(os.path.join(VERIF, "engine"))]
    if os.path.exists(q) and all(os.path.getmtime(f) <= os.path.getmtime(q) for f in src):
        return q
    if os.path.exists(q):      # checkout times are no guide: trust it when the recorded digest matches
        h = hashlib.sha256(b"".join(open(f, "rb").read() for f in sorted(src))).hexdigest()
        try:
            if open(q + ".sha").read() == h:
                return q
        except OSError:
            pass
    out = os.path.join(VERIF, "build")
    if not os.access(VERIF, os.W_OK):
        out = tempfile.mkdtemp(prefix="qsym")
    run(["bash", os.path.join(VERIF, "engine", "build.sh"), out])
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in sorted(src))).hexdigest()
    open(os.path.join(out, "qsym.sha"), "w").write(h)
    return os.path.join(out, "qsym")


class Unit:
    """A program: sources with flags -> one bitcode file and one native binary."""

    def __init__(self, name, srcs, defs=(), libc=True, natdefs=(), bcdefs=(), natflags=(), tmpinc=False):
        self.tmpinc = tmpinc
        self.name, self.srcs, self.defs, self.libc, self.natdefs, self.bcdefs, self.natflags = name, srcs, list(defs), libc, list(natdefs), list(bcdefs), list(natflags)
        self.bc = self.nat = None
        self.lock = threading.Lock()

    def build(self, tmp, pool):
        """srcs: list of (path, [flags]) relative to /repo ('repo:x'), /verif/harness ('har:x') or rt ('rt:x')"""
        d = os.path.join(tmp, self.name)
        os.makedirs(d, exist_ok=True)

        def path(p):
            k, r = p.split(":", 1)
            return os.path.join({"repo": REPO, "har": HAR, "rt": RT, "tmp": tmp}[k], r)

        def cc(a):
            i, (p, fl), native = a
            src = path(p)
            inc = ["-I" + os.path.dirname(src)] + (["-I" + tmp] if self.tmpinc else [])
            o = os.path.join(d, "%s%d.%s" % ("n" if native else "b", i, "o" if native else "bc"))
            if native:
                run(NAT + self.defs + self.natdefs + self.natflags + list(fl) + inc + [src, "-o", o])
            else:
                run(BC + self.defs + self.bcdefs + list(fl) + inc + [src, "-o", o])
            return o
        bl = [(i, s, False) for i, s in enumerate(self.srcs)]
        if self.libc:
            bl.append((len(bl), ("rt:minilibc.c", []), False))
        nl = [(i, s, True) for i, s in enumerate(self.srcs)]
        nl.append((len(nl), ("rt:native.c", []), True))
        res = list(pool.map(cc, bl + nl))
        b, n = res[:len(bl)], res[len(bl):]
        lk = os.path.join(d, "l.bc")
        run(["llvm-link-18"] + b + ["-o", lk])
        self.bc = os.path.join(d, "o.bc")
        run(["opt-18", "-passes=sroa", lk, "-o", self.bc])
        self.nat = os.path.join(d, "native")
        run(["gcc", "-fsanitize=address"] + n + ["-o", self.nat, "-lm"])


class Job:
    def __init__(self, name, unit, params=None, max_time=300, query_timeout=60000, samples=3, conc_max=600, need=(), bounds="", mem=12, opts=(), prio=0):
        self.prio = prio
        self.opts = list(opts)
        self.name, self.unit, self.params, self.max_time, self.query_timeout, self.samples, self.conc_max, self.need, self.bounds, self.mem = name, unit, dict(params or {}), max_time, query_timeout, samples, conc_max, list(need), bounds, mem
        self.res = None


def engine(q, job, tmp, seed, deadline):
    left = deadline - time.time()
    if left < 3:
        job.log = "not started: the time budget of this run was used up"
        job.res = None
        return job
    mt = min(job.max_time, left)
    out = os.path.join(tmp, "job-%s.json" % re.sub(r"[^A-Za-z0-9_.-]", "_", job.name))
    cmd = [q, job.unit.bc, "--out", out, "--max-time", "%.1f" % mt, "--query-timeout", str(job.query_timeout), "--samples", str(job.samples), "--seed", str(seed), "--conc-max", str(job.conc_max)] + job.opts
    for k, v in job.params.items():
        cmd += ["-p", "%s=%d" % (k, v)]

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (job.mem << 30, job.mem << 30))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=mt + 60, preexec_fn=lim)
        job.log = p.stdout.decode("latin-1")[-3000:]
        job.res = json.load(open(out))
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        job.log = "%s %s" % (e, getattr(job, "log", ""))
        job.res = None
    return job


def write_replay(path, prop, job, inputs, what):
    with open(path, "w") as f:
        f.write("# property=%s job=%s\n# %s\n" % (prop, job.name, what.replace("\n", " ")))
        f.write("# params %s\n" % " ".join("%s=%d" % kv for kv in job.params.items()))
        for n, h in inputs:
            f.write("%s %s\n" % (n, h))


def native(job, path, tmp, tries=((0xbe, 4096),), timeout=60):
    """-> (verdict, text): 'fail' when the run shows the violation, 'ok', 'assume' or 'odd'."""
    text = ""
    for fill, mx in tries:
        for mode in ("0", "1"):
            env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "ASAN_OPTIONS": ASAN % (fill, mx), "QS_GUARD": mode, "HOME": tmp}
            for k, v in job.params.items():
                env["QSP_" + k] = str(v)
            d = tempfile.mkdtemp(dir=tmp)
            try:
                p = subprocess.run([job.unit.nat, path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, env=env, timeout=timeout)
                rc, text = p.returncode, p.stdout.decode("latin-1")[-6000:]
            except subprocess.TimeoutExpired:
                rc, text = "timeout", "native run did not end within %d s" % timeout
            finally:
                shutil.rmtree(d, ignore_errors=True)
            if rc == 70:
                return "assume", text
            if rc == 71 or rc == 99 or rc == "timeout" or (isinstance(rc, int) and rc < 0):
                return "fail", "exit %s\n%s" % (rc, text)
            if rc != 0:
                return "odd", "exit %s\n%s" % (rc, text)
    return "ok", text


def known_findings():
    r = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) job=(\S+) match=(.*)$", l.strip())
            if m:
                r.append(m.groups())
    except OSError:
        pass
    return r


def run_check(prop, spec, tier, seed, workers=8):
    t0 = time.time()
    deadline = t0 + float(os.environ.get("QS_BUDGET") or spec.get("budget", {}).get(tier) or (480 if tier == "quick" else 3000))
    tmp = tempfile.mkdtemp(prefix="qs-%s-" % prop)
    viol, notes, errors, matched = [], [], [], set()
    jobs = spec["jobs"](tier)
    if os.environ.get("QS_ONLY"):   # while developing
        jobs = [j for j in jobs if re.search(os.environ["QS_ONLY"], j.name)]
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    validated = 0
    samples = []
    try:
        q = ensure_engine()
        units = []
        for j in jobs:
            if j.unit not in units:
                units.append(j.unit)
        if "prepare" in spec:
            spec["prepare"](tmp, REPO)
        with ThreadPoolExecutor(workers) as pool, ThreadPoolExecutor(4) as upool:
            list(upool.map(lambda u: u.build(tmp, pool), units))
            jobs.sort(key=lambda j: (j.prio, -j.max_time))
            list(pool.map(lambda j: engine(q, j, tmp, seed, deadline), jobs))

            def post(j):
                nonlocal validated
                if j.res is None:
                    notes.append("job %s: engine ended without a result: %s" % (j.name, j.log[-500:]))
                    return
                r = j.res
                for i, v in enumerate(r["violations"]):
                    if v["kind"] == "unsupported":
                        notes.append("job %s: undecided: %s at %s" % (j.name, v["msg"], v["stack"]))
                        continue
                    what = "%s: %s at %s" % (v["kind"], v["msg"], v["stack"])
                    path = os.path.join(evdir, "replay-%s-%s-%d.txt" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", j.name), i))
                    write_replay(path, prop, j, v["inputs"], what)
                    verdict, text = native(j, path, tmp)
                    if verdict == "fail":
                        viol.append((j, path, what, text))
                    else:
                        notes.append("job %s: not reproduced natively (%s), not reported: %s%s" % (j.name, verdict, what, " [over-approximated]" if v["overapprox"] else ""))
                        os.rename(path, path.replace("replay-", "unconfirmed-"))
                for i, s in enumerate(r["samples"]):
                    path = os.path.join(tmp, "sample-%s-%d.txt" % (re.sub(r"[^A-Za-z0-9_.-]", "_", j.name), i))
                    write_replay(path, prop, j, s, "model of a completed path")
                    verdict, text = native(j, path, tmp)
                    if verdict == "ok":
                        validated += 1
                        if len(samples) < 4:
                            samples.append({"job": j.name, "inputs": [[n, h[:160]] for n, h in s], "native": "agrees"})
                    elif verdict == "fail":
                        keep = os.path.join(evdir, "replay-%s-%s-s%d.txt" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", j.name), i))
                        shutil.copy(path, keep)
                        viol.append((j, keep, "native run of a solver model fails", text))
                    else:
                        notes.append("job %s: native run of a path model ended '%s': %s" % (j.name, verdict, text[-200:]))
                for n, c in r["notes"].items():
                    notes.append("job %s: %s (x%d)" % (j.name, n, c))
                if r["incomplete"]:
                    notes.append("job %s: incomplete (timeout=%s, pending=%d, unknown=%d)" % (j.name, r["timeout"], r["pending"], r["unknown"]))
                for n in j.need:
                    if not any(k == n or k == "check: " + n for k in r["reach"]):
                        notes.append("job %s: VACUOUS: '%s' was never reached" % (j.name, n))
            # fresh names for replay files of this run
            for f in os.listdir(evdir):
                if re.match(r"(replay|unconfirmed)-%s-" % prop, f):
                    os.unlink(os.path.join(evdir, f))
            list(pool.map(post, jobs))
    except RuntimeError as e:
        errors.append(str(e))
    finally:
        if not os.environ.get("QS_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            say("kept", tmp)
    known = []
    new = []
    kf = known_findings()
    for v in viol:
        j, path, what, text = v
        for p, jn, m in kf:
            if p == prop and re.fullmatch(jn, j.name) and re.search(m, what):
                known.append((what, j.name))
                break
        else:
            new.append(v)
    fns = {}
    tot = dict(paths=0, paths_cut=0, assume_ended=0, instructions=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, table_decisions=0, solver_time=0.0)
    chk, reach = {}, {}
    for j in jobs:
        if not j.res:
            continue
        for k in tot:
            tot[k] += j.res[k]
        for n, f, c, cov, size in j.res["functions"]:
            if f.startswith(REPO) or (not f.startswith("/verif") and not f.startswith(VERIF)):
                o = fns.setdefault(n, [0, 0, size])
                o[0] += c
                o[1] = max(o[1], cov)
        for k, c in j.res["reach"].items():
            (chk if k.startswith("check: ") else reach)[k.replace("check: ", "", 1)] = (chk if k.startswith("check: ") else reach).get(k.replace("check: ", "", 1), 0) + c
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["paths_cut"], "transitions": tot["instructions"], "traces_validated_against_impl": validated,
            "samples": samples or [{"job": j.name, "params": j.params} for j in jobs[:3]],
            "explanation": "states = symbolic paths completed (each covers every input satisfying its path condition), transitions = bitcode instructions executed symbolically, traces_validated = path models run on the natively compiled code",
            "bounds": spec.get("bounds", ""), "jobs": [{"job": j.name, "params": j.params, "bounds": j.bounds, "paths": j.res["paths"] if j.res else None, "wall": j.res["wall"] if j.res else None, "complete": bool(j.res and not j.res["incomplete"])} for j in jobs],
            "functions_encoded": {n: "%d calls, %d of %d instructions covered" % (v[0], v[1], v[2]) for n, v in sorted(fns.items())},
            "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"], "solver_cache_hits": tot["cache_hits"], "decided_on_value_tables_of_one_or_two_input_bytes": tot["table_decisions"], "solver_time_s": round(tot["solver_time"], 2),
            "forks": tot["forks"], "paths_cut_at_bound": tot["paths_cut"], "assertions": chk, "reached": reach,
            "undecided": notes, "exhaustive": not any("incomplete" in n or "VACUOUS" in n or "not reproduced" in n or "undecided" in n or "ended without" in n for n in notes)},
        "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if errors:
        ev["coverage"]["errors"] = errors
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    for n in notes[:12]:
        say("NOTE", n[:500])
    if len(notes) > 12:
        say("NOTE (%d more in the evidence file)" % (len(notes) - 12))
    for what, jn in sorted(set(known)):
        say("KNOWN-FINDING: property=%s %s (job %s)" % (prop, what, jn))
    new.sort(key=lambda v: (v[0].name, v[1]))
    for i, (j, path, what, text) in enumerate(new):
        if i < 6:
            say("VIOLATION property=%s replay=%s" % (prop, path))
            say("  job %s: %s" % (j.name, what[:400]))
            say("  " + "\n  ".join(l[:200] for l in text.strip().split("\n")[:8]))
    if len(new) > 6:
        say("  (%d further violations not printed)" % (len(new) - 6))
    if errors:
        for e in errors:
            say("ERROR", e)
        if not new:
            return 2
    say("%s %s: %s, %d jobs, %d paths, %d instructions, %d queries (%.1f s solver), %d native validations, %.1f s" % (prop, tier, "VIOLATED" if new else ("held within bounds" if ev["coverage"]["exhaustive"] else "no violation found, INCOMPLETE"), len(jobs), ev["coverage"]["states"], tot["instructions"], tot["queries"], tot["solver_time"], validated, time.time() - t0))
    return 1 if new else 0


def replay(path):
    """Re-run one replay file natively."""
    from vp import checks
    lines = open(path).read().split("\n")
    m = re.match(r"# property=(\S+) job=(\S+)", lines[0])
    prop, jn = m.groups()
    for tier in ("quick", "thorough"):
        for j in checks.CHECKS[prop]["jobs"](tier):
            if j.name == jn:
                tmp = tempfile.mkdtemp(prefix="qs-replay-")
                try:
                    if "prepare" in checks.CHECKS[prop]:
                        checks.CHECKS[prop]["prepare"](tmp, REPO)
                    with ThreadPoolExecutor(8) as pool:
                        j.unit.build(tmp, pool)
                    v, t = native(j, os.path.abspath(path), tmp)
                    say(v)
                    say(t)
                    return 1 if v == "fail" else 0
                finally:
                    shutil.rmtree(tmp, ignore_errors=True)
    say("no such job")
    return 2
