"""Plumbing shared by all checks: builds the harness from /repo, runs jobs in it, runs TLC.

It takes no decision about a property: jobs go to the harness, the recorded traces go to TLC
(spec/Trace.tla), and the clauses TLC reports as broken come back.
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLACM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, os.cpu_count() or 2)


class ToolError(Exception):
    pass


# ----------------------------------------------------------------- doubles
def bits(x):
    """a double as the two signed 32-bit halves of its bit pattern"""
    return split(struct.unpack("<Q", struct.pack("<d", x))[0])


def split(u):
    s = lambda v: v - (1 << 32) if v >> 31 else v
    return [s(u >> 32), s(u & 0xFFFFFFFF)]


def unbits(b):
    return struct.unpack("<d", struct.pack("<Q", (b[0] & 0xFFFFFFFF) << 32 | (b[1] & 0xFFFFFFFF)))[0]


# ------------------------------------------------------------------- build
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_override():
    src = os.path.join(SPEC, "java", "BigInt.java")
    out = os.path.join(TARGET, "java")
    cls = os.path.join(out, "BigInt.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(out, exist_ok=True)
    r = run(["javac", "-cp", TLAJAR, "-d", out, src])
    if r.returncode:
        raise ToolError("javac failed:\n" + r.stdout)


def build_harness(cfg):
    """builds the harness against /repo's current working tree in one feature configuration"""
    tgt = os.path.join(TARGET, "h-" + cfg)
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = run(["cargo", "build", "--offline", "--release", "--no-default-features", "--features", "cfg-" + cfg,
             "--target-dir", tgt], cwd=os.path.join(ROOT, "harness"), env=env)
    if r.returncode:
        raise ToolError(f"building the harness (cfg-{cfg}) failed:\n" + r.stdout[-3000:])
    return os.path.join(tgt, "release", "harness")


# ------------------------------------------------------------------ harness
def run_jobs(exe, jobs, work, name, limit=90, shards=None):
    """Runs jobs; returns (records, crashes). A crash is (job, what): the process hung or died in it."""
    shards = shards or min(4, max(1, len(jobs) // 8))
    procs = []
    for k in range(shards):
        part = jobs[k::shards]
        procs.append([part, 0, [], []])
    import threading

    def go(k):
        part, pos, recs, crashes = procs[k]
        while pos < len(part):
            jf = os.path.join(work, f"{name}.{k}.jobs")
            of = os.path.join(work, f"{name}.{k}.out")
            with open(jf, "w") as f:
                for j in part[pos:]:
                    f.write(json.dumps(j) + "\n")
            if os.path.exists(of):
                os.unlink(of)
            p = subprocess.run([exe, jf, of, str(limit)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
            got = []
            if os.path.exists(of):
                with open(of) as f:
                    for line in f:
                        if line.endswith("\n"):
                            got.append(line)
            recs.extend(got)
            pos += len(got)
            if p.returncode == 0 and pos >= len(part):
                break
            if p.returncode in (2, 101) and not got and "jobs file" in p.stderr:
                raise ToolError("harness: " + p.stderr[:500])
            if pos < len(part):
                what = "hang" if p.returncode == 124 else f"died({p.returncode})"
                crashes.append((part[pos], what))
                pos += 1
                if len(crashes) > 3:
                    break
        procs[k][1] = pos

    ts = [threading.Thread(target=go, args=(k,)) for k in range(shards)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    recs, crashes = [], []
    for p in procs:
        recs += p[2]
        crashes += p[3]
    return recs, crashes


# ---------------------------------------------------------------------- TLC
STAT = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")
SIMSTAT = re.compile(r"The number of states generated: ([\d,]+)")


def tlc(module, cfg, args=(), env=None, timeout=800, workers=NCPU, mem="10g"):
    """Runs TLC; returns dict(out, generated, distinct, ok, lines)."""
    build_override()
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work_root())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp",
           f"{TLAJAR}:{TLACM}:{os.path.join(TARGET, 'java')}", "tlc2.TLC", "-workers", str(workers),
           "-config", cfg, "-metadir", meta, "-noGenerateSpecTE", *args, module]
    try:
        r = run(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module} ({cfg})")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = STAT.findall(out)
    g = d = 0
    if m:
        g, d = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = SIMSTAT.findall(out)
        if m:
            g = d = int(m[-1].replace(",", ""))
    lines = []
    for ln in out.splitlines():
        if ln.startswith('"@@'):
            lines.append(json.loads(ln))
    return dict(out=out, generated=g, distinct=d, ok=r.returncode == 0, rc=r.returncode, lines=lines)


def brief(out):
    return "\n".join(l for l in out.splitlines() if not l.startswith(("Loading", "Pars", "Semantic", "Lint")))[-3000:]


_work = None


def work_root():
    global _work
    if _work is None:
        base = os.path.join(ROOT, "work")
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="run-", dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def model_check(module, cfg, **kw):
    """exhaustive check of a specification; a violated invariant is an error of the specification"""
    r = tlc(module, cfg, **kw)
    if not r["ok"] or "No error has been found" not in r["out"]:
        raise ToolError(f"the specification {module} ({cfg}) does not satisfy its own properties:\n" + brief(r["out"]))
    return r


def generate(module, cfg, simulate=None, depth=None, seed=1, **kw):
    """behaviours printed by TLC as '@@JOB <json>'"""
    args = []
    if simulate:
        args = ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(seed)]
        kw.setdefault("workers", 1)
    r = tlc(module, cfg, args=args, **kw)
    if not r["ok"]:
        raise ToolError(f"generating behaviours from {module} ({cfg}) failed:\n" + brief(r["out"]))
    return [json.loads(x[6:]) for x in r["lines"] if x.startswith("@@JOB ")], r


def validate(recs, timeout=800):
    """TLC checks the recorded traces; returns (failures, stats)."""
    if not recs:
        return [], dict(generated=0, distinct=0, traces=0, steps=0, judged=0)
    tf = tempfile.mktemp(prefix="trace-", suffix=".ndjson", dir=work_root())
    with open(tf, "w") as f:
        for r in recs:
            f.write(r if r.endswith("\n") else r + "\n")
    r = tlc("Trace.tla", "Trace.cfg", env={"TRACE": tf}, timeout=timeout)
    fails, done, steps, judged = [], 0, 0, 0
    for x in r["lines"]:
        if x.startswith("@@FAIL "):
            fails.append(json.loads(x[7:]))
        elif x.startswith("@@DONE "):
            d = json.loads(x[7:])
            done += 1
            steps += d[2]
            judged += d[3]
    if not r["ok"] or done != len(recs):
        keep = os.path.join(ROOT, "work", "last-tlc-error.txt")
        with open(keep, "w") as f:
            f.write(r["out"])
        err = ToolError(f"trace validation did not complete ({done} of {len(recs)} traces):\n" +
                        brief(r["out"]))
        err.fails = fails
        raise err
    os.unlink(tf)
    return fails, dict(generated=r["generated"], distinct=r["distinct"], traces=done, steps=steps, judged=judged)
