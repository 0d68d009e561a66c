#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]     (VERIF_SEED, VERIF_TIER)

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line.  2: tool error.
"""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib, jobs


def known_findings():
    out = []
    with open(os.path.join(vlib.ROOT, "known_findings.txt")) as f:
        for ln in f:
            ln = ln.strip()
            if ln.startswith("known:"):
                d = dict(x.split("=", 1) for x in ln[6:].split("--")[0].split())
                d["text"] = ln.split("--", 1)[1].strip()
                out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = jobs.PLANS[prop](jobs.Ctx(prop, tier, seed))
    models, runs = plan["models"], plan["runs"]
    kinds = plan["kinds"]
    states = trans = 0
    notes = []
    for what, r in models():
        states += r["distinct"]
        trans += r["generated"]
        notes.append(dict(model=what, distinct_states=r["distinct"], transitions=r["generated"]))
    known = [k for k in known_findings() if k["property"] == prop]
    seen_known, bad, other = {}, [], {}
    stats = dict(traces=0, steps=0, judged=0)
    samples, per_cfg = [], {}
    follow = [0, 0]
    work = vlib.work_root()
    exes = {}
    recs_by_cfg = {}
    ctx_err = None
    for cfg, js in runs():
        if cfg not in exes:
            try:
                exes[cfg] = vlib.build_harness(cfg)
            except vlib.ToolError as e:
                if plan.get("api_is_property") and crate_builds(cfg):
                    report(prop, [dict(job="build", step=0, op="build", bad=[["api", 0]], detail=str(e)[-1500:])], None, None)
                    finish(prop, tier, seed, plan, notes, states, trans, stats, ["(harness does not build)"], per_cfg, follow, t0, 1)
                    return 1
                raise
        recs, crashes = vlib.run_jobs(exes[cfg], js, work, cfg)
        recs_by_cfg.setdefault(cfg, []).extend(recs)
        per_cfg[cfg] = per_cfg.get(cfg, 0) + len(recs)
        byid = {j["id"]: j for j in js}
        for job, what in crashes:
            bad.append((cfg, job, dict(job=job["id"], step=0, op=what, bad=[["hang" if what == "hang" else "died", 0]]), None))
        if js and len(samples) < 4:
            s = json.dumps(js[len(js) // 2])
            samples.append(s[:600] + ("..." if len(s) > 600 else ""))
        for r in recs:
            follow[0] += r.count('"follows":1')
            follow[1] += r.count('"follows":')
        if plan.get("validate", True):
            # batches bound TLC's memory
            for part in batches(recs):
                try:
                    fails, st = vlib.validate(part)
                except vlib.ToolError as e:
                    fails, st, ctx_err = getattr(e, "fails", []), dict(distinct=0, generated=0, traces=0, steps=0, judged=0), e
                states += st["distinct"]
                trans += st["generated"]
                for k in stats:
                    stats[k] += st[k]
                sort_fails(fails, byid, cfg, kinds, known, seen_known, bad, other)
    if plan.get("compare"):
        pairs = plan["compare"](recs_by_cfg)
        for part in batches(pairs):
            fails, st = vlib.validate(part)
            states += st["distinct"]
            trans += st["generated"]
            for k in stats:
                stats[k] += st[k]
            sort_fails(fails, {}, "compare", kinds, known, seen_known, bad, other, part)
    for k, n in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {known[k]['text']} ({n} occurrences)")
    if other:
        print("note: clauses of other properties reported and left to their checks:", json.dumps(other))
    if bad:
        report(prop, [b[2] for b in bad], bad, exes)
    finish(prop, tier, seed, plan, notes, states, trans, stats, samples, per_cfg, follow, t0, len(bad))
    if bad:
        return 1
    if ctx_err:
        raise ctx_err
    if stats["judged"] == 0:
        raise vlib.ToolError("nothing was judged")
    print(f"ok property={prop} traces={stats['traces']} steps={stats['judged']} states={states} wall={time.time()-t0:.1f}s")
    return 0


def crate_builds(cfg):
    feats = {"full": "std,rayon,serde,rkyv,zerocopy,libm", "serde": "libm,serde,rkyv,zerocopy", "stdlibm": "std,libm",
             "stdserde": "std,serde", "rkyv": "libm,rkyv", "zero": "libm,zerocopy", "raylibm": "libm,rayon,rkyv"}.get(cfg, cfg)
    r = vlib.run(["cargo", "build", "--offline", "--lib", "--no-default-features", "--features", feats,
                  "--target-dir", os.path.join(vlib.TARGET, "lib")], cwd="/repo")
    return r.returncode == 0


def batches(recs, limit=120_000_000):
    part, size = [], 0
    for r in recs:
        if part and size + len(r) > limit:
            yield part
            part, size = [], 0
        part.append(r)
        size += len(r)
    if part:
        yield part


def sort_fails(fails, byid, cfg, kinds, known, seen_known, bad, other, recs=None):
    for f in fails:
        mine = []
        for kind, idx in f["bad"]:
            hit = [i for i, k in enumerate(known) if k["kind"] == kind]
            if hit:
                seen_known[hit[0]] = seen_known.get(hit[0], 0) + 1
            elif kinds(kind):
                mine.append([kind, idx])
            else:
                other[kind] = other.get(kind, 0) + 1
        if mine:
            bad.append((cfg, byid.get(f["job"]), dict(f, bad=mine), None))


def report(prop, fails, bad, exes):
    d = os.path.join(vlib.ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    import glob
    for old in glob.glob(os.path.join(d, prop + "-*.json")):
        os.unlink(old)
    for i, f in enumerate(fails[:5]):
        path = os.path.join(d, f"{prop}-{i + 1}.json")
        cfg, job = (bad[i][0], bad[i][1]) if bad else ("full", None)
        with open(path, "w") as o:
            json.dump(dict(property=prop, config=cfg, failure=f, job=job), o, indent=1)
        print(f"  {f['op']} step {f['step']} of job {f['job']} [{cfg}]: " + ", ".join(f"{k}@{x}" for k, x in f["bad"][:6]))
        if i == 0:
            print(f"VIOLATION property={prop} replay={path}")
    if len(fails) > 5:
        print(f"  ... and {len(fails) - 5} more")


def finish(prop, tier, seed, plan, notes, states, trans, stats, samples, per_cfg, follow, t0, violations):
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=stats["traces"],
               recorded_steps=stats["steps"], steps_judged=stats["judged"], traces_by_configuration=per_cfg,
               models=notes, what=plan.get("what", ""), samples=samples or ["none"])
    if follow[1]:
        cov["steered_schedules"] = dict(tried=follow[1], followed_exactly=follow[0])
    ev = dict(property=prop, tier="thorough" if tier == "thorough" else "quick", seed=seed, level="model_checking", coverage=cov,
              assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=violations)
    d = os.path.join(vlib.ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.ToolError as e:
        print("TOOL ERROR:", e)
        sys.exit(2)
