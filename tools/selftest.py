#!/usr/bin/env python3
"""Does the trace specification notice a damaged recording?  usage: selftest.py [PROPERTY ...] [-n N] [-s SEED]

Takes recordings of the real code (the quick plan of each property), damages one recorded outcome of one step
in each, and validates the damaged recordings.  Reports, by operation and place, how many damages of each kind
were noticed, and whether TLC could evaluate all of them (an outcome it cannot evaluate would leave a check
without an answer).  A development tool: no check depends on it.
"""
import collections, copy, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, jobs

HI = [2146959360, 2146435072, -1048576, 0, 1072693248, -1074790400]


def leaves(x, path=()):
    """(path, kind) of everything in an outcome that can be damaged"""
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        yield path, "list"
        for i in ([0, 1, len(x) // 2, len(x) - 1] if len(x) > 6 else range(len(x))):
            if i < len(x):
                yield from leaves(x[i], path + (i,))
    elif isinstance(x, bool) or isinstance(x, int):
        yield path, "int"
    elif isinstance(x, str):
        yield path, "str"


def damage(rng, r):
    """returns (path, what) or None"""
    ls = list(leaves(r))
    top = [("panic",), ("empty",)]
    if not ls or rng.random() < 0.04:
        w = rng.choice(top)[0]
        r.clear()
        if w == "panic":
            r["panic"] = 1
            r["msg"] = "x"
        else:
            return None
        return ("", w)
    path, kind = rng.choice(ls)
    par = r
    for p in path[:-1]:
        par = par[p]
    k = path[-1]
    v = par[k]
    if k == "fam" or (len(path) > 2 and path[-3] == "idx" and k == 0):
        return None    # not the implementation's
    name = ".".join(str(p) if isinstance(p, str) else "*" for p in path)
    if kind == "list":
        what = rng.choice(["del", "dup", "swap", "clear"])
        if not v:
            return None
        i = rng.randrange(len(v))
        if all(isinstance(e, int) for e in v):   # a number or a pair: its length does not vary
            j = 0
            if what != "swap" or len(v) < 2 or v[0] == v[1]:
                return None
            if path[0] == "idx":
                return None
            v[0], v[1] = v[1], v[0]
        elif what == "del":
            del v[i]
        elif what == "dup":
            v.insert(i, copy.deepcopy(v[i]))
        elif what == "clear":
            v.clear()
        else:
            if len(v) < 2:
                return None
            i = rng.randrange(len(v) - 1)
            if v[i] == v[i + 1]:
                return None
            v[i], v[i + 1] = v[i + 1], v[i]
        return name, what
    if kind == "str":
        par[k] = v[:-1] if v and rng.random() < .5 else v + "0"
        return name, "str"
    what = rng.choice(["+1", "neg", "hi", "rand"])
    n = {"+1": v + 1, "neg": -v - 1, "hi": rng.choice(HI), "rand": rng.randrange(-2**31, 2**31)}[what]
    if n == v or not -2**31 <= n < 2**31:
        return None
    par[k] = n
    return name, what


def main():
    args = sys.argv[1:]
    num, seed, props = 250, 1, []
    while args:
        a = args.pop(0)
        if a == "-n": num = int(args.pop(0))
        elif a == "-s": seed = int(args.pop(0))
        else: props.append(a)
    rng = random.Random(seed)
    for prop in props or sorted(jobs.PLANS):
        plan = jobs.PLANS[prop](jobs.Ctx(prop, "quick", 1))
        list(plan["models"]())
        recs = []
        for cfg, js in plan["runs"]():
            if plan.get("validate", True) or True:
                exe = vlib.build_harness(cfg)
                got, _ = vlib.run_jobs(exe, js, vlib.work_root(), "st")
                recs += [r for r in got if len(r) < 300000]
                if len(recs) > 4 * num:
                    break
        out, what = [], {}
        rng.shuffle(recs)
        for r in recs:
            d = json.loads(r)
            ok = [s for s in d["steps"] if isinstance(s.get("r"), dict) and "na" not in s["r"] and "panic" not in s["r"]]
            if not ok:
                continue
            # every operation of a recording is as likely
            ops = sorted({s["op"] for s in ok})
            op = rng.choice(ops)
            s = rng.choice([s for s in ok if s["op"] == op])
            m = damage(rng, s["r"])
            if not m:
                continue
            d["id"] = f"{len(out)}"
            what[d["id"]] = (s["op"], m[0], m[1])
            out.append(d)
            if len(out) >= num:
                break
        hit, todo, crashed = set(), out, []
        # TLC stops at the first outcome it cannot evaluate: halve
        def go(part):
            try:
                f, st = vlib.validate([json.dumps(x) for x in part])
                hit.update(x["job"] for x in f)
            except vlib.ToolError as e:
                if len(part) == 1:
                    crashed.append((what[part[0]["id"]], str(e)[-700:]))
                else:
                    go(part[:len(part) // 2]); go(part[len(part) // 2:])
        go(out)
        tab = collections.defaultdict(lambda: [0, 0, collections.Counter()])
        for i, (op, p, w) in what.items():
            t = tab[op + ":" + p]
            t[1] += 1
            if i in hit: t[0] += 1
            else: t[2][w] += 1
        print(f"== {prop}: {len(out)} damaged recordings, {len(hit)} noticed, {len(crashed)} not evaluated")
        for k in sorted(tab):
            print(f"   {k:32s} {tab[k][0]}/{tab[k][1]}  missed {dict(tab[k][2])}")
        for c in crashed:
            print("   CRASH", c[0], "\n      ", c[1].replace("\n", "\n       "))
        sys.stdout.flush()


main()
