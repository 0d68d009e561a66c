"""What each check runs: the specification models, and the jobs whose recorded traces are validated.

PLANS[prop](ctx) -> dict(models, runs, kinds, what, ...):
  models()  yields (name, TLC result) of specification checks
  runs()    yields (configuration, jobs)
  kinds(k)  does clause kind k belong to this property?
"""
import json, math, random, struct
import vlib
from vlib import bits, split

GAUSS = ["Legendre", "Jacobi", "Laguerre", "Hermite", "Cheb1", "Cheb2"]
NC = ["Midpoint", "Simpson", "Trapezoid"]
ALL = GAUSS + NC
INF, NAN = float("inf"), float("nan")
E = 2.0 ** -52
MINP = -1.0 + E / 2     # the smallest valid parameter


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{prop}/{seed}")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick


# ------------------------------------------------------------------ building blocks
def new(fam, n, dst=0, al=None, be=None, **kw):
    s = dict(op="new", fam=fam, n=n, dst=dst, **kw)
    if fam in ("Jacobi", "Laguerre"):
        s["al"] = bits(0.0 if al is None else al)
    if fam == "Jacobi":
        s["be"] = bits(0.0 if be is None else be)
    return s


def rand_new(rng, fam, n, dst=0, **kw):
    return new(fam, n, dst, al=rand_par(rng), be=rand_par(rng), **kw)


def rand_par(rng):
    c = rng.random()
    if c < 0.15:
        return rng.choice([0.0, -0.5, 0.5, 1.0, 2.0, -0.25, -0.75])
    if c < 0.3:
        return -1 + 10 ** rng.uniform(-8, 0)
    if c < 0.8:
        return rng.uniform(-0.99, 4)
    return rng.uniform(0, 25)


def integ(src, a=None, b=None, f=None, **kw):
    s = dict(op="integ", src=src, f=f or dict(kind="hash"), par=0)
    if a is not None:
        s["a"], s["b"] = bits(a), bits(b)
    s.update(kw)
    return s


def job(i, steps):
    return dict(id=str(i), steps=steps)


BOUNDS = [(-1.0, 1.0), (0.0, 1.0), (1.0, 0.0), (3.0, -2.5), (2.0, 2.0), (0.0, 0.0), (-1e-300, 1e-300), (0.0, 5e-324),
          (1e6, 1e6 + 1e-3), (1e15, 1e15 + 1), (-1e150, 1e150), (-4e307, 4e307), (1e-5, 1e5), (-7.25, -7.0), (0.1, 0.3),
          (-0.0, 1.0), (1.0, 1.0 + E), (-2.0 ** 1021, 2.0 ** 1020)]


def rand_bounds(rng):
    c = rng.random()
    if c < 0.35:
        return rng.choice(BOUNDS)
    if c < 0.7:
        return rng.uniform(-5, 5), rng.uniform(-5, 5)
    m = 10 ** rng.uniform(-20, 20)
    return m * rng.uniform(-1, 1), m * rng.uniform(-1, 1)


def rand_f(rng):
    c = rng.random()
    if c < 0.45:
        return dict(kind="hash", seed=rng.randrange(1 << 30))
    if c < 0.6:
        return dict(kind="hashpos", seed=rng.randrange(1 << 30))
    if c < 0.7:
        return dict(kind="const", c=bits(rng.choice([1.0, -2.5, 1e200, 1e-300, 0.0])))
    if c < 0.8:
        return dict(kind="mono", k=rng.randrange(0, 6))
    return dict(kind="id")


def fast(rng, n, a, b, k=4):
    """an affine integrand, with windows of positions (in units of (b-a)/(2n)) in which every evaluation is recorded"""
    at = {0, 2 * n, rng.randrange(2 * n + 1), rng.randrange(2 * n + 1)} | {2 * m for m in (1 << 16, 1 << 24, 1 << 25, 1 << 31) if m < n} | {m for m in (1 << 24, 1 << 32) if m < 2 * n}
    at = rng.sample(sorted(at), min(k, len(at)))
    win = []
    for q in at:
        lo, hi = max(0, q - 6), min(2 * n, q + 6)
        xs = [a + (b - a) * ((lo - 0.5) / (2 * n)), a + (b - a) * ((hi + 0.5) / (2 * n))]
        win.append(dict(qlo=split(lo), qhi=split(hi), lo=bits(min(xs)), hi=bits(max(xs))))
    return dict(kind="fast", c=bits(rng.uniform(-5, 5)), s=bits(rng.uniform(-2, 2)), win=win)


def fastg(rng):
    return dict(kind="fast", c=bits(rng.uniform(-5, 5)), s=bits(rng.uniform(-2, 2)))


def spread(rng):
    """two finite bounds some distance apart"""
    while True:
        a, b = rng.uniform(-3, 3), rng.uniform(-3, 3)
        if abs(a - b) > 0.25:
            return a, b


def edit(rng, src, dst, k=1, keep=True, **kw):
    """a document of the rule with k entries altered (keep: by a unit in the last place or so)"""
    ed = []
    for _ in range(k):
        e = dict(i=rng.choice([0, -1, rng.randrange(300), rng.randrange(300)]), c=rng.randrange(2))
        if keep or rng.random() < 0.3:
            e["ulps"] = rng.choice([1, -1, 1, 2, 1 << 20])
        else:
            # nodes stay in [-1, 1]
            e["v"] = bits(rng.choice([0.0, -0.0, 1.0, -1.0, 5e-324, rng.uniform(-1, 1), rng.uniform(-1, 1)] + ([1e300, -1e300, 3.0] if e["c"] else [])))
        ed.append(e)
    return dict(op="edit", src=src, dst=dst, ed=ed, **kw)


def grown(rng, fam, m, dst=1, src=0, **kw):
    """a rule of any family with many pairs, from a document"""
    return [rand_new(rng, fam, 2, src, chk="none"), edit(rng, src, dst, 2, grow=m, **kw)]


def rep(step, times):
    return dict(op="rep", step=step, times=times)


def kset(*ks):
    s = set(ks)
    return lambda k: k in s


ACC = ("node", "weight", "mid0", "mirror")
STRUCT = ("count", "finite", "order", "mid0order", "negweight", "domain", "symmetry", "mass")
IDENT = ("deg", "param", "fam")
SEQ = ("evcount", "evpoint", "value")
PARK = ("parevcount", "parevpoint", "parvalue")
CRASH = ("panic", "hang", "died")


def no_models():
    return iter(())


def mc(c, module, cfg):
    """the model of the quick tier; the deeper one in the thorough tier"""
    def f():
        yield model(c, module, cfg)
        if c.thorough and module in ("MCRules.tla", "MCQuad.tla", "MCParams.tla"):
            yield "BigIntCheck", vlib.model_check("BigIntCheck.tla", "BigIntCheck.cfg")
    return f


def model(c, module, cfg):
    name = cfg[:-4] + ("Deep" if c.thorough else "")
    return name, vlib.model_check(module, name + ".cfg")


# ------------------------------------------------------------------ C01..C05: rules against the oracle
def sample_idx(rng, n, k):
    m = (n + 1) // 2
    base = {1, 2, n, n - 1, m, m + 1, max(1, m - 1)}
    base |= {rng.randrange(1, n + 1) for _ in range(k)}
    # the first 25 from either end use tabulated Bessel zeros
    base |= {rng.randrange(1, 26), n + 1 - rng.randrange(1, 26)}
    return sorted(i for i in base if 1 <= i <= n)


def some(rng, fam, n, dst=0, al=None, be=None, k=8, **kw):
    """a construction of larger degree: the structure of all pairs and the accuracy of some is judged"""
    m = (n + 1) // 2
    at = {1, 2, n - 1, n, m, m + 1} | {rng.randrange(1, n + 1) for _ in range(k)}
    return new(fam, n, dst, al, be, chk="some", at=sorted(i for i in at if 1 <= i <= n), **kw)


# sizes of thread pools (0: the global one)
THREADS = list(range(17)) + [24, 33]


def large_gw(rng, thorough):
    """degrees whose outermost weights are tiny or underflow"""
    return [("Laguerre", rng.randrange(200, 260)), ("Hermite", 420 + rng.randrange(20)), ("Jacobi", rng.randrange(150, 300)), ("Laguerre", rng.randrange(100, 200)), ("Hermite", rng.randrange(150, 400))] + (
        [("Laguerre", 400), ("Hermite", 601), ("Jacobi", 500)] if thorough else [])


def huge(rng, k):
    """degrees that single precision cannot represent"""
    return ([16777219] + [rng.randrange(1 << 24, 20000000) | 1 for _ in range(k)] + [(1 << 25) + 3, 1 << 20, 1048577])[:k] if k > 1 else [rng.randrange(1 << 24, 18000000) | 1]


def huge_idx(rng, n, k):
    return sorted({1, n, (n + 1) // 2, 100, n - 100} | {rng.randrange(4001, n - 4000) for _ in range(k)})


def larger(rng, lo, hi, k, more=()):
    """k random degrees and the neighbourhoods of powers of two"""
    base = [v + d for v in (64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048) for d in (-1, 0, 1, 2) if lo <= v + d <= hi]
    return sorted(set(base) | {rng.randrange(lo, hi + 1) for _ in range(k)} | set(more))


def p_c01(c):
    rng = c.rng

    def runs():
        js = []
        full = c.pick(160, 420)
        for n in range(1, full + 1):
            js.append(job(f"leg{n}", [new("Legendre", n), new("Legendre", n, 1, par=1, thr=rng.choice([1, 2, 3, 8]), log="none")]))
        # every node index that uses a table beyond the tabulated degrees
        for n in c.pick([500, 1001], [500, 501, 777, 1000, 2001]):
            js.append(job(f"legends{n}", [new("Legendre", n, log="idx", idx=list(range(1, 31)) + list(range(n - 29, n + 1)))]))
        step = c.pick(3, 1)
        for n in range(full + 1, 1200, 1):
            k = c.pick(1, 6)
            if c.thorough or n % step == c.seed % step:
                js.append(job(f"legs{n}", [new("Legendre", n, log="idx", idx=sample_idx(rng, n, k))]))
        # the structure of every rule in a row
        for n in range(full + 1, c.pick(640, 1600)):
            js.append(job(f"legw{n}", [some(rng, "Legendre", n, k=1)]))
        big = [1500, 2047, 2048, 4096, 10001, 65535, 65536, 65537, 100000]
        for n in big[: c.pick(9, 9)]:
            idx = sample_idx(rng, n, 1)
            js.append(job(f"legb{n}", [new("Legendre", n, log="idx", idx=rng.sample(idx, c.pick(2, 6)) if n > 5000 else idx)]))
        if c.thorough:
            js.append(job("legm", [new("Legendre", 1000000, log="idx", idx=[1, 17, 400000, 1000000 - 20])]))
        for n in huge(rng, c.pick(1, 4)):
            js.append(job(f"legh{n}", [new("Legendre", n, log="idx", idx=huge_idx(rng, n, 12)), new("Legendre", n, 1, par=1, thr=4, log="none")]))
        rng.shuffle(js)
        yield "full", js
        js = [job(f"dleg{n}", [new("Legendre", n)]) for n in c.pick(list(range(101, 140, 3)) + [2, 50, 100], list(range(1, 260)))]
        js += [job(f"dlegs{n}", [new("Legendre", n, log="idx", idx=sample_idx(rng, n, 3))]) for n in c.pick([333, 1024], range(260, 1500, 13))]
        yield "default", js

    return dict(models=mc(c, "MCRules.tla", "MCRulesLeg.cfg"), runs=runs, kinds=kset(*ACC, *STRUCT, "deg", "parnew", *CRASH),
                what="Legendre rules of consecutive degrees, every node and weight, and sampled nodes of large degrees, "
                     "against the three-term recurrence in 192-bit fixed point evaluated by TLC",
                assumptions=["sampled nodes beyond the consecutive range", "192-bit arithmetic is exact enough for tolerance 16 * 2^-53"])


JSPECIAL = [MINP, -1 + E, -1 + 3e-14, -1 + 1e-9, -1 + 1e-4, -0.75, -0.5, -0.25, -1 / 3, 0.0, -0.0, 1e-300, 1e-17, -1e-17, 1e-9, 0.5, 1.0, 2.0, 7.0, 31.5]


def jac_pair_steps(n, al, be, dst=0, **kw):
    out = [new("Jacobi", n, dst, al, be, **kw)]
    if al != be:
        out.append(new("Jacobi", n, dst + 1, be, al, **kw))
    return out


def p_c02(c):
    rng = c.rng

    def gen(k_special, k_rand, k_sum, k_big, nmax):
        js = []
        pairs = [(a, b) for a in JSPECIAL for b in JSPECIAL if a <= b]
        for i in range(k_special):
            a, b = pairs[i % len(pairs)] if k_special >= len(pairs) else rng.choice(pairs)
            n = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 12]) if i >= len(pairs) or k_special < len(pairs) else [1, 2, 3, 4, 5][i % 5]
            js.append(job(f"sp{i}", jac_pair_steps(n, a, b)))
        for i in range(k_rand):
            js.append(job(f"r{i}", jac_pair_steps(rng.randrange(1, nmax), rand_par(rng), rand_par(rng))))
        for i in range(k_sum):
            al = rng.uniform(-1, 0)
            be = -1 - al + rng.choice([0, 0, 0, 1e-16, -1e-16, 1e-12, -1e-8])
            if be > -1 and al > -1:
                js.append(job(f"s{i}", jac_pair_steps(rng.choice([1, 2, 3, 4, 5, 9, 16, 33]), al, be)))
        for i in range(k_big):
            a = rng.choice([30.0, 60.0, 90.0, 120.0, 150.0, 165.0, rng.uniform(20, 168)])
            b = rng.choice([0.0, 0.5, -0.5, 30.0, 60.0, 100.0, rng.uniform(-1 + 1e-9, 100)])
            js.append(job(f"b{i}", jac_pair_steps(rng.choice([1, 2, 3, 4, 7, 10, 20, 31]), a, b)))
        return js

    def runs():
        js = gen(*c.pick((210, 90, 40, 40, 24), (1200, 900, 300, 250, 60)))
        # all degrees in a row for a few parameters
        for al, be in c.pick([(0.5, -0.25), (-0.5, 0.5)], [(0.5, -0.25), (-0.5, 0.5), (2.0, 0.0), (-0.9, -0.1), (0.0, 1.0), (0.3, 0.3), (-0.75, -0.75)]):
            for n in range(1, c.pick(25, 70)):
                js.append(job(f"d{n}_{al}_{be}", [new("Jacobi", n, al=al, be=be)]))
        for n in c.pick([50, 64, 77], [50, 64, 77, 100, 128, 200]):
            js.append(job(f"n{n}", [new("Jacobi", n, al=rand_par(rng), be=rand_par(rng))]))
            js.append(job(f"nn{n}", [new("Jacobi", n, al=1.25, be=1.25)]))
        # the special parameters are computed by other rules
        for n in c.pick([1, 2, 3, 9, 30], list(range(1, 60))):
            for p in (0.0, 0.5, -0.5):
                js.append(job(f"dl{n}{p}", [new("Jacobi", n, al=p, be=p)]))
                js.append(job(f"dm{n}{p}", [new("Jacobi", n, al=p, be=rng.choice([p + 1e-9, p + E, 0.25, -p - 1e-7 if p else 1e-12]))]))
        # large parameters whose total weight is representable all the same
        for i in range(c.pick(24, 200)):
            al = 10 ** rng.uniform(2.2, 4.9)
            be = al * rng.choice([1, 1, rng.uniform(0.97, 1.03), rng.uniform(0.5, 2) if al < 900 else 1 + rng.uniform(-1, 1) * 10 / al ** 0.5])
            js.append(job(f"huge{i}", jac_pair_steps(rng.randrange(1, 12), al, be)))
        # neighbourhoods of the special parameters
        for i in range(c.pick(60, 400)):
            p = (0.0, -0.5, 0.5)[i % 3]
            d, e = (rng.choice([1, -1]) * 10 ** rng.uniform(-13.2, -3) for _ in range(2))
            al, be = rng.choice([(p + d, p + d), (p + d, p + e), (p + d, p - d), (p + d, p)])
            js.append(job(f"hood{i}", jac_pair_steps(rng.randrange(1, 9), al, be)))
        # nearly equal parameters, one after the other
        for i in range(c.pick(24, 150)):
            n, al, be = rng.randrange(2, 12), rand_par(rng), rand_par(rng)
            st = []
            for d in rng.sample([0.0, 1e-15, 1e-12, 1e-9, 1e-7, 1e-6, 1e-4, 1e-3], 3):
                st += [new("Jacobi", n, 0, al + d * max(1, abs(al)), be), new("Jacobi", n, 0, al, be + d * max(1, abs(be)))]
            js.append(job(f"near{i}", st))
        for n in larger(rng, 60, c.pick(530, 1030), c.pick(8, 80)):
            js.append(job(f"big{n}", [some(rng, "Jacobi", n, 0, *rng.choice([(rand_par(rng), rand_par(rng)), (0.3, 0.3), (rng.uniform(20, 80), rng.uniform(20, 80)), (-0.5, 0.5)]))]))
        for n in range(13, c.pick(150, 300)):
            al, be = rand_par(rng), rand_par(rng)
            js.append(job(f"row{n}", [some(rng, "Jacobi", n, 0, al, al, k=1), some(rng, "Jacobi", n, 1, al, be, k=1)] + ([some(rng, "Jacobi", n, 2, be, al, k=1)] if n % 2 else [])))
        # skewed odd rules: the middle node (known finding)
        for n in (3, 5, 7, 9, 11):
            js.append(job(f"mid{n}", [new("Jacobi", n, al=7.0, be=-0.5)]))
        rng.shuffle(js)
        yield "full", js
        js = gen(*c.pick((40, 30, 15, 15, 16), (250, 300, 100, 80, 40)))
        yield "default", js

    return dict(models=mc(c, "MCRules.tla", "MCRulesJac.cfg"), runs=runs, kinds=kset(*ACC, "count", "order", "finite", "domain", "negweight", "mass", "symmetry", *CRASH),
                what="Jacobi rules for special, random, degenerate (sum -1), extreme and large parameters, every node and weight "
                     "against the three-term recurrence in 192-bit fixed point evaluated by TLC, and mirrored parameter pairs",
                assumptions=["parameters sampled", "degrees up to 530 (1030 thorough), of the larger ones sampled nodes"])


def p_c03(c):
    rng = c.rng
    als = [MINP, -1 + 1e-9, -0.9, -0.5, 0.0, 0.5, 1.0, 2.5, 7.3, 30.0, 100.0, 150.0, 160.0, 168.0]

    def gen(nmax, k):
        js = [job(f"d{n}", [new("Laguerre", n, al=0.0), new("Laguerre", n, 1, al=als[n % len(als)])]) for n in range(1, nmax)]
        js += [job(f"r{i}", [new("Laguerre", rng.randrange(1, nmax), al=rand_par(rng))]) for i in range(k)]
        js += [job(f"a{i}", [new("Laguerre", n, al=a)]) for i, a in enumerate(als) for n in (1, 2, 3, 5, 10, 20)]
        js += [job(f"b{i}", [new("Laguerre", rng.choice([1, 2, 4, 9, 17]), al=rng.uniform(0, 169))]) for i in range(k // 3)]
        js += [job(f"B{i}", [new("Laguerre", rng.choice([1, 2, 3, 8]), al=rng.uniform(155, 170.5))]) for i in range(max(12, k // 4))]
        js += [job(f"g{i}", [new("Laguerre", 2, al=a - 1 + d)]) for i, a in enumerate(range(1, 30)) for d in (0.0, 0.5) if a - 1 + d > -1]
        return js

    def runs():
        js = gen(*c.pick((48, 60), (90, 500)))
        js += [job(f"n{n}", [new("Laguerre", n, al=rand_par(rng))]) for n in c.pick([64, 80], [100, 128, 150, 200])]
        # nearly equal parameters, one after the other
        for i in range(c.pick(16, 100)):
            n, al = rng.randrange(2, 14), rand_par(rng)
            js.append(job(f"near{i}", [new("Laguerre", n, 0, al + d * max(1, abs(al))) for d in rng.sample([0.0, 1e-15, 1e-12, 1e-9, 1e-7, 1e-6, 1e-4, 1e-3], 4)]))
        for n in range(48, c.pick(170, 400)):
            js.append(job(f"row{n}", [some(rng, "Laguerre", n, 0, rand_par(rng), k=1), some(rng, "Laguerre", n, 1, 0.0, k=1)]))
        for n in larger(rng, 60, c.pick(530, 1030), c.pick(8, 80)):
            js.append(job(f"big{n}", [some(rng, "Laguerre", n, 0, al) for al in (rand_par(rng), rng.uniform(20, 120))[: 2 if n < 300 else 1]]))
        rng.shuffle(js)
        yield "full", js
        yield "default", gen(*c.pick((18, 24), (50, 200)))

    return dict(models=mc(c, "MCRules.tla", "MCRulesLag.cfg"), runs=runs, kinds=kset(*ACC, "count", "order", "finite", "domain", "negweight", "mass", *CRASH),
                what="Laguerre rules for special, random and large alpha, every node and weight against the recurrence in 192-bit "
                     "fixed point evaluated by TLC", assumptions=["alpha sampled", "degrees up to 530 (1030 thorough), of the larger ones sampled nodes"])


def p_c04(c):
    rng = c.rng

    def runs():
        js = [job(f"h{n}", [new("Hermite", n)]) for n in range(1, c.pick(90, 200))]
        js += [job(f"h{n}", [new("Hermite", n)]) for n in c.pick([100, 127, 128], [220, 255, 256, 257, 300])]
        js += [job(f"big{n}", [some(rng, "Hermite", n)]) for n in range(90, c.pick(280, 520), c.pick(2, 1))]
        js += [job(f"big{n}", [some(rng, "Hermite", n)]) for n in larger(rng, 100, c.pick(800, 1030), c.pick(6, 60))]
        rng.shuffle(js)
        yield "full", js
        yield "default", [job(f"d{n}", [new("Hermite", n)]) for n in c.pick(list(range(1, 40)), list(range(1, 140)))]

    return dict(models=mc(c, "MCRules.tla", "MCRulesHer.cfg"), runs=runs, kinds=kset(*ACC, "count", "order", "finite", "negweight", "mass", "symmetry", *CRASH),
                what="Hermite rules of consecutive degrees, every node and weight against the recurrence in 192-bit fixed point evaluated by TLC",
                assumptions=["degrees up to 800 (1030 thorough), of the larger ones sampled nodes"])


def p_c05(c):
    rng = c.rng

    def runs():
        js = []
        for n in range(1, c.pick(110, 300)):
            t = rng.choice([1, 2, 3, 8])
            js.append(job(f"c{n}", [new("Cheb1", n), new("Cheb2", n, 1), new("Cheb1", n, 2, par=1, thr=t, log="none"), new("Cheb2", n, 3, par=1, thr=t, log="none")]))
        for n in range(c.pick(110, 300), c.pick(600, 1500)):
            js.append(job(f"row{n}", [some(rng, "Cheb1", n, k=1), some(rng, "Cheb2", n, 1, k=1)]))
        for n in c.pick([255, 256, 1000, 4097, 65536, 100001], list(range(300, 1500, 37)) + [4096, 4097, 65535, 65536, 65537, 100001, 1000000]):
            idx = sample_idx(rng, n, c.pick(6, 20))
            js.append(job(f"cs{n}", [new("Cheb1", n, log="idx", idx=idx), new("Cheb2", n, 1, log="idx", idx=idx),
                                     new("Cheb1", n, 2, par=1, thr=3, log="none"), new("Cheb2", n, 3, par=1, thr=3, log="none")]))
        for n in huge(rng, c.pick(1, 4)):
            idx = huge_idx(rng, n, c.pick(8, 20))
            for fam in ("Cheb1", "Cheb2"):
                js.append(job(f"h{fam}{n}", [new(fam, n, log="idx", idx=idx), new(fam, n, 1, par=1, thr=4, log="none")]))
        rng.shuffle(js)
        yield "full", js
        yield "default", [job(f"d{n}", [new("Cheb1", n), new("Cheb2", n, 1)]) for n in c.pick(list(range(1, 60)) + [333], list(range(1, 400)))]

    return dict(models=mc(c, "MCRules.tla", "MCRulesCheb.cfg"), runs=runs, kinds=kset(*ACC, "count", "order", "finite", "domain", "negweight", "mass", "symmetry", "deg", "parnew", *CRASH),
                what="Chebyshev rules of both kinds, sequential and parallel, against the closed forms in 192-bit fixed point evaluated by TLC",
                assumptions=["sampled nodes beyond the consecutive range"])


# ------------------------------------------------------------------ C06..C09, C18: integration
def const_pair(rng, a, b):
    """the value is known whatever the order of the points: sharp where they nearly coincide"""
    f = dict(kind="const", c=bits(rng.choice([1.0, -3.0, rng.uniform(-9, 9), 2.0 ** rng.randrange(-40, 40)])))
    return [integ(0, a, b, f), integ(0, a, b, f, par=1, thr=rng.choice([1, 3, 8]))]


def extremes(rng, fam, points, par):
    """one enormous or minute value at each sample point, zero elsewhere"""
    out = []
    for i in range(points):
        for v in (2.0 ** rng.uniform(1019, 1020.9), 2.0 ** rng.uniform(1020, 1023.9), 2.0 ** rng.uniform(-1074, -1020), 2.0 ** rng.uniform(-1000, 1000)):
            a, b = rng.choice([(0.0, 1.0), (-1.0, 1.0), (rng.uniform(-3, 3), rng.uniform(-3, 3))])
            out.append(integ(0, a, b, dict(kind="onehot", v=bits(rng.choice([v, -v]))), op="integ_at", i=i, par=rng.randrange(2) if par else 0, thr=rng.choice([1, 2, 5])))
    return out


def nc_integs(rng, src, fam, n, k, par_too=True):
    out = []
    for _ in range(k):
        a, b = rand_bounds(rng)
        f = rand_f(rng)
        out.append(integ(src, a, b, f))
        if par_too:
            out.append(integ(src, a, b, f, par=1, thr=rng.choice([0, 1, 2, 3, 8])))
    return out


def p_c06(c):
    rng = c.rng

    def runs():
        js = []
        degs = list(range(1, c.pick(41, 130))) + c.pick([64, 100, 127, 128, 129, 255, 256, 257, 500], [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4096])
        for n in degs:
            for fam in NC:
                st = [new(fam, n, via=rng.choice(["new", "from"]))]
                st += nc_integs(rng, 0, fam, n, c.pick(5, 16) if n < 130 else 2)
                # each sample point alone: its weight
                for _ in range(c.pick(3, 12)):
                    a, b = rng.uniform(-3, 3), rng.uniform(-3, 3)
                    st.append(integ(0, a, b, dict(kind="onehot"), op="integ_at", i=rng.randrange(0, 4 * n), par=rng.randrange(2), thr=3))
                js.append(job(f"{fam}{n}", st))
        for fam in NC:
            for a, b in BOUNDS:
                n = rng.choice([1, 2, 3, 7, 10])
                js.append(job(f"b{fam}{a}{b}", [new(fam, n), integ(0, a, b, dict(kind="hashpos")), integ(0, a, b, dict(kind="hashpos"), par=1, thr=2), *const_pair(rng, a, b)]))
            # every evaluation and the value at a large degree
            for n in c.pick([1031, rng.choice([4099, 8191])], [1031, 4099, 8191, 20011]):
                a, b = rng.uniform(-3, 3), rng.uniform(-3, 3)
                f = rand_f(rng)
                js.append(job(f"ev{fam}{n}", [new(fam, n), integ(0, a, b, f), integ(0, a, b, f, par=1, thr=rng.choice([0, 2, 8]))]))
            # large degrees: number of evaluations only, and faults at maximal degree
            st = []
            for n in c.pick([100000, 1000003], [100000, 1000003, 20000000]):
                st += [new(fam, n), integ(0, 0.0, 1.0, dict(kind="const", c=bits(1.0)), ev=0), integ(0, 0.0, 1.0, dict(kind="const", c=bits(1.0)), ev=0, par=1, thr=8)]
            for n in (4294967295, 4294967294, 2147483648, 2147483647):
                st += [new(fam, n), integ(0, 0.0, 1.0, dict(kind="hash", panic_at=5), ev=0)]
            js.append(job(f"big{fam}", st))
            for n in c.pick([65537, 35000003], [65537, 10000019, 35000003, 150000001]):
                a, b = spread(rng)
                js.append(job(f"fast{fam}{n}", [new(fam, n), integ(0, a, b, fast(rng, n, a, b), ev=0), integ(0, a, b, fast(rng, n, a, b), ev=0, par=1, thr=8)]))
            # integrand values of very different magnitudes
            for n in (1, 2, 3, 4, 9, 20, 33):
                st = [new(fam, n)]
                for lo, hi in ((900, 1023), (-1070, -900), (-1074, 1000), (400, 600), (-300, 300)):
                    a, b = rand_bounds(rng)
                    f = dict(kind="hashmag", lo=lo, hi=hi, seed=rng.randrange(1 << 20))
                    st += [integ(0, a, b, f), integ(0, a, b, f, par=1, thr=2)]
                js.append(job(f"mag{fam}{n}", st))
            for n in (1, 2, 3, 6):
                js.append(job(f"ext{fam}{n}", [new(fam, n)] + extremes(rng, fam, {"Trapezoid": n + 1, "Simpson": 2 * n + 1}.get(fam, n), False)))
                js.append(job(f"extp{fam}{n}", [new(fam, n)] + extremes(rng, fam, {"Trapezoid": n + 1, "Simpson": 2 * n + 1}.get(fam, n), True)))
        # changed degrees
        for i in range(c.pick(12, 80)):
            fam = rng.choice(NC)
            st = [new(fam, rng.randrange(1, 30))]
            for _ in range(5):
                st.append(dict(op="change_degree", src=0, n=rng.randrange(1, 40)))
                st += nc_integs(rng, 0, fam, 0, 1)
            js.append(job(f"ch{i}", st))
        rng.shuffle(js)
        yield "full", js
        yield "default", [job(f"d{fam}{n}", [new(fam, n)] + nc_integs(rng, 0, fam, n, 3, False)) for fam in NC for n in range(1, c.pick(12, 60))]

    return dict(models=mc(c, "MCQuad.tla", "MCQuadNC.cfg"), runs=runs, kinds=kset(*SEQ, *PARK, "swallow", "parswallow", *CRASH),
                what="every evaluation and the returned value of midpoint, trapezoid and Simpson integrations, sequential and parallel, "
                     "against the exact composite rules (dyadic rationals in TLC)", assumptions=["degrees, bounds and integrands sampled"])


def gauss_rule(rng, fam, nmax, dst=0):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5]) if rng.random() < 0.4 else rng.randrange(1, nmax)
    return rand_new(rng, fam, n, dst, chk="none")


def p_c08(c):
    rng = c.rng

    def gen(count, nmax, cfg):
        js = []
        for i in range(count):
            fam = GAUSS[i % 6]
            st = [gauss_rule(rng, fam, nmax)]
            for _ in range(4):
                a, b = rand_bounds(rng)
                st.append(integ(0, a, b, rand_f(rng)))
            st.append(integ(0, rng.uniform(-3, 3), rng.uniform(-3, 3), dict(kind="seq", seed=rng.randrange(1000))))
            st.append(integ(0, rng.uniform(-3, 3), rng.uniform(-3, 3), dict(kind="onehot"), op="integ_at", i=rng.randrange(60)))
            st.append(integ(0, rng.uniform(-3, 3), rng.uniform(-3, 3), dict(kind="hash"), fine=1))
            js.append(job(f"{cfg}{i}", st))
        return js

    def runs():
        js = gen(*c.pick((330, 40), (2400, 90)), "f")
        for fam in GAUSS:
            for a, b in BOUNDS:
                js.append(job(f"b{fam}{a}{b}", [gauss_rule(rng, fam, 12), integ(0, a, b, dict(kind="hashpos")), const_pair(rng, a, b)[0]]))
            for n in list(range(1, 24)) + c.pick([101, 128], [100, 101, 128, 257]):
                js.append(job(f"n{fam}{n}", [rand_new(rng, fam, n, chk="none"), integ(0, *rand_bounds(rng), dict(kind="hash")), integ(0, -1.0, 1.0, dict(kind="hashpos"))]))
        for fam in ("Legendre", "Cheb1", "Cheb2"):
            for n in c.pick([1025, 4097], [1024, 1025, 2049, 4097, 10007]):
                a, b = rand_bounds(rng)
                js.append(job(f"N{fam}{n}", [new(fam, n, chk="none"), integ(0, a, b, dict(kind="hash")), integ(0, b, a, dict(kind="hashpos"))]))
        for fam in ("Legendre", "Cheb1", "Cheb2"):
            for n in c.pick([1, 3, 65537, 1000003], [1, 2, 3, 4097, 40001, 65535, 65536, 65537, 262147, 1000003, 5000011]):
                a, b = spread(rng)
                js.append(job(f"fast{fam}{n}", [new(fam, n, chk="none", log="none"), integ(0, a, b, fastg(rng), ev=0), integ(0, b, a, fastg(rng), ev=0)]))
        for fam, n in large_gw(rng, c.thorough):
            st = [rand_new(rng, fam, n, chk="none")]
            for f in (dict(kind="hash"), dict(kind="hashpos"), dict(kind="hashmag", lo=-300, hi=300, seed=n)):
                st.append(integ(0, *rand_bounds(rng), f))
            js.append(job(f"gw{fam}{n}", st))
        for fam in GAUSS:
            for n in (1, 2, 3, 7, 20):
                st = [rand_new(rng, fam, n, chk="none")]
                for lo, hi in ((900, 1023), (-1070, -900), (-1074, 1000), (400, 600), (-300, 300)):
                    st.append(integ(0, *rand_bounds(rng), dict(kind="hashmag", lo=lo, hi=hi, seed=rng.randrange(1 << 20))))
                js.append(job(f"mag{fam}{n}", st))
            for n in (1, 2, 3, 6):
                js.append(job(f"ext{fam}{n}", [rand_new(rng, fam, n, chk="none")] + extremes(rng, fam, n, False)))
        # rules of arbitrary data
        for i in range(c.pick(30, 300)):
            fam = GAUSS[i % 6]
            n = rng.choice([1, 2, 3, 5, 8, 20])
            st = [rand_new(rng, fam, n, 0, chk="none")]
            for k in range(4):
                st += [edit(rng, 0, 1, rng.randrange(1, 5), False), dict(op="views", src=1)]
                for _ in range(3):
                    f = rand_f(rng)
                    st.append(integ(1, *rand_bounds(rng), f if f["kind"] != "seq" else None))
                st.append(integ(1, *rand_bounds(rng), dict(kind="hashmag", lo=-1074, hi=1000, seed=k)))
            js.append(job(f"doc{i}", st))
        for fam in GAUSS:
            for m in [rng.randrange(300, 2000)] + c.pick([], [1024, 1025, 4097]):
                a, b = spread(rng)
                js.append(job(f"grown{fam}{m}", grown(rng, fam, m) + [integ(1, a, b, dict(kind="hash")), integ(1, b, a, dict(kind="hashpos"))]))
        for i, fam in enumerate(GAUSS):
            sub = integ(i % 2, 0.25, 1.5, dict(kind="hash", seed=1))
            js.append(job(f"deep{fam}", [new(fam, rng.randrange(2, 5), 0, 0.5, 0.25, chk="none"), new(fam, rng.randrange(40, 70), 1, -0.25, 1.5, chk="none"),
                                        integ(i % 2, 0.0, 2.0, dict(kind="nest", sub=dict(sub, src=1 - i % 2)), fine=1)]))
        # an integrand that integrates with the same or another rule
        for i in range(c.pick(36, 200)):
            st = [gauss_rule(rng, rng.choice(GAUSS), 8), gauss_rule(rng, rng.choice(GAUSS), 8, 1)]
            sub = integ(rng.randrange(2), rng.uniform(-2, 2), rng.uniform(-2, 2), dict(kind="hash"), fine=1)
            st.append(integ(0, rng.uniform(-2, 2), rng.uniform(-2, 2), dict(kind="nest", sub=sub), fine=1))
            js.append(job(f"nest{i}", st))
        rng.shuffle(js)
        yield "full", js
        yield "default", gen(*c.pick((60, 20), (400, 60)), "d")

    return dict(models=mc(c, "MCQuad.tla", "MCQuadGauss.cfg"), runs=runs, kinds=kset(*SEQ, *CRASH),
                what="every evaluation and the returned value of sequential Gauss integrations against the exact weighted sum over the "
                     "affinely mapped recorded nodes (dyadic rationals in TLC)", assumptions=["rules, bounds and integrands sampled"])


def order_jobs(c, num):
    """execution orders printed by the fork-join model, replayed through the real pool"""
    js, r = vlib.generate("ParReduce.tla", "GenParReduce.cfg", simulate=num, depth=90, seed=c.seed)
    return js, r


def p_c09(c):
    rng = c.rng
    gen_res = []

    def models():
        yield "ParReduce", model(c, "ParReduce.tla", "MCParReduce.cfg")[1]
        orders, r = order_jobs(c, c.pick(1200, 6000))
        gen_res.extend(orders)
        yield "ParReduce (behaviours for replay)", r

    def runs():
        js = []
        # schedules of the model, steered through the real pool
        for i, (n, t, order) in enumerate(gen_res):
            fam = rng.choice(ALL)
            m = {"Trapezoid": n - 1, "Simpson": (n - 1) // 2}.get(fam, n)
            if m < 1:
                fam, m = "Hermite", n
            a, b = rng.uniform(-2, 2), rng.uniform(-2, 2)
            f = dict(kind="hash", seed=i)
            js.append(job(f"o{i}", [rand_new(rng, fam, m, chk="none"), integ(0, a, b, f),
                                    integ(0, a, b, dict(f, order=order), par=1, thr=t, fine=1)]))
        for i in range(c.pick(340, 2500)):
            fam = ALL[i % 9]
            n = rng.choice([1, 2, 3]) if rng.random() < 0.25 else rng.randrange(1, c.pick(60, 160))
            st = [rand_new(rng, fam, n, chk="none")]
            for _ in range(2):
                a, b = rand_bounds(rng)
                f = rand_f(rng)
                st.append(integ(0, a, b, f))
                for t in rng.sample(THREADS, 3):
                    g = dict(f)
                    if rng.random() < 0.4:
                        g["stall"] = rng.randrange(1, 1000)
                    elif rng.random() < 0.2:
                        g.update(steer=rng.randrange(1, 1000), steer_n=rng.randrange(2, 12))
                    st.append(integ(0, a, b, g, par=1, thr=t))
            st.append(integ(0, 0.0, 1.0, dict(kind="onehot"), op="integ_at", i=rng.randrange(100), par=1, thr=rng.choice([1, 4])))
            js.append(job(f"p{i}", st))
        # sizes that are (nearly) multiples of the size of the pool
        for t in THREADS[1:]:
            for fam in ALL:
                st = []
                for n in sorted({max(1, rng.randrange(1, 4) * t + d) for d in c.pick((0, 1, -1), (0, 1, -1, 2, t // 2))}):
                    m = max(1, {"Trapezoid": n - 1, "Simpson": (n - 1) // 2}.get(fam, n))
                    st += [rand_new(rng, fam, m, chk="none"), integ(0, *spread(rng), dict(kind="hash", seed=n), par=1, thr=t)]
                js.append(job(f"T{fam}{t}", st))
        for fam in ("Legendre", "Cheb1", "Cheb2") + tuple(NC):
            for n in c.pick([1025, 4097], [1024, 1025, 2049, 4097, 10007]):
                js.append(job(f"N{fam}{n}", [new(fam, n, chk="none")] + [integ(0, 1.5, -2.0, dict(kind="hash"), par=1, thr=t) for t in rng.sample(THREADS, 2)] + [integ(0, 1.5, -2.0, dict(kind="hash"))]))
        for fam in ALL:
            for a, b in BOUNDS:
                js.append(job(f"b{fam}{a}{b}", [rand_new(rng, fam, rng.choice([1, 2, 3, 7, 10]), chk="none"), *const_pair(rng, a, b), integ(0, a, b, dict(kind="hashpos"), par=1, thr=3)]))
            for n in (1, 2, 3, 6):
                js.append(job(f"ext{fam}{n}", [rand_new(rng, fam, n, chk="none")] + extremes(rng, fam, {"Trapezoid": n + 1, "Simpson": 2 * n + 1}.get(fam, n), True)))
        # rules of arbitrary data
        for i in range(c.pick(18, 200)):
            fam = GAUSS[i % 6]
            st = [rand_new(rng, fam, rng.choice([1, 2, 3, 5, 8, 20, 70]), 0, chk="none")]
            for k in range(3):
                bs = rand_bounds(rng)
                st += [edit(rng, 0, 1, rng.randrange(1, 5), False), integ(1, *bs), integ(1, *bs, par=1, thr=rng.choice([0, 1, 2, 3, 8]))]
            js.append(job(f"doc{i}", st))
        for fam in GAUSS:
            for m in [1025, rng.randrange(300, 5000)] + c.pick([], [1024, 4097, 10007]):
                a, b = spread(rng)
                f = dict(kind="hashpos", seed=m)
                js.append(job(f"grown{fam}{m}", grown(rng, fam, m) + [integ(1, a, b, f)] + [integ(1, a, b, f, par=1, thr=t) for t in rng.sample(THREADS, 3)]))
        for fam in ("Legendre", "Cheb1", "Cheb2"):
            for n in c.pick([65537, 1000003], [1, 2, 3, 4097, 40001, 65535, 65536, 65537, 262147, 1000003, 5000011]):
                a, b = spread(rng)
                js.append(job(f"fast{fam}{n}", [new(fam, n, chk="none", log="none", par=1, thr=4)] + [integ(0, a, b, fastg(rng), ev=0, par=1, thr=t) for t in (1, 3, 8, 0)]))
        for fam in NC:
            for n in c.pick([35000003], [10000019, 35000003, 150000001]):
                a, b = spread(rng)
                js.append(job(f"fast{fam}{n}", [new(fam, n)] + [integ(0, a, b, fast(rng, n, a, b, 6), ev=0, par=1, thr=t) for t in (1, 3, 8, 0)]))
            for n in c.pick([3, 20], [1, 2, 3, 9, 20, 33]):
                f = dict(kind="hashmag", lo=-1074, hi=1010, seed=n)
                js.append(job(f"mag{fam}{n}", [new(fam, n), integ(0, -1.0, 2.0, f), integ(0, -1.0, 2.0, f, par=1, thr=3)]))
        for fam, n in large_gw(rng, c.thorough):
            f = dict(kind="hash", seed=n)
            a, b = rand_bounds(rng)
            js.append(job(f"gw{fam}{n}", [rand_new(rng, fam, n, chk="none"), integ(0, a, b, f)] + [integ(0, a, b, f, par=1, thr=t) for t in (0, 2, 8)]))
        for fam in ALL:
            n = c.pick(400, 3000) if fam not in ("Jacobi", "Laguerre", "Hermite") else c.pick(120, 200)
            js.append(job(f"L{fam}", [new(fam, n, chk="none", al=0.5, be=-0.25)] + [integ(0, -1.0, 2.0, dict(kind="hash", stall=s), par=1, thr=t) for s, t in ((0, 8), (3, 4), (5, 2))]))
            if fam in NC:
                for n in (100000, 1 << 20):
                    js.append(job(f"X{fam}{n}", [new(fam, n), integ(0, -1.0, 2.0, dict(kind="const", c=bits(1.0)), par=1, thr=8, ev=0), integ(0, -1.0, 2.0, dict(kind="const", c=bits(1.0)), par=0, ev=0)]))
        rng.shuffle(js)
        yield "full", js
        js = [job(f"r{i}", [rand_new(rng, ALL[i % 9], rng.randrange(1, 30), chk="none"), integ(0, 0.5, 2.0, dict(kind="hash")), integ(0, 0.5, 2.0, dict(kind="hash"), par=1, thr=3)]) for i in range(c.pick(36, 200))]
        yield "rayon", js

    return dict(models=models, runs=runs, kinds=kset(*PARK, "parswallow", *SEQ, *CRASH),
                what="parallel integrations in pools of 1 to 16 threads under perturbed and steered schedules (execution orders taken from "
                     "behaviours of ParReduce), every evaluation and the value against the exact weighted sum within the bound for any summation order",
                assumptions=["the pool's schedules are perturbed and steered, not enumerated; ParReduce covers all of them in the model"])


def p_c10(c):
    rng = c.rng

    def runs():
        js = []
        for fam in ("Legendre", "Cheb1", "Cheb2"):
            degs = list(range(1, c.pick(140, 600))) + c.pick([255, 256, 1000, 1023, 1024, 1025, 4096, 10007, 100003], list(range(600, 3000, 41)) + [4095, 4096, 4097, 65535, 65536, 65537, 100003, 1000003])
            for n in degs:
                st = [new(fam, n, log="none" if n > 300 else "full", chk="struct")]
                for k, t in enumerate(rng.sample(THREADS, c.pick(4, 7))):
                    st.append(new(fam, n, 1 + k, par=1, thr=t, log="none" if n > 300 else "full", chk="none"))
                if n <= 300:
                    st += [dict(op="eq", src=0, src2=k) for k in range(1, 4)]
                js.append(job(f"{fam}{n}", st))
            for n in huge(rng, c.pick(1, 4)):
                js.append(job(f"h{fam}{n}", [new(fam, n, log="none", chk="none")] + [new(fam, n, 1 + k, par=1, thr=t, log="none", chk="none") for k, t in enumerate((3, 0))]))
        # rules larger than every pool, in the widest pools
        for fam in ("Legendre", "Cheb1", "Cheb2"):
            for n in [rng.randrange(4097, 40000), rng.randrange(100001, 700000)] + c.pick([], [rng.randrange(5000, 2000000) for _ in range(6)]):
                js.append(job(f"wide{fam}{n}", [new(fam, n, log="none", chk="none")] + [new(fam, n, 1 + k, par=1, thr=t, log="none", chk="none") for k, t in enumerate([33, 24, 16] + rng.sample(range(9, 16), 2))]))
        # sequential after parallel, and many at once
        for i in range(c.pick(20, 100)):
            n = rng.randrange(1, 300)
            fam = rng.choice(("Legendre", "Cheb1", "Cheb2"))
            st = [new(fam, n, 0, par=1, thr=4, log="none"), new(fam, n, 1, log="none"),
                  dict(op="conc", threads=4, steps=[new(fam, n, 12, par=p, thr=t, log="none") for p, t in ((1, 4), (1, 2), (0, 0), (1, 0))])]
            js.append(job(f"mix{i}", st))
        rng.shuffle(js)
        yield "full", js
        yield "rayon", [job(f"{fam}{n}", [new(fam, n, log="none"), new(fam, n, 1, par=1, thr=3, log="none")]) for fam in ("Legendre", "Cheb1", "Cheb2") for n in c.pick(range(1, 140, 7), range(1, 600))]

    return dict(models=mc(c, "ParReduce.tla", "MCParReduce.cfg"), runs=runs, kinds=kset("parnew", "count", "order", "deg", "eq", *CRASH),
                what="par_new in pools of 0 (global) to 16 threads, also concurrently, against new: same digest of all pairs in order (construction is one function in the specification)",
                assumptions=["schedules of the pool are sampled"])


def p_c07(c):
    rng = c.rng

    def gen(k, cfg):
        js = []
        for fam in GAUSS:
            top = {"Legendre": 200, "Cheb1": 150, "Cheb2": 150}.get(fam, c.pick(160 if cfg == "f" else 60, 300))
            for n in list(range(1, top, c.pick(1, 1) if cfg == "f" else 5)):
                st = [rand_new(rng, fam, n, chk="struct")]
                if fam == "Jacobi" and n > 8:
                    al = rand_par(rng)
                    st.append(new(fam, n, 1, al, al, chk="struct"))
                if fam in ("Legendre", "Cheb1", "Cheb2") and cfg == "f":
                    st.append(new(fam, n, 1, par=1, thr=rng.choice([1, 2, 5]), chk="struct"))
                js.append(job(f"{cfg}{fam}{n}", st))
        for i in range(k):
            al, be = rng.choice(JSPECIAL), rng.choice(JSPECIAL)
            n = rng.choice([1, 2, 3, 4, 5, 6, 9, 20])
            js.append(job(f"{cfg}sp{i}", [new("Jacobi", n, al=al, be=be, chk="struct"), new("Laguerre", n, 1, al=al, chk="struct")]))
        for i in range(k // 2):
            al, be = rng.uniform(0, 168), rng.uniform(-1 + 1e-9, 100)
            js.append(job(f"{cfg}big{i}", [new("Jacobi", rng.randrange(1, 40), al=al, be=be, chk="struct"), new("Laguerre", rng.randrange(1, 40), 1, al=al, chk="struct")]))
        return js

    def runs():
        js = gen(*c.pick((80, "f"), (900, "f")))
        for fam in ("Legendre", "Cheb1", "Cheb2"):
            for n in c.pick([255, 256, 500, 1000, 2049], [500, 1000, 2049, 5000, 10000, 20001]):
                js.append(job(f"L{fam}{n}", [new(fam, n, chk="struct")]))
        for fam in ("Jacobi", "Laguerre", "Hermite"):
            for n in c.pick([100, 150, 200], [200, 300, 400, 500]):
                js.append(job(f"L{fam}{n}", [new(fam, n, al=rng.uniform(-0.9, 3), be=rng.uniform(-0.9, 3), chk="struct")]))
        for n in (3, 5, 7):
            for p, q in ((7.0, -0.5), (31.5, 0.0), (0.0, 31.5)):
                js.append(job(f"mid{n}{p}{q}", [new("Jacobi", n, al=p, be=q, chk="struct")]))
        rng.shuffle(js)
        yield "full", js
        yield "default", gen(*c.pick((20, "d"), (250, "d")))

    return dict(models=mc(c, "MCRules.tla", "MCRulesAll.cfg"), runs=runs, kinds=kset(*STRUCT, *IDENT, *CRASH),
                what="count, strict order, finiteness, domain, signs, total mass, symmetry, reported degree and parameters of rules of all families",
                assumptions=["parameters sampled; total weight representable"])


def p_c18(c):
    rng = c.rng

    def models():
        yield "ParReduce", model(c, "ParReduce.tla", "MCParReduce.cfg")[1]
        yield "GaussQuad", model(c, "MCGaussQuad.tla", "MCGaussQuad.cfg")[1]

    def runs():
        js = []
        for fam in ALL:
            for n in c.pick([1, 2, 3, 5, 8, 17], list(range(1, 24)) + [33, 64]):
                m = {"Trapezoid": n + 1, "Simpson": 2 * n + 1}.get(fam, n)
                a, b = rng.uniform(-2, 2), rng.uniform(-2, 2)
                ref = integ(0, a, b, dict(kind="hash", seed=3))
                st = [rand_new(rng, fam, n, chk="none"), ref]
                # a fault at every evaluation
                for k in range(1, m + 2):
                    st.append(integ(0, a, b, dict(kind="hash", panic_at=k), fine=rng.randrange(2)))
                    st.append(integ(0, a, b, dict(kind="hash", panic_at=k, stall=rng.choice([0, k])), par=1, thr=rng.choice([1, 2, 4, 8])))
                    if rng.random() < 0.4:
                        st.append(integ(0, a, b, dict(kind="hash", panic_at=k, sticky=1), par=1, thr=rng.choice([1, 2, 4, 8])))
                st += [dict(op="state", src=0), ref, dict(op="views", src=0)]
                js.append(job(f"f{fam}{n}", st))
                st = [rand_new(rng, fam, n, chk="none"), ref]
                # a special value at every sample point
                for i in range(m):
                    v = rng.choice([NAN, INF, -INF])
                    st.append(integ(0, a, b, dict(kind="spike", v=bits(v)), op="integ_at", i=i))
                    st.append(integ(0, a, b, dict(kind="spike", v=bits(rng.choice([NAN, INF, -INF]))), op="integ_at", i=i, par=1, thr=rng.choice([1, 2, 4])))
                    st.append(integ(0, a, b, dict(kind="fault_x"), op="integ_at", i=i, par=rng.randrange(2), thr=3))
                    st.append(integ(0, a, b, dict(kind="onehot", v=bits(rng.choice([NAN, INF, -INF]))), op="integ_at", i=i, par=rng.randrange(2), thr=3))
                st += [integ(0, a, b, dict(kind="const", c=bits(v)), par=p, thr=2) for v in (NAN, INF, -INF) for p in (0, 1)]
                st += [dict(op="state", src=0), ref, integ(0, a, b, dict(kind="hash", seed=3), par=1, thr=2)]
                js.append(job(f"s{fam}{n}", st))
        # on unusual intervals: empty, tiny, huge, reversed
        for fam in ALL:
            st = [rand_new(rng, fam, rng.choice([1, 2, 3, 4, 7]), chk="none")]
            for a, b in BOUNDS + [(-1.5, -1.5), (1e300, 1e300), (-0.0, 0.0)]:
                v = lambda: bits(rng.choice([NAN, NAN, INF, -INF]))
                for p in (0, 1):
                    st += [integ(0, a, b, dict(kind=rng.choice(["spike", "onehot"]), v=v()), op="integ_at", i=rng.randrange(20), par=p, thr=2), integ(0, a, b, dict(kind="const", c=v()), par=p, thr=2)]
                st += [integ(0, a, b, dict(kind="hash", panic_at=1), par=rng.randrange(2), thr=2), integ(0, a, b)]
            js.append(job(f"i{fam}", st + [dict(op="state", src=0)]))
        # rules with weights of zero and other unusual values, from documents and from underflow: every node still counts
        for i in range(c.pick(60, 400)):
            fam = GAUSS[i % 6]
            n = rng.choice([1, 2, 3, 5, 12, 12, 40])
            st = [rand_new(rng, fam, n, chk="none")]
            for _ in range(3):
                at = rng.randrange(n)
                st.append(dict(op="edit", src=0, dst=1, ed=[dict(i=at, c=1, v=bits(rng.choice([0.0, 0.0, -0.0, 5e-324, 1e300, -1.0, 1e-310])))]))
                a, b = rng.uniform(-2, 2), rng.uniform(-2, 2)
                for k in {at, rng.randrange(n)}:
                    for p in (0, 1):
                        st += [integ(1, a, b, dict(kind=rng.choice(["spike", "onehot"]), v=bits(rng.choice([NAN, INF, -INF]))), op="integ_at", i=k, par=p, thr=rng.choice([1, 2, 4])),
                               integ(1, a, b, dict(kind="fault_x"), op="integ_at", i=k, par=p, thr=2)]
                st += [integ(1, a, b), integ(1, a, b, par=1, thr=2)]
            js.append(job(f"z{i}", st))
        for fam, n in [("Laguerre", 150), ("Laguerre", 200), ("Hermite", 200), ("Hermite", 400), ("Jacobi", 60), ("Legendre", 101), ("Legendre", 600), ("Cheb1", 400), ("Cheb2", 400)] + c.pick([], [("Hermite", 600), ("Legendre", 3000), ("Laguerre", 300)]):
            st = [rand_new(rng, fam, n, chk="none")]
            a, b = rng.uniform(-2, 2), rng.uniform(-2, 2)
            for k in [0, 1, n // 2, n - 2, n - 1] + [rng.randrange(n) for _ in range(3)]:
                for p in (0, 1):
                    st.append(integ(0, a, b, dict(kind=rng.choice(["spike", "onehot"]), v=bits(rng.choice([NAN, NAN, INF, -INF]))), op="integ_at", i=k, par=p, thr=rng.choice([1, 2, 4])))
                st.append(integ(0, a, b, dict(kind="fault_x"), op="integ_at", i=k, par=rng.randrange(2), thr=3))
                st.append(integ(0, a, b, dict(kind="hash", panic_at=k + 1), par=rng.randrange(2), thr=3))
            js.append(job(f"big{fam}{n}", st))
        for fam in GAUSS:
            n = rng.randrange(1025, 5000)
            st = grown(rng, fam, n)
            for k in [0, 1, n // 2, n - 2, n - 1] + [rng.randrange(n) for _ in range(3)]:
                for p in (0, 1):
                    st.append(integ(1, 0.25, 1.5, dict(kind=rng.choice(["spike", "onehot"]), v=bits(rng.choice([NAN, NAN, INF, -INF]))), op="integ_at", i=k, par=p, thr=rng.choice([1, 2, 4, 8]), fine=0))
            js.append(job(f"grown{fam}{n}", st))
        for fam in NC:
            for n in (100, 1000, 4097):
                st = [new(fam, n)]
                for k in [0, 1, n - 1, n, 2 * n, 2 * n - 1] + [rng.randrange(n) for _ in range(3)]:
                    st += [integ(0, 0.25, 1.5, dict(kind=rng.choice(["spike", "onehot"]), v=bits(rng.choice([NAN, NAN, INF, -INF]))), op="integ_at", i=k, par=p, thr=rng.choice([1, 2, 4])) for p in (0, 1)]
                    st.append(integ(0, 0.25, 1.5, dict(kind="hash", panic_at=k + 1), par=rng.randrange(2), thr=3))
                js.append(job(f"big{fam}{n}", st))
        # nested faults, handled by the outer integrand or passed on
        for i in range(c.pick(60, 300)):
            st = [rand_new(rng, rng.choice(ALL), rng.randrange(1, 7), chk="none"), rand_new(rng, rng.choice(ALL), rng.randrange(1, 7), 1, chk="none")]
            sub = integ(rng.randrange(2), 0.0, 1.0, dict(kind="hash", panic_at=rng.randrange(1, 5)), fine=1)
            st.append(integ(0, -1.0, 1.0, dict(kind="nest", sub=sub, **({"pass": 1} if rng.random() < 0.5 else {})), fine=1))
            st += [dict(op="state", src=0), dict(op="state", src=1), integ(0, 0.0, 1.0), integ(1, 0.0, 1.0)]
            js.append(job(f"n{i}", st))
        # the same fault met by several threads on one rule
        for i in range(c.pick(12, 60)):
            fam = rng.choice(ALL)
            ref = integ(0, 0.0, 1.0, dict(kind="hash"))
            js.append(job(f"c{i}", [rand_new(rng, fam, rng.randrange(2, 20), chk="none"), ref, dict(op="conc", threads=4, steps=[
                ref, integ(0, 0.0, 1.0, dict(kind="hash", panic_at=2)), integ(0, 0.0, 1.0, dict(kind="hash", panic_at=1), par=1, thr=2), ref]), dict(op="state", src=0), ref]))
        rng.shuffle(js)
        yield "full", js

    return dict(models=models, runs=runs, kinds=kset("nopanic", "foreignpanic", "swallow", "parswallow", "reread", "det", "panic", "died", "hang", *SEQ, *PARK, "parnopanic"),
                what="a fault at every evaluation and a NaN or infinity at every sample point of rules of all families, sequential, parallel, nested and concurrent",
                assumptions=["degrees up to 17 (64 thorough)"])


# ------------------------------------------------------------------ C11, C12: views and iterators
def p_c11(c):
    rng = c.rng

    def runs():
        js = []
        for i, fam in enumerate(ALL):
            for n in list(range(1, c.pick(30, 90))) + c.pick([64, 101, 150], [101, 128, 200, 500]):
                st = [rand_new(rng, fam, n, chk="none"), dict(op="views", src=0), dict(op="debug", src=0)]
                st += [integ(0, 0.0, 1.0), dict(op="views", src=0), dict(op="state", src=0)]
                kinds = ["iter", "ref", "into"] + ([] if fam in NC else ["nodes", "weights"])
                for k in rng.sample(kinds, 2):
                    st += [dict(op="iopen", src=0, kind=k, it=0), dict(op="iop", it=0, o="rest"), dict(op="iop", it=0, o="next"), dict(op="iop", it=0, o="rest_rev"), dict(op="ifin", it=0, o="count")]
                st += [dict(op="views", src=0), dict(op="clone", src=0, dst=1), dict(op="views", src=1)]
                if fam in ("Legendre", "Cheb1", "Cheb2"):
                    st += [dict(op="conv", src=0, dst=2), dict(op="views", src=2), new(fam, n, 3, par=1, thr=2, chk="none"), dict(op="views", src=3)]
                if fam in NC:
                    st += [dict(op="change_degree", src=0, n=rng.randrange(1, 40)), dict(op="views", src=0)]
                js.append(job(f"{fam}{n}", st))
        for i in range(c.pick(24, 200)):
            fam = GAUSS[i % 6]
            js.append(job(f"doc{i}", [rand_new(rng, fam, rng.choice([1, 2, 3, 5, 8, 40]), 0, chk="none")] + [s for k in range(4) for s in (edit(rng, 0, 1, rng.randrange(1, 5), False), dict(op="views", src=1), dict(op="state", src=1))]))
        for fam in ("Jacobi", "Laguerre", "Hermite"):
            for n in c.pick([1025, rng.randrange(2000, 9000)], [1025, 4097, 33000, 70001]):
                js.append(job(f"grown{fam}{n}", grown(rng, fam, n) + [dict(op="views", src=1), dict(op="clone", src=1, dst=2), dict(op="views", src=2)]))
        for fam in ("Legendre", "Cheb1", "Cheb2"):
            for n in c.pick([1025, 5000, 70001], [1025, 4097, 5000, 33000, 65537, 70001, 140000]):
                js.append(job(f"big{fam}{n}", [new(fam, n, chk="none"), dict(op="views", src=0)]))
        for i, (fam, al, be) in enumerate(EXTREME):
            for n in (1, 2, 5, 12):
                js.append(job(f"e{i}.{n}", [new(fam, n, al=al, be=be, chk="none"), dict(op="views", src=0), dict(op="clone", src=0, dst=1), dict(op="views", src=1)]))
        rng.shuffle(js)
        yield "full", js
        yield "default", [job(f"d{fam}{n}", [rand_new(rng, fam, n, chk="none"), dict(op="views", src=0)]) for fam in ALL for n in c.pick([1, 2, 7, 20], range(1, 40))]

    return dict(models=mc(c, "MCGaussQuad.tla", "MCGaussQuad.cfg"), runs=runs, kinds=kset("view", "iter", "deg", "reread", "count", *CRASH),
                what="all views of rules of all families and degrees, before and after reads", assumptions=[])


EXTREME = [("Laguerre", 200.0, 0.0), ("Laguerre", 1e5, 0.0), ("Laguerre", 1e300, 0.0), ("Jacobi", 400.0, 1e3), ("Jacobi", 1e8, 1e8), ("Jacobi", MINP, MINP),
           ("Jacobi", MINP, 3.0), ("Jacobi", 1e300, 0.5), ("Jacobi", 1200.0, 1200.0), ("Laguerre", MINP, 0.0), ("Laguerre", 5e-324, 0.0), ("Jacobi", 1e15, -0.5)]
ITKINDS = [(f, k) for f in GAUSS for k in ("nodes", "weights", "iter", "ref", "into")] + [(f, k) for f in NC for k in ("iter", "ref", "into")]
KB = {-1: split(2 ** 64 - 1), -2: split(2 ** 63)}


def kk(k):
    return dict(kb=KB[k]) if k < 0 else dict(k=k)


def iter_steps(fam, kind, calls, base):
    """the steps of one iterator behaviour of MCIter (handles 1, 2), with observations in between"""
    st = [dict(op="iopen", src=base, kind=kind, it=1)]
    for x, o, k in calls:
        if o == "clone":
            st.append(dict(op="iclone", it=x, dst=k))
        elif o in ("count", "last"):
            st.append(dict(op="ifin", it=x, o=o))
        else:
            st.append(dict(op="iop", it=x, o=o, **kk(k)))
            st.append(dict(op="iop", it=x, o="size_hint"))
    return st


def p_c12(c):
    rng = c.rng
    beh = []

    def models():
        yield "Iter", model(c, "MCIter.tla", "MCIter.cfg")[1]
        b, r = vlib.generate("MCIter.tla", "GenIter.cfg")
        b.sort(key=json.dumps)
        if not c.thorough:
            b = rng.sample(b, 9000)
        beh.extend(b)
        yield "Iter (all behaviours of 3 calls)", r
        b, r = vlib.generate("MCIter.tla", "GenIterLong.cfg", simulate=c.pick(1500, 12000), depth=20, seed=c.seed)
        beh.extend(b)
        yield "Iter (random behaviours of 12 calls)", r

    def runs():
        groups = {}
        for n, calls in beh:
            m = max(n, 1) if n else 1
            # an empty window: a rule of length 1 whose only item is taken first
            pre = [[1, "next", 0]] if n == 0 else []
            for fam, kind in (rng.sample(ITKINDS, 2 if not c.thorough else 6)):
                groups.setdefault((fam, kind, m), []).append(pre + calls)
        js = []
        for (fam, kind, m), bs in sorted(groups.items()):
            for q in range(0, len(bs), 60):
                st = [new(fam, m, al=0.5, be=0.25, chk="none")]
                for calls in bs[q:q + 60]:
                    st += iter_steps(fam, kind, calls, 0)
                js.append(job(f"{fam}.{kind}.{m}.{q}", st))
        # random interleavings on longer sequences, with all observations
        obs = ["len", "size_hint", "as_slice", "as_ref", "rest", "rest_rev", "rest_fold", "rest_by_ref", "rest_step2", "rest_skip1_rev",
               "rest_rfold", "rest_try", "rest_alt", "rest_zip", "rest_vec", "rest_pos", "rest_rev_step2"]
        for i in range(c.pick(220, 1500)):
            fam, kind = ITKINDS[i % len(ITKINDS)]
            n = rng.choice([1, 2, 3, 5, 8, 13, 40])
            st = [rand_new(rng, fam, n, chk="none"), dict(op="iopen", src=0, kind=kind, it=1)]
            live = [1]
            for _ in range(24):
                x = rng.choice(live)
                o = rng.choice(["next", "next_back", "nth", "nth_back", "clone", "obs", "obs"])
                if o == "clone":
                    y = rng.randrange(1, 5)
                    st.append(dict(op="iclone", it=x, dst=y, **({"from": 1} if y in live and rng.random() < 0.6 else {})))
                    if y not in live:
                        live.append(y)
                elif o == "obs":
                    st.append(dict(op="iop", it=x, o=rng.choice(obs), k=rng.choice([0, 0, 1, 2, n - 1, n])))
                elif o.startswith("nth"):
                    k = rng.choice([0, 0, 1, 1, 2, 3, n - 1, n, n + 1, -1, -2])
                    st.append(dict(op="iop", it=x, o=o, **kk(k)))
                else:
                    st.append(dict(op="iop", it=x, o=o))
            for x in live:
                st.append(dict(op="ifin", it=x, o=rng.choice(["count", "last", "rcount", "first"])))
            js.append(job(f"r{i}", st))
        # every window of short sequences, every observation
        for fam, kind in ITKINDS:
            st = []
            for n in range(1, c.pick(5, 8)):
                st.append(rand_new(rng, fam, n, chk="none"))
                for f in range(n + 1):
                    for b in range(n + 1 - f):
                        st.append(dict(op="iopen", src=0, kind=kind, it=1))
                        st += [dict(op="iop", it=1, o="nth", k=f - 1)] if f > 1 and rng.random() < 0.5 else [dict(op="iop", it=1, o="next")] * f
                        st += [dict(op="iop", it=1, o="nth_back", k=b - 1)] if b > 1 and rng.random() < 0.5 else [dict(op="iop", it=1, o="next_back")] * b
                        st += [dict(op="iop", it=1, o=o, k=rng.choice([0, 1, n - 1])) for o in obs]
                        for o in ("count", "last", "rcount", "first"):
                            st += [dict(op="iclone", it=1, dst=2), dict(op="ifin", it=2, o=o)]
            js.append(job(f"w{fam}.{kind}", st))
        # every remaining length of a medium sequence, consumed from both ends
        for fam, kind in ITKINDS:
            n = rng.randrange(30, c.pick(42, 130))
            st = [rand_new(rng, fam, n, chk="none"), dict(op="iopen", src=0, kind=kind, it=1)]
            for m in range(n + 1):
                st += [dict(op="iop", it=1, o=o) for o in (("as_slice", "as_ref") if kind in ("iter", "ref", "into") and fam not in NC else ("len",))]
                st += [dict(op="iop", it=1, o=rng.choice(obs), k=rng.choice([0, 1, n - 1])), dict(op="iclone", it=1, dst=2), dict(op="ifin", it=2, o=rng.choice(["count", "last", "rcount", "first"])),
                       dict(op="iop", it=1, o=rng.choice(["next", "next_back"]))]
            js.append(job(f"every{fam}.{kind}", st))
        # longer sequences
        for fam, kind in ITKINDS:
            if fam in NC:
                continue
            n = rng.randrange(200, c.pick(1500, 6000))
            st = grown(rng, fam, n) + [dict(op="iopen", src=1, kind=kind, it=1)]
            for _ in range(c.pick(2, 6)):
                st += [dict(op="iop", it=1, o=rng.choice(["next", "next_back"]))] + [dict(op="iop", it=1, o=o, k=rng.randrange(n // 5)) for o in rng.sample(["nth", "nth_back"], 2)]
                st += [dict(op="iop", it=1, o=rng.choice(obs), k=rng.randrange(n)), dict(op="iop", it=1, o="len"), dict(op="iclone", it=1, dst=2), dict(op="ifin", it=2, o=rng.choice(["count", "last", "rcount", "first"]))]
            js.append(job(f"long{fam}.{kind}", st))
        # many nodes: lengths only
        for fam, n in [("Cheb1", 16777300)] + c.pick([], [("Legendre", 16777217), ("Cheb2", 20000000)]):
            st = [new(fam, n, log="none", chk="none")]
            for kind in ("nodes", "weights", "iter", "ref", "into"):
                st += [dict(op="iopen", src=0, kind=kind, it=1), dict(op="iop", it=1, o="len"), dict(op="iop", it=1, o="size_hint"), dict(op="iclone", it=1, dst=2), dict(op="ifin", it=2, o="count"),
                       dict(op="iclone", it=1, dst=2), dict(op="ifin", it=2, o="rcount"), dict(op="iop", it=1, o="nth_back", k=70000), dict(op="iop", it=1, o="nth", k=3), dict(op="iop", it=1, o="len"), dict(op="ifin", it=1, o="count")]
            js.append(job(f"many{fam}", st))
        # rules with unusual data: weights that underflow or are not finite, extreme parameters
        for i, (fam, al, be) in enumerate(EXTREME):
            for n in (2, 3, 6):
                st = [new(fam, n, al=al, be=be, chk="none")]
                for kind in ("nodes", "weights", "iter", "ref", "into"):
                    st += [dict(op="iopen", src=0, kind=kind, it=1), dict(op="iop", it=1, o="rest"), dict(op="iop", it=1, o="len"), dict(op="iop", it=1, o="rest_alt"),
                           dict(op="iop", it=1, o="next_back"), dict(op="iop", it=1, o="nth", k=n - 2), dict(op="iop", it=1, o="len"), dict(op="iop", it=1, o="next")]
                js.append(job(f"e{i}.{n}", st))
        # maximal degrees: lengths and skips near 2^32 (skipping takes time proportional to the distance)
        far = [(f, k) for f in NC for k in ("iter", "ref", "into")]
        far = far if c.thorough else rng.sample(far, 2)
        for fam in NC:
            for kind in ("iter", "ref", "into"):
                for n in (4294967295, 4294967294, 2147483648, 16777219, 200001, 65536):
                    st = [new(fam, n), dict(op="iopen", src=0, kind=kind, it=1), dict(op="iop", it=1, o="len")]
                    long = (fam, kind) in far and n != 4294967294 or n == 65536
                    for o, k in (("nth", 0), ("nth_back", 0), ("nth", 1000), ("nth_back", 2), ("nth_back", 2147483640 if long else 7), ("nth", n // 3 if long else 9), ("next_back", 0), ("size_hint", 0)):
                        st.append(dict(op="iop", it=1, o=o, kb=split(k)))
                    st += [dict(op="iclone", it=1, dst=3), dict(op="ifin", it=3, o="last")]
                    if n < 1000000:
                        st += [dict(op="iclone", it=1, dst=3), dict(op="iop", it=1, o="len"), dict(op="ifin", it=3, o=rng.choice(["count", "rcount"])), dict(op="iclone", it=1, dst=3),
                               dict(op="iop", it=3, o="nth", kb=split(n // 2)), dict(op="iop", it=3, o="nth_back", kb=split(n // 5)), dict(op="iop", it=3, o="len"), dict(op="ifin", it=3, o="last")]
                    if long:
                        st += [dict(op="iclone", it=1, dst=2), dict(op="iop", it=2, o="nth", kb=split(2 ** 32 - 1)), dict(op="iop", it=2, o="len"),
                               dict(op="iop", it=1, o="nth_back", kb=split(2 ** 32)), dict(op="iop", it=1, o="next"), dict(op="iop", it=1, o="len")]
                    js.append(job(f"m{fam}{kind}{n}", st))
        rng.shuffle(js)
        yield "full", js

    return dict(models=models, runs=runs, kinds=kset("iter", "panic", "died", "hang"),
                what="behaviours of the iterator model (all of 3 calls up to length 4, random ones of 12 calls) and random interleavings, replayed on all 39 iterator types",
                assumptions=["longer histories and lengths sampled"])


# ------------------------------------------------------------------ C13, C20: parameters
NEXT = lambda x: struct.unpack("<d", struct.pack("<Q", struct.unpack("<Q", struct.pack("<d", x))[0] + 1))[0]
PREV = lambda x: struct.unpack("<d", struct.pack("<Q", struct.unpack("<Q", struct.pack("<d", x))[0] - 1))[0]
DBLMAX = 1.7976931348623157e308
SPECIALS = [0.0, -0.0, 1.0, -1.0, MINP, PREV(MINP) if False else -1 - E, -0.5, 0.5, 2.0, -2.0, 0.1, 1 / 3, 5e-324, -5e-324, 2.2250738585072014e-308,
            PREV(2.2250738585072014e-308), 1e308, DBLMAX, -DBLMAX, INF, -INF, NAN, 1e-17, -1e-17, 9007199254740993.0, 9007199254740992.0, 3.0, -3.0, 1e22, 1e23,
            7.5, -0.9999999999999999, 1.0000000000000002, 4.5, 1e16, -1e16, 123456789.123, 170.0, 1024.0, -1074.0, -1075.0]


def rand_double(rng):
    c = rng.random()
    if c < 0.25:
        return rng.choice(SPECIALS)
    if c < 0.45:
        return struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
    if c < 0.6:
        return rng.uniform(-1.5, 3)
    if c < 0.7:
        return -1 + rng.choice([-1, 1]) * 2.0 ** -rng.randrange(20, 54)
    if c < 0.8:
        return float(rng.randrange(-20, 200))
    return 10 ** rng.uniform(-320, 308) * rng.choice([1, -1])


OPS5 = ["add", "sub", "mul", "div", "pow"]


def rand_valid(rng):
    while True:
        x = rand_double(rng)
        if math.isfinite(x) and x > -1:
            return x


def adv_operand(rng, o, x):
    """operands steering the result to a boundary: -1, overflow, underflow, halfway cases"""
    t = rng.choice([-1.0, NEXT(-1.0), MINP, -1 + E, DBLMAX, 0.0, 1.0, 5e-324, 1e308, -0.75])
    try:
        if o == "add":
            y = t - x
        elif o == "sub":
            y = x - t
        elif o == "mul":
            y = t / x if x else rand_double(rng)
        elif o == "div":
            y = x / t if t else 0.0
        else:
            y = math.log(abs(t)) / math.log(abs(x)) if t and x and abs(x) != 1 else rand_double(rng)
    except (OverflowError, ZeroDivisionError, ValueError):
        y = rand_double(rng)
    for _ in range(rng.randrange(3)):
        if math.isfinite(y) and y:
            y = rng.choice([NEXT, PREV])(y)
    return y


def p_c13(c):
    rng = c.rng
    chains = []

    def models():
        yield "Params", model(c, "MCParams.tla", "MCParams.cfg")[1]
        b, r = vlib.generate("MCParams.tla", "GenParams.cfg", simulate=c.pick(500, 4000), depth=30, seed=c.seed)
        chains.extend(b)
        yield "Params (chains)", r

    def pjobs(tag, n):
        js = []
        xs = SPECIALS + [rand_double(rng) for _ in range(n)]
        xs += [struct.unpack("<d", struct.pack("<Q", b))[0] for b in (
            0xBFEFFFFFFFFFFFFF, 0xBFF0000000000000, 0xBFF0000000000001, 0x7FEFFFFFFFFFFFFF, 0x7FF0000000000000, 0x7FF0000000000001,
            0x7FF8000000000000, 0x7FFFFFFFFFFFFFFF, 0xFFF0000000000000, 0xFFF8000000000000, 0xFFFFFFFFFFFFFFFF, 0x8000000000000000, 0x8000000000000001)]
        st = []
        for x in xs:
            st += [dict(op="p_new", x=bits(x), dst=0), dict(op="p_try", x=bits(x), dst=1), dict(op="p_into", src=0), dict(op="p_into", src=1), dict(op="p_cmp", src=0, src2=1)]
            if tag == "full":
                st += [dict(op="p_de", x=bits(x), fmt=f) for f in ("json", "json_value", "json_opt", "bincode", "rule_laguerre", "rule_jacobi_alpha", "rule_jacobi_beta")]
        for q in range(0, len(st), 120):
            js.append(job(f"{tag}v{q}", st[q:q + 120] if q == 0 else st[q:q + 120]))
        # comparisons of equal, neighbouring, opposite and unrelated values
        ok = [x for x in SPECIALS if math.isfinite(x) and x > -1]
        pairs = [(x, y) for x in ok for y in ok]
        pairs = [(0.0, -0.0), (-0.0, 0.0)] + (pairs if c.thorough else rng.sample(pairs, min(len(pairs), 3 * n)))
        for _ in range(n):
            x = rand_valid(rng)
            pairs += [(x, NEXT(x)), (NEXT(x), x), (x, rand_valid(rng)), (x, -x if -x > -1 else x)]
        st = []
        for x, y in pairs:
            if math.isfinite(x) and math.isfinite(y) and min(x, y) > -1:
                st += [dict(op="p_new", x=bits(x), dst=0), dict(op="p_new", x=bits(y), dst=1), dict(op="p_cmp", src=0, src2=1)]
        for q in range(0, len(st), 150):
            js.append(job(f"{tag}c{q}", st[q:q + 150]))
        for o in OPS5:
            st = []
            for i in range(n * 2):
                x = rand_valid(rng)
                y = adv_operand(rng, o, x) if rng.random() < 0.5 else rand_double(rng)
                st += [dict(op="p_new", x=bits(x), dst=0), dict(op="p_op", src=0, o=o, y=bits(y), dst=1), dict(op="p_into", src=1)]
            for x in SPECIALS:
                if math.isfinite(x) and x > -1:
                    st.append(dict(op="p_new", x=bits(x), dst=0))
                    for y in (SPECIALS if tag == "full" or c.thorough else rng.sample(SPECIALS, 12)):
                        st.append(dict(op="p_op", src=0, o=o, y=bits(y), dst=1))
            for q in range(0, len(st), 150):
                js.append(job(f"{tag}{o}{q}", ([dict(op="p_new", x=bits(0.5), dst=0)] if q else []) + st[q:q + 150]))
        return js

    def runs():
        js = pjobs("full", c.pick(220, 2500))
        for i, ch in enumerate(chains):
            st = [dict(op="p_new", x=ch[0][1], dst=0)]
            for o, y in ch[1:]:
                st.append(dict(op="p_op", src=0, o=o, y=y, dst=0))
            st.append(dict(op="p_into", src=0))
            js.append(job(f"ch{i}", st))
        # parameters as seen through rules
        js += [job(f"ru{i}", [rand_new(rng, f, rng.randrange(1, 4), chk="none")]) for i in range(c.pick(20, 100)) for f in ("Jacobi", "Laguerre")]
        rng.shuffle(js)
        yield "full", js
        yield "default", pjobs("default", c.pick(80, 900))

    return dict(models=models, runs=runs, kinds=kset("pvalid", "pround", "pvalue", "pcmp", "de", "param", *CRASH),
                what="construction, conversion, comparison, deserialization and checked arithmetic of parameters, bit for bit against exact IEEE arithmetic in TLC; chains of operations generated by MCParams",
                assumptions=["bit patterns sampled with emphasis on boundaries", "powers: within 4 units in the last place"])


def codes(s):
    return [ord(ch) for ch in s]


def rand_text(rng):
    c = rng.random()
    d = lambda k: "".join(rng.choice("0123456789") for _ in range(k))
    sg = rng.choice(["", "", "+", "-"])
    if c < 0.15:
        return rng.choice(["", "+", "-", ".", "e", "1e", "e5", "1e+", "1.e5", ".5", "5.", "-.5", "+.5e-3", "inf", "-inf", "+INF", "infinity", "Infinity", "INFINITY", "nan", "NaN", "-nan", "NAN",
                           "infi", "in", "0x10", "1_000", " 1", "1 ", "1\n", "1,5", "--1", "+-1", "1e5.5", "1..2", "1.2.3", "1e5e5", "-0", "-0.0", "0e999999999999", "1e-999999999", "1e999999999",
                           "0.00000", "-1", "-1.0", "-0.99999999999999999999999", "-0.9999999999999999", "-1e0", "-10e-1", "1f", "1d", "\u0661", "1\u00a0", "e", "E5", "1E5", "1e05", "001.50"])
    if c < 0.35:
        return f"{sg}{d(rng.randrange(0, 5))}.{d(rng.randrange(0, 25))}" + (f"e{rng.randrange(-330, 320)}" if rng.random() < 0.6 else "")
    if c < 0.5:   # halfway between neighbouring doubles
        x = abs(rand_double(rng))
        if not math.isfinite(x) or x > 1e300:
            x = 0.1
        from fractions import Fraction
        h = (Fraction(x) + Fraction(NEXT(x))) / 2
        e = 0
        num, den = h.numerator, h.denominator
        k = den.bit_length() - 1
        digits = str(num * 5 ** k)
        if len(digits) > 780:
            digits = digits[:770]
            k = None
        if k is None:
            return repr(x)
        extra = rng.choice(["", "0", "1", "000000000001"])
        return f"{sg}{digits}{'' if not extra else '.' + extra}e-{k}"
    if c < 0.75:
        x = rand_double(rng)
        return rng.choice([repr(x), f"{x:.17e}", f"{x:.3f}" if abs(x) < 1e20 else repr(x), f"{x:.25g}", f"{x:e}".upper()])
    if c < 0.85:
        return f"{sg}{rng.choice(['0', '1', '9', '17976931348623157', '17976931348623158', '17976931348623159', '22250738585072011', '24703282292062327', '24703282292062328', '49406564584124654'])}{d(rng.randrange(0, 3))}e{rng.choice([-341, -340, -339, -325, -324, -308, 0, 290, 291, 292, 293, 305, 308])}"
    t = rand_text(rng) if rng.random() < 0.9 else "1.5"
    i = rng.randrange(len(t) + 1)
    return t[:i] + rng.choice(list("0123456789+-.eE _xinfa")) + t[i + rng.randrange(2):]


AFFIX = ["f64", "f32", "F64", "_f64", "f", "d", "D", "L", "u8", "i32", "%", "'", '"', "`", "(", ")", "[", "]", "{", "}", "<", ">", "/", "\\", "|", "*", "^", "&", "!", "?", ";", ":", ",", "=", "~", "#", "@", "$",
         "\t", "\r", "\n", "\r\n", "\0", "\u00a0", "\u2003", "\ufeff", "\u2212", "\u0661", "\uff11", "\u221e", "0x", "0b", "0o", "0X", "p3", "P1", "e", "E", "e+", "e-", "e0", "E+00", "e-0", ".", "..", ".0", ".e1", "+", "-", "--", "++",
         "_", "__", "x", "i", "j", "inf", "nan", "infinity", "INF", "Infinity", "snan", "#INF", "(1)", "k", "K", "M", "m", "n", "u", "\u00b5", "\u03c0", "pi", "1e", "1", "0", "00", "9", "10", "deg", "Some(", "None", "null", "true",
         "FiniteAboveNegOneF64", "FiniteAboveNegOneF64(", "default", "min", "max", "MAX", "epsilon", "half", "1/2", " ", "  ", "and", "e1e1", "**2"]
BASES = ["1.5", "-0.25", "0", "7e3", "2.5E-3", "inf", "NaN", "-1", "-0", "1e400", ".5", "5."]


def decorated(rng):
    """well-formed texts with something in front, behind or inside"""
    out = []
    for a in AFFIX:
        for b in rng.sample(BASES, 4):
            k = rng.randrange(len(b) + 1)
            out += [a + b, b + a, b[:k] + a + b[k:]]
        out.append(a)
    for b in ("1.5", "2e7", "-0.25", "inf"):
        for i in range(len(b) + 1):
            out += [b[:i] + chr(ch) + b[i:] for ch in rng.sample(range(128), 40)]
            out += [b[:i] + chr(ch) + b[i + 1:] for ch in rng.sample(range(128), 10)]
    for z in (1, 2, 19, 20, 21, 40, 310, 400, 770):
        d = "".join(rng.choice("123456789") for _ in range(z))
        out += ["0" * z + "1.5", "1.5" + "0" * z, d, "." + d, "0." + "0" * z + "1", "0." + "0" * z + d + "e" + str(z), "1" + "0" * z, "1" + "0" * z + "e-" + str(z), d + "e-" + str(z), d + "." + d, "-0." + d, "-0." + "9" * z, "-1." + "0" * z,
                "-1." + "0" * z + "1", "1e" + "0" * z + "5", "1e+" + "0" * z, "1e-" + "0" * z + "7", "1e" + d, "-1e-" + d, "0e" + d, "0.0e-" + d, "+" + "0" * z, "-" + "0" * z]
    return out


def shapes(rng, k):
    """texts of every shape: every spelling of the special values; decimals with every number of digits in every part"""
    out = []
    for w in ("inf", "infinity", "nan"):
        for sg in ("", "+", "-"):
            out += [sg + w, sg + w.upper(), sg + w.capitalize()] + [sg + "".join(rng.choice((ch, ch.upper())) for ch in w) for _ in range(4)]
            out += [sg + w[:i] + w[i + 1:] for i in range(len(w))] + [sg + w[:i] + w[i] * 2 + w[i + 1:] for i in range(len(w))]
    d = lambda n, first="0123456789": "".join(rng.choice(first if i == 0 else "0123456789") for i in range(n))
    for _ in range(k):
        for sg in ("", "-", "+", "-"):
            for dot in (0, 1, 1):
                ni, nf = rng.choice([0, 1, 1, 2, 3, rng.randrange(25), rng.randrange(320)]), rng.choice([0, 0, 1, 3, rng.randrange(25)]) * dot
                t = sg + d(ni, rng.choice(["0", "0123456789", "123456789"])) + "." * dot + d(nf)
                ex = rng.choice(["", "", "e", "E"])
                if ex:
                    ex += rng.choice(["", "+", "-"]) + rng.choice([d(1), d(2), d(3), "0" * rng.randrange(5) + d(2), d(rng.randrange(1, 12))])
                out.append(t + ex)
    return out


def p_c20(c):
    rng = c.rng

    def gen(tag, n):
        js, st = [], []
        for x in SPECIALS + [rand_valid(rng) for _ in range(n)]:
            if math.isfinite(x) and x > -1:
                st.append(dict(op="p_new", x=bits(x), dst=0))
                st += [dict(op="p_fmt", src=0, o=o) for o in ("display", "lower", "upper", "to_string")]
        for _ in range(3 * n):
            st.append(dict(op="p_parse", s=codes(rand_text(rng)), dst=1))
        for q in range(0, len(st), 100):
            js.append(job(f"{tag}{q}", [dict(op="p_new", x=bits(0.5), dst=0)] + st[q:q + 100]))
        return js

    def runs():
        js = gen("f", c.pick(420, 4000))
        # every string of up to 3 characters over the interesting ones
        alpha = "019.eE+-ni_ "
        st = [dict(op="p_parse", s=codes(a), dst=1) for a in [""] + list(alpha) + [a + b for a in alpha for b in alpha] + [a + b + d for a in alpha for b in alpha for d in alpha]]
        if c.thorough:
            al2 = "01.e-"
            st += [dict(op="p_parse", s=codes(a + b + d + e + f), dst=1) for a in al2 for b in al2 for d in al2 for e in al2 for f in al2]
        for _ in range(c.pick(1, 6)):
            st += [dict(op="p_parse", s=codes(t), dst=1) for t in decorated(rng) + shapes(rng, 60)]
        for q in range(0, len(st), 120):
            js.append(job(f"x{q}", st[q:q + 120]))
        yield "full", js
        yield "default", gen("d", c.pick(80, 600))

    return dict(models=mc(c, "MCParams.tla", "MCParams.cfg"), runs=runs, kinds=kset("pfmt", "pparse", "pvalid", *CRASH),
                what="formatting and parsing against a decimal grammar with exactly rounded conversion in TLC: all strings of up to 3 interesting characters, adversarial and random texts",
                assumptions=["longer strings sampled"])


# ------------------------------------------------------------------ C14, C15, C16, C21: histories
def behaviours(c, num):
    b, r = vlib.generate("MCGaussQuad.tla", "GenGaussQuad.cfg", simulate=num, depth=70, seed=c.seed)
    return b, r


def history_job(rng, i, h, fmts=("json", "json_value", "bincode", "rkyv", "json_pretty"), noser=False, recheck=True, nopar=False):
    """a behaviour of MCGaussQuad as calls: abstract degrees and parameters get concrete values"""
    pars = {1: rand_par(rng), 2: rng.choice([0.0, 0.5, -0.5, rand_par(rng)]), 0: 0.0}
    degs = {1: 1, 2: 2, 3: rng.randrange(3, 6), 6: rng.randrange(6, 26)}
    st = []
    used = set()
    fams = {}
    for e in h:
        o = e[0]
        if o == "new":
            _, d, fam, n, a, b = e
            kw = {}
            if fam in ("Legendre", "Cheb1", "Cheb2") and rng.random() < 0.3 and not nopar:
                kw = dict(par=1, thr=rng.choice([1, 3]))
            if fam in NC:
                kw = dict(via=rng.choice(["new", "from"]))
            st.append(new(fam, degs[n], d, pars[a], pars[b], chk="none", **kw))
            used.add(d)
        elif o in ("clone", "move", "conv"):
            st.append(dict(op=o, src=e[1], dst=e[2]))
            used.add(e[2])
        elif o == "ser":
            st.append(dict(op="clone" if noser else "ser", src=e[1], dst=e[2], fmt=rng.choice(fmts)))
        elif o == "edit":
            st.append(dict(op="clone", src=e[1], dst=e[2]) if noser else edit(rng, e[1], e[2], grow=degs[e[3]]))
            st += [dict(op="eq", src=e[1], src2=e[2]), dict(op="eq", src=e[2], src2=e[1])]
        elif o in ("drop", "views"):
            st.append(dict(op=o, src=e[1]))
        elif o == "change_degree":
            st.append(dict(op=o, src=e[1], n=degs[e[2]]))
        elif o == "eq":
            st.append(dict(op="eq", src=e[1], src2=e[2]))
        elif o == "iopen":
            st.append(dict(op="iopen", src=e[1], kind=e[2], it=e[3]))
        elif o == "iop":
            st.append(dict(op="iop", it=e[1], o=e[2]))
            st.append(dict(op="iop", it=e[1], o="rest"))
        elif o == "iclone":
            st.append(dict(op="iclone", it=e[1], dst=e[2]))
        elif o == "integ":
            st.append(integ(e[1], 0.25, rng.choice([1.0, -2.0, 0.25]), rng.choice([dict(kind="hash"), dict(kind="hash"), dict(kind="seq"), dict(kind="hash", panic_at=2)]),
                            par=1 if rng.random() < 0.2 else 0, thr=2))
            if "panic_at" in st[-1]["f"] or st[-1]["par"]:
                if st[-1]["f"]["kind"] == "seq":
                    st[-1]["f"] = dict(kind="hash")
        else:
            raise ValueError(e)
    if recheck:
        for s in (1, 2, 3):
            st += [dict(op="state", src=s), dict(op="views", src=s), integ(s, 0.25, 1.0)]
    return job(i, st)


def gq_models(c, num, beh):
    def models():
        yield "GaussQuad", model(c, "MCGaussQuad.tla", "MCGaussQuad.cfg")[1]
        b, r = behaviours(c, num)
        beh.extend(b)
        yield "GaussQuad (behaviours for replay)", r
    return models


def p_c14(c):
    rng = c.rng
    beh = []

    def special(n, dst, t, p):
        fam = {0.0: "Legendre", -0.5: "Cheb1", 0.5: "Cheb2"}[p]
        st = [new(fam, n, 0, chk="none"), new("Jacobi", n, 1, p, p, chk="none"), dict(op="conv", src=0, dst=2), dict(op="eq", src=1, src2=2),
              dict(op="views", src=1), dict(op="views", src=2)]
        if p == 0.0:
            st += [new("Jacobi", n, 3, -0.0, 0.0, chk="none"), new("Jacobi", n, 4, 0.0, -0.0, chk="none"), new("Jacobi", n, 5, -0.0, -0.0, chk="none"), dict(op="eq", src=3, src2=1), dict(op="eq", src=5, src2=2)]
        st += [new(fam, n, 6, par=1, thr=2, chk="none"), dict(op="conv", src=6, dst=7), dict(op="eq", src=7, src2=1), dict(op="conv", src=7, dst=8), dict(op="eq", src=8, src2=1),
               integ(1, 0.0, 2.0), integ(2, 0.0, 2.0)]
        # neighbours of the special values are genuine Jacobi rules
        q = rng.choice([NEXT(p), p + 1e-12, p + 1e-7]) if p else rng.choice([5e-324, 1e-12, -1e-9])
        st += [new("Jacobi", n, 9, q, p, chk="all" if n < 16 else "struct"), new("Jacobi", n, 10, p, q, chk="none"), dict(op="eq", src=9, src2=1), dict(op="eq", src=10, src2=1)]
        q = p + rng.choice([1, -1]) * 10 ** rng.uniform(-15, -3)
        st += [new("Jacobi", n, 11, q, q, chk="all" if n < 16 else "struct"), dict(op="eq", src=11, src2=1), dict(op="eq", src=1, src2=11)]
        return st

    def twin(n, p):
        """large: compared by digest"""
        fam = {0.0: "Legendre", -0.5: "Cheb1", 0.5: "Cheb2"}[p]
        return job(f"big{n}.{p}", [new(fam, n, 0, log="none"), new("Jacobi", n, 1, p, p, log="none"), dict(op="conv", src=0, dst=2, log="none"), dict(op="eq", src=1, src2=2), new("Jacobi", n, 3, -p if p == 0 else p, p, log="none"), dict(op="eq", src=3, src2=2)])

    def runs():
        js = []
        for n in list(range(1, c.pick(80, 260))) + c.pick([100, 101, 128, 500], [300, 500, 1000, 2001]):
            for p in (0.0, -0.5, 0.5):
                js.append(job(f"{n}.{p}", special(n, 0, 1, p)))
        for n in c.pick([1000, 1024, 1025, 2048, 4097, 20011, 65537, 1000003], [777, 999, 1000, 1001, 1024, 1025, 2047, 2048, 4096, 4097, 10001, 20011, 65535, 65536, 65537, 262147, 1000003, 16777219]):
            for p in (0.0, -0.5, 0.5):
                js.append(twin(n, p))
        # conversions keep whatever pairs the rule has
        for i in range(c.pick(24, 200)):
            fam = ("Legendre", "Cheb1", "Cheb2")[i % 3]
            n = rng.choice([1, 2, 3, 4, 5, 8, 20])
            st = [new(fam, n, 0, chk="none")]
            for _ in range(4):
                st += [edit(rng, 0, 1, rng.randrange(1, 6), False, **({} if rng.random() < 0.7 else dict(grow=rng.randrange(1, 40)))),
                       dict(op="conv", src=1, dst=2), dict(op="views", src=2), dict(op="conv", src=2, dst=3), dict(op="eq", src=2, src2=3), dict(op="conv", src=0, dst=4), dict(op="eq", src=4, src2=2), dict(op="state", src=1)]
            js.append(job(f"doc{i}", st))
        for n in list(range(1, 30)) + [100, 65536, 4294967295]:
            for fam in NC:
                js.append(job(f"{fam}{n}", [new(fam, n, 0), new(fam, n, 1, via="from"), dict(op="eq", src=0, src2=1), new(fam, n + 1 if n < 4294967295 else 5, 2, via="from"), dict(op="eq", src=0, src2=2)]))
        # crossed special values must not be delegated
        for n in c.pick([1, 2, 3, 5, 8], range(1, 25)):
            for p, q in ((0.0, 0.5), (0.5, 0.0), (-0.5, 0.5), (0.5, -0.5), (0.0, -0.5), (-0.5, 0.0)):
                js.append(job(f"x{n}.{p}.{q}", [new("Jacobi", n, 0, p, q)]))
        for i, h in enumerate(beh):
            if any(e[0] == "conv" for e in h):
                js.append(history_job(rng, f"h{i}", h))
        rng.shuffle(js)
        yield "full", js
        big = c.pick([1025, 4097, 20011, 65537], [1001, 1025, 4097, 20011, 65535, 65536, 65537, 1000003])
        yield "default", [job(f"d{n}.{p}", special(n, 0, 1, p)) for n in c.pick([1, 2, 3, 10, 33, 101], range(1, 120)) for p in (0.0, -0.5, 0.5)] + [twin(n, p) for n in big for p in (0.0, -0.5, 0.5)]
        yield "std", [job(f"s{n}.{p}", special(n, 0, 1, p)) for n in c.pick([2, 5, 64], range(1, 60, 3)) for p in (0.0, -0.5, 0.5)] + [twin(n, p) for n in big for p in (0.0, -0.5, 0.5)]

    return dict(models=gq_models(c, c.pick(400, 3000), beh), runs=runs, kinds=kset("delegate", "convdata", "param", "fam", "eq", "deg", "view", "node", "weight", *CRASH),
                what="Jacobi rules at and next to the special parameters against Legendre and Chebyshev rules, conversions and conversion chains (behaviours of GaussQuad), fixed-step rules by both constructors",
                assumptions=["every pair up to degree 500 (2001 thorough), by digest up to 1000003 (16777219 thorough)"])


def related(rng):
    """two different degrees that share much of their representation"""
    w = rng.randrange(2, 33)
    n = rng.randrange(1 << (w - 1), 1 << w)
    k = rng.randrange(10)
    m = [n ^ (1 << rng.randrange(w)), n + rng.choice([-1, 1]), (n & 0xffff) | (rng.randrange(1 << 16) << 16), (n & 0xff) | (rng.randrange(1 << (w - 8)) << 8 if w > 8 else 0),
         (n & ~0xffff) | rng.randrange(1 << 16), (n & ~0xff) | rng.randrange(256), ((n << 16) | (n >> 16)) & 0xffffffff, int.from_bytes(n.to_bytes(4, "little"), "big"),
         n + rng.choice([-1, 1]) * (1 << rng.randrange(w)), n + rng.choice([-1, 1]) * 10 ** rng.randrange(10)][k]
    if k in (2, 3):
        m = (m & ((1 << w) - 1)) | (1 << (w - 1))
    m = min(max(m, 1), 4294967295)
    return (n, m) if m != n else related(rng)


def p_c15(c):
    rng = c.rng
    beh = []

    def reljob(i):
        fam = NC[i % 3]
        st = [new(fam, 1, 0)]
        for _ in range(25):
            n, m = related(rng)
            st += [dict(op="change_degree", src=0, n=n), dict(op="clone", src=0, dst=1), dict(op="change_degree", src=0, n=m), dict(op="eq", src=0, src2=1),
                   new(fam, m, 2), dict(op="eq", src=0, src2=2), dict(op="state", src=1), dict(op="clone_from", src=0, dst=1), dict(op="eq", src=1, src2=2)]
        return job(f"rel{i}", st)

    def relgauss(i):
        fam = GAUSS[i % 6]
        st = []
        for _ in range(3):
            n, m = related(rng)
            n, m = n % 257 + 1, m % 257 + 1
            if n == m:
                m += 1
            al, be = rand_par(rng), rand_par(rng)
            st += [new(fam, n, 0, al, be, chk="none"), new(fam, m, 1, al, be, chk="none"), dict(op="eq", src=0, src2=1), dict(op="clone", src=0, dst=2),
                   dict(op="clone_from", src=1, dst=2), dict(op="eq", src=2, src2=1), dict(op="state", src=0), dict(op="state", src=1)]
        return job(f"rg{i}", st)

    def eqjob(i):
        fam = ALL[i % 9]
        n = rng.randrange(1, 12)
        al, be = rand_par(rng), rand_par(rng)
        st = [new(fam, n, 0, al, be, chk="none"), new(fam, n, 1, al, be, chk="none"), new(fam, n + 1, 2, al, be, chk="none"),
              new(fam, n, 3, al + 0.25, be, chk="none"), new(fam, n, 4, al, be + 0.25, chk="none")]
        st += [dict(op="eq", src=a, src2=b) for a in range(5) for b in range(5)]
        # clone_from over rules of other and equal degree, in sequence
        for a, b in [(2, 13), (0, 13), (3, 13), (4, 13), (2, 13), (1, 13)]:
            st += [dict(op="clone_from" if st[-1]["op"] != "eq" else "clone", src=a, dst=13), dict(op="state", src=a), dict(op="views", src=13), integ(13, 0.25, 1.5), integ(a, 0.25, 1.5)]
        # tiny parameter differences that leave (nearly) equal data
        d = rng.choice([1e-16, 1e-300, E])
        st += [new(fam, n, 5, 0.0, 0.25, chk="none"), new(fam, n, 6, d, 0.25, chk="none"), dict(op="eq", src=5, src2=6),
               new(fam, 1, 7, 0.5, 0.25, chk="none"), new(fam, 1, 8, 0.25, 0.5, chk="none"), dict(op="eq", src=7, src2=8),
               new(fam, 1, 9, 3.0, 3.0, chk="none"), new(fam, 1, 10, 4.0, 4.0, chk="none"), dict(op="eq", src=9, src2=10),
               new(fam, n, 11, -0.0, -0.0, chk="none"), new(fam, n, 12, 0.0, 0.0, chk="none"), dict(op="eq", src=11, src2=12)]
        return job(f"eq{i}", st)

    def cdjob(i):
        fam = NC[i % 3]
        st = [new(fam, rng.randrange(1, 50), 0), dict(op="clone", src=0, dst=1)]
        for _ in range(6):
            n = rng.choice([1, 2, rng.randrange(1, 60), 4294967295, rng.choice([4294967294, 2147483647, 2147483649, 65535, 65536, 65537, 255, 256]), 1 << 31, rng.randrange(1, 1 << 32), 2 ** rng.randrange(1, 32) + rng.randrange(-1, 2), rng.randrange(1, 200000)]) if rng.random() < 0.5 else rng.randrange(1, 60)
            st += [dict(op="change_degree", src=0, n=n), new(fam, n, 2), dict(op="eq", src=0, src2=2), dict(op="eq", src=0, src2=1), dict(op="state", src=1)]
            if n < 100:
                st += [dict(op="views", src=0), integ(0, 0.5, 2.0), integ(2, 0.5, 2.0), integ(0, 0.5, 2.0, par=1, thr=2), integ(1, 0.5, 2.0)]
            else:
                st += [dict(op="iopen", src=0, kind="iter", it=0), dict(op="iop", it=0, o="len"), dict(op="iop", it=0, o="next_back")]
                if n <= 200000:
                    a, b = spread(rng)
                    f = fast(rng, n, a, b)
                    st += [integ(0, a, b, f), integ(0, a, b, f, par=1, thr=3)]
        return job(f"cd{i}", st)

    def runs():
        js = [eqjob(i) for i in range(c.pick(45, 300))] + [cdjob(i) for i in range(c.pick(45, 300))]
        # documents differing in a single entry
        for i in range(c.pick(42, 400)):
            fam = GAUSS[i % 6]
            n = rng.choice([1, 2, 3, 5, 8, 13, 40, 100]) if rng.random() < 0.8 else rng.randrange(1, 300)
            st = [rand_new(rng, fam, n, 0, chk="none")]
            for k in range(5):
                st += [edit(rng, 0, 1, 1), dict(op="eq", src=0, src2=1), dict(op="eq", src=1, src2=0), dict(op="clone", src=1, dst=2), dict(op="eq", src=1, src2=2), dict(op="views", src=2),
                       dict(op="clone_from", src=0, dst=2), dict(op="eq", src=0, src2=2), edit(rng, 1, 3, 2, False), dict(op="eq", src=1, src2=3), dict(op="eq", src=3, src2=3),
                       dict(op="clone_from", src=3, dst=2), dict(op="eq", src=3, src2=2), integ(2, 0.25, 1.5), integ(3, 0.25, 1.5), dict(op="state", src=0)]
                if fam in ("Legendre", "Cheb1", "Cheb2"):
                    st += [dict(op="conv", src=1, dst=4), dict(op="conv", src=0, dst=5), dict(op="eq", src=4, src2=5), dict(op="views", src=4)]
            js.append(job(f"doc{i}", st))
        for fam in GAUSS:
            for m in [rng.randrange(300, 3000), 40001]:
                lg = dict(log="none") if m > 3000 else {}
                js.append(job(f"grown{fam}{m}", grown(rng, fam, m, **lg) + [dict(op="clone", src=1, dst=2, **lg), dict(op="eq", src=1, src2=2), dict(op="eq", src=0, src2=1), edit(rng, 1, 3, 1, **lg), dict(op="eq", src=1, src2=3),
                              edit(rng, 1, 4, 1, grow=m - 1, **lg), dict(op="eq", src=4, src2=1), dict(op="eq", src=1, src2=4), dict(op="clone_from", src=1, dst=4, **lg), dict(op="eq", src=1, src2=4),
                              dict(op="state", src=1, **lg), dict(op="clone_from", src=0, dst=2, **lg), dict(op="eq", src=0, src2=2)]
                              + ([dict(op="conv", src=1, dst=5, **lg), dict(op="conv", src=2, dst=6, **lg)] if fam in ("Legendre", "Cheb1", "Cheb2") else [])))
        # boundaries of every width, from and to
        edges = [1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 8388608, 16777215, 16777216, 16777217, 2147483647, 2147483648, 2147483649, 4294967293, 4294967294, 4294967295]
        for fam in NC:
            for k, seq in enumerate((rng.sample(edges, len(edges)), edges, edges[::-1])):
                st = [new(fam, 3, 0), new(fam, 3, 3)]
                for n in seq:
                    st += [dict(op="change_degree", src=0, n=n), dict(op="state", src=0), new(fam, n, 1), dict(op="eq", src=0, src2=1), dict(op="clone", src=0, dst=2), dict(op="eq", src=2, src2=1),
                           dict(op="clone_from", src=1, dst=3), dict(op="state", src=3), dict(op="eq", src=3, src2=0)]
                js.append(job(f"edge{fam}{k}", st))
        # the same data under different parameters
        for fam in ("Jacobi", "Laguerre"):
            for m in (1, 3, 4, 8, 33):
                st = []
                for _ in range(6):
                    al, be = rng.choice([-0.5, 0.0, 0.5, 2.0, rng.uniform(-0.9, 5)]), rng.choice([0.25, 0.0, 2.0, rng.uniform(-0.9, 5)])
                    d = rng.choice([0.25, 0.25, E * 4, 1e-300, 1.0])
                    e = edit(rng, 0, 0, 2, grow=m)
                    st += [new(fam, 2, 0, al, be, chk="none"), new(fam, 2, 1, al + d, be, chk="none"), new(fam, 2, 2, al, be + d, chk="none"), new(fam, 2, 3, be, al, chk="none")]
                    st += [dict(e, src=k, dst=4 + k) for k in range(4)] + [dict(op="eq", src=4 + x, src2=4 + y) for x in range(4) for y in range(4)]
                    st += [dict(op="clone_from", src=4 + k, dst=4), dict(op="eq", src=4, src2=4 + k)] if (k := rng.randrange(1, 4)) else []
                js.append(job(f"par{fam}{m}", st))
        js += [reljob(i) for i in range(c.pick(36, 400))] + [relgauss(i) for i in range(c.pick(30, 200))]
        js += [history_job(rng, f"h{i}", h) for i, h in enumerate(beh)]
        rng.shuffle(js)
        yield "full", js
        yield "default", [history_job(rng, f"d{i}", h, noser=True, nopar=True) for i, h in enumerate(beh[:c.pick(60, 500)])]

    return dict(models=gq_models(c, c.pick(420, 4000), beh), runs=runs,
                kinds=kset("clone", "change", "eq", "reread", "move", "det", "view", "iter", "deg", "param", "fam", *SEQ, *PARK, *CRASH),
                what="behaviours of GaussQuad (random histories of 24 calls on three rules and two iterators) replayed on the crate, with every rule re-read, viewed and integrated at the end; comparisons of nearly equal rules; degree changes",
                assumptions=["histories sampled by TLC simulation; the model itself is checked exhaustively"])


def p_c16(c):
    rng = c.rng
    beh = []
    F = ["json", "json_pretty", "json_value", "bincode", "rkyv"]

    def runs():
        js = []
        for i in range(c.pick(200, 1500)):
            fam = ALL[i % 9]
            n = rng.randrange(1, c.pick(30, 80)) if rng.random() < 0.9 else rng.choice([100, 101, 150])
            st = [rand_new(rng, fam, n, chk="none"), integ(0, 0.0, 1.5)]
            for f in F:
                st += [dict(op="ser", src=0, dst=1, fmt=f), dict(op="eq", src=0, src2=1), dict(op="views", src=1), integ(1, 0.0, 1.5)]
                f2 = rng.choice(F)
                st += [dict(op="ser", src=1, dst=2, fmt=f2), dict(op="eq", src=0, src2=2)]
            if fam in NC:
                st += [dict(op="change_degree", src=1, n=7), integ(1, 0.0, 1.5), dict(op="state", src=0)]
            js.append(job(f"r{i}", st))
        # extreme parameters and data
        for i, al in enumerate(JSPECIAL + [150.0, 168.0]):
            st = [new("Laguerre", 3, 0, al, chk="none"), new("Jacobi", 3, 1, al, rng.choice(JSPECIAL), chk="none")]
            for f in F:
                st += [dict(op="ser", src=s, dst=2 + s, fmt=f) for s in (0, 1)] + [dict(op="eq", src=s, src2=2 + s) for s in (0, 1)]
            js.append(job(f"e{i}", st))
        for fam in NC:
            for n in (1, 2, 255, 256, 65536, 2147483648, 4294967295):
                js.append(job(f"n{fam}{n}", [new(fam, n)] + [dict(op="ser", src=0, dst=1, fmt=f) for f in F]))
            st = []
            for _ in range(c.pick(60, 600)):
                n = min(max(rng.choice([related(rng)[0], 2 ** rng.randrange(1, 33) + rng.randrange(-2, 3), 10 ** rng.randrange(1, 10) + rng.randrange(-1, 2), rng.randrange(1, 1 << 32)]), 1), 4294967295)
                st += [new(fam, n)] + [dict(op="ser", src=0, dst=1, fmt=f) for f in F]
            js.append(job(f"nr{fam}", st))
        # documents with unusual entries: zeros, repetitions, huge and tiny weights
        for i in range(c.pick(48, 400)):
            fam = GAUSS[i % 6]
            n = rng.choice([1, 2, 3, 5, 8, 40])
            st = [rand_new(rng, fam, n, 0, chk="none")]
            for _ in range(3):
                st += [edit(rng, 0, 1, rng.randrange(1, 5), False)]
                if n > 1 and rng.random() < 0.6:   # equal pairs
                    i1 = rng.randrange(n)
                    x, w = bits(rng.choice([0.0, -0.0, 0.5, rng.uniform(-1, 1)])), bits(rng.choice([0.0, -0.0, 1.0, 5e-324, 1e-200, rng.uniform(0, 2)]))
                    st[-1]["ed"] += [dict(i=q, c=k, v=v) for q in {i1, (i1 + 1) % n, rng.randrange(n)} for k, v in ((0, x), (1, w))]
                st += [s for f in F for s in (dict(op="ser", src=1, dst=2, fmt=f), dict(op="eq", src=1, src2=2), dict(op="views", src=2))] + [integ(1, 0.25, 1.5), integ(2, 0.25, 1.5)]
            js.append(job(f"doc{i}", st))
        # larger rules, with weights that underflow
        for fam, n in [("Hermite", rng.randrange(430, 520)), ("Laguerre", rng.randrange(200, 300)), ("Jacobi", rng.randrange(100, 250)), ("Legendre", rng.randrange(1000, 3000)),
                       ("Cheb1", rng.randrange(1000, 3000)), ("Cheb2", rng.randrange(1000, 3000)), ("Legendre", 70001), ("Cheb1", 65537), ("Cheb2", 33000)] + c.pick([], [("Hermite", 700), ("Laguerre", 600), ("Legendre", 300000)]):
            lg = dict(log="none") if n > 3000 else {}
            js.append(job(f"big{fam}{n}", [rand_new(rng, fam, n, 0, chk="none", **lg)] + [s for f in F for s in (dict(op="ser", src=0, dst=1, fmt=f, **lg), dict(op="eq", src=0, src2=1))]))
        for fam in GAUSS:
            for m in (rng.randrange(300, 3000), 70001):
                lg = dict(log="none") if m > 3000 else {}
                js.append(job(f"grown{fam}{m}", grown(rng, fam, m, **lg) + [s for f in F for s in (dict(op="ser", src=1, dst=2, fmt=f, **lg), dict(op="eq", src=1, src2=2))]))
        st = []
        for x in SPECIALS + [rand_double(rng) for _ in range(c.pick(200, 2500))]:
            st += [dict(op="p_new", x=bits(x), dst=0)] + [dict(op="p_ser", src=0, fmt=f) for f in F] + [dict(op="p_bytes", src=0)]
            st += [dict(op="p_de", x=bits(x), fmt=f) for f in ("json", "json_value", "json_opt", "bincode", "rule_laguerre", "rule_jacobi_alpha", "rule_jacobi_beta")]
        for q in range(0, len(st), 130):
            js.append(job(f"p{q}", st[q:q + 130]))
        js += [history_job(rng, f"h{i}", h) for i, h in enumerate(beh) if any(e[0] == "ser" for e in h)]
        rng.shuffle(js)
        yield "full", js

    return dict(models=gq_models(c, c.pick(200, 2000), beh), runs=runs, kinds=kset("ser", "de", "eq", "view", "pvalid", "pvalue", "api", "det", "died", "hang", "panic", *SEQ), api_is_property=True,
                what="serialization round trips of rules of all families in JSON (three forms), bincode and rkyv, chained and within histories of GaussQuad; parameter documents holding arbitrary doubles",
                assumptions=["documents sampled; rkyv archives are only read back unmodified (the crate does not enable validation of archives)"])


def p_c21(c):
    rng = c.rng
    beh = []

    def runs():
        js = []
        js += [history_job(rng, f"h{i}", h, noser=True) for i, h in enumerate(beh)]
        # the same constructions and integrations again and again, among others, in threads, nested
        for i in range(c.pick(90, 600)):
            n = rng.choice([1, 2, 3, 10, 50, 99, 100, 101, 102, 150])
            specs = []
            for k in range(4):
                fam = rng.choice(ALL)
                specs.append((fam, n if fam in ("Legendre", "Cheb1", "Cheb2") + tuple(NC) else min(n, 40), rand_par(rng), rand_par(rng)))
            mk = lambda k, d: new(specs[k][0], specs[k][1], d, specs[k][2], specs[k][3], chk="none")
            st = [mk(k, k) for k in range(4)]
            fs = [dict(kind="hash", seed=rng.randrange(9)), dict(kind="seq", seed=1)]
            for _ in range(10):
                k = rng.randrange(4)
                st.append(rng.choice([mk(k, rng.randrange(4, 8)), integ(k, 0.0, 1.5, rng.choice(fs)), integ(k, 0.0, 1.5, fs[0], par=1, thr=3), dict(op="state", src=k)]))
            sub = integ(rng.randrange(4), 0.0, 1.5, fs[0])
            st.append(integ(rng.randrange(4), 0.0, 1.5, dict(kind="nest", sub=sub)))
            st.append(dict(op="conc", threads=rng.choice([2, 4, 8]), steps=[mk(0, 12), integ(0, 0.0, 1.5, fs[0]), mk(1, 12), integ(1, 0.0, 1.5, fs[1]), mk(2, 12), integ(2, 0.0, 1.5, fs[0], par=1, thr=2), mk(3, 12)]))
            st += [integ(k, 0.0, 1.5, f) for k in range(4) for f in fs] + [mk(k, 8) for k in range(4)]
            js.append(job(f"m{i}", st))
        # calls that have much in common, in any order: keys that collide, results left over from a neighbour
        for i in range(c.pick(72, 500)):
            fam = ALL[i % 9]
            al, be = rand_par(rng), rand_par(rng)
            k = i // 9 % 3
            if k == 0 or fam not in ("Jacobi", "Laguerre"):
                ns = []
                while len(ns) < 3:
                    n, m = related(rng)
                    cap = 40000 if fam in ("Legendre", "Cheb1", "Cheb2") else 120 if fam in GAUSS else 4294967295
                    n, m = (n - 1) % cap + 1, (m - 1) % cap + 1
                    if rng.random() < 0.5:
                        m = n + rng.choice([1 << q for q in range(6, 16)])
                    if n != m and m <= cap:
                        ns += [n, m]
                args = [(n, al, be) for n in ns]
            else:
                n = rng.randrange(1, 60)
                q = rng.choice([NEXT(al), al + 1, al + 0.5, be, al * (1 + 2.0 ** -rng.randrange(20, 52)), -0.0 if al == 0 else al / 2])
                args = [(n, al, be), (n, q, be), (n, be, al), (n, al, q if q > -1 else be), (n + 1, al, be)]
            mk = lambda a, d: new(fam, a[0], d, max(a[1], MINP), max(a[2], MINP), chk="none", **(dict(log="none") if a[0] > 300 else {}))
            js.append(job(f"rel{i}", [mk(rng.choice(args), rng.randrange(4)) for _ in range(16)]))
        # pieces of intervals: bounds in common with the call before
        for i in range(c.pick(54, 300)):
            fam = ALL[i % 9]
            n = rng.randrange(1, 12)
            pts = [rng.uniform(-2, 2), rng.choice([0.0, 1.0, rng.uniform(-2, 2)]), rng.uniform(-2, 2)]
            pts.append(NEXT(pts[0]))
            fs = [dict(kind="hash", seed=1), dict(kind="hash", seed=2), dict(kind="const", c=bits(1.5))]
            st = [rand_new(rng, fam, n, 0, chk="none"), rand_new(rng, fam, n + rng.randrange(2), 1, chk="none")]
            for _ in range(40):
                st.append(integ(rng.randrange(2), rng.choice(pts), rng.choice(pts), rng.choice(fs), **(dict(par=1, thr=2) if rng.random() < 0.2 else {})))
            js.append(job(f"piece{i}", st))
        # the same call hundreds of times: caches, counters, drifting state
        for i in range(c.pick(27, 120)):
            fam = ALL[i % 9]
            n = rng.choice([1, 2, 3, 5, 9, 17, 33])
            al, be = rand_par(rng), rand_par(rng)
            st = [new(fam, n, 0, al, be, chk="none"), rep(new(fam, n, 1, al, be, chk="none"), 700), rep(integ(0, 0.25, 1.5, ev=0), 3000),
                  rep(new(fam, n + 1, 1, al, be, chk="none"), 300), new(fam, n, 1, al, be, chk="none"), integ(1, 0.25, 1.5, ev=0)]
            js.append(job(f"rep{i}", st))
        yield "full", js
        # nested integrations of rules with many nodes, in processes of their own
        js = []
        for i in range(c.pick(36, 200)):
            f1 = ALL[i % 9]
            f2 = ALL[(i // 9) % 9] if i % 2 else f1
            n1, n2 = rng.randrange(2, 5), rng.randrange(40, 80)
            if rng.random() < 0.2:
                n1, n2 = n2, n1
            sub = integ(1, 0.25, 1.5, dict(kind="hash", seed=1))
            js.append(job(f"deep{i}", [new(f1, n1, 0, 0.5, 0.25, chk="none"), new(f2, n2, 1, -0.25, 1.5, chk="none"), sub, integ(0, 0.0, 2.0, dict(kind="nest", sub=sub), fine=1), sub,
                                       new(f2, n2, 2, -0.25, 1.5, chk="none")]))
        yield "full", js
        # before and after an integrand that panics, in processes of their own
        js = []
        for i in range(c.pick(36, 200)):
            fam = ALL[i % 9]
            n = rng.randrange(1, 80)
            mk = lambda d: new(fam, n, d, 0.5, 0.25, chk="none")
            ref = integ(0, 0.25, 1.5)
            st = [mk(0), ref]
            for k in rng.sample([1, 2, (n + 1) // 2, n, n + 1, 2 * n + 1], 3):
                st += [integ(0, 0.25, 1.5, dict(kind="hash", panic_at=k), par=rng.randrange(2), thr=2), ref, mk(1), dict(ref, src=1), dict(op="state", src=0)]
            js.append(job(f"fault{i}", st))
        yield "full", js
        # the same calls in another process and another order, compared below
        yield "full", order_a
        yield "full", order_b

    order_a, order_b = [], []
    for i in range(c.pick(40, 250)):
        st = []
        for k in range(8):
            fam = rng.choice(ALL)
            n = rng.choice([1, 2, 5, 30, 100, 101]) if fam in ("Legendre", "Cheb1", "Cheb2") + tuple(NC) else rng.randrange(1, 30)
            st.append((rand_new(rng, fam, n, k, chk="none", log="none"), integ(k, -0.5, 2.0, dict(kind="hash", seed=k))))
        # neighbours of earlier parameters and degrees
        for k in range(4):
            m = st[rng.randrange(len(st))][0]
            d = rng.choice([E, 1e-14, 1e-11, 1e-9, 1e-7, 1e-5])
            q = dict(m, dst=len(st))
            if "al" in q and rng.random() < 0.8:
                w = rng.choice(["al"] + (["be"] if "be" in q else []))
                x = vlib.unbits(q[w])
                q[w] = bits(x + d * max(1.0, abs(x)))
            else:
                q["n"] = max(1, q["n"] + rng.choice([-1, 1]))
            st.append((q, integ(q["dst"], -0.5, 2.0, dict(kind="hash", seed=k))))
        order_a.append(job(f"oa{i}", [s for p in st for s in p]))
        order_b.append(job(f"ob{i}", [s for p in reversed(st) for s in p]))

    def compare(recs):
        rs = {json.loads(r)["id"]: json.loads(r) for r in recs["full"] if '"id":"o' in r[:400] or '"oa' in r or '"ob' in r}
        out = []
        for i in range(len(order_a)):
            a, b = rs.get(f"oa{i}"), rs.get(f"ob{i}")
            if a and b:
                key = lambda s: (s["op"], s.get("dst", s.get("src")))
                m = {key(s): s["r"] for s in b["steps"]}
                out.append(json.dumps(dict(id=f"cmp{i}", steps=[dict(op="same", k="det", u=s["r"], v=m[key(s)], r={}) for s in a["steps"] if key(s) in m])))
        return out

    return dict(models=gq_models(c, c.pick(300, 3000), beh), runs=runs, compare=compare, kinds=kset("det", "reread", *CRASH),
                what="repeated constructions and sequential integrations within histories, nested, in threads and across processes: construction and integration are functions in the specification",
                assumptions=["histories and interleavings sampled"])


# ------------------------------------------------------------------ C17: configurations
def p_c17(c):
    rng = c.rng

    def mkjobs():
        js = []
        for i in range(c.pick(110, 800)):
            fam = ALL[i % 9]
            n = rng.randrange(1, 40) if fam in ("Jacobi", "Laguerre", "Hermite") else rng.choice([rng.randrange(1, 130), rng.randrange(100, 140)])
            st = [rand_new(rng, fam, n)] if n <= 40 else [rand_new(rng, fam, n, chk="struct")]
            for _ in range(3):
                a, b = rand_bounds(rng)
                st.append(integ(0, a, b, rand_f(rng)))
            st += [dict(op="views", src=0), dict(op="clone", src=0, dst=1), dict(op="eq", src=0, src2=1)]
            if fam in NC:
                st += [dict(op="change_degree", src=0, n=n + 1), integ(0, 0.0, 1.0)]
            kind = rng.choice(["iter", "ref", "into"])
            st += [dict(op="iopen", src=0, kind=kind, it=0)] + [dict(op="iop", it=0, o=o, k=1) for o in ("next", "nth", "next_back", "nth_back", "len", "rest_rev")]
            js.append(job(f"r{i}", st))
        for i in range(c.pick(12, 80)):
            st = []
            for _ in range(30):
                x = rand_valid(rng)
                o = rng.choice(OPS5)
                y = adv_operand(rng, o, x) if rng.random() < 0.3 else rand_double(rng)
                st += [dict(op="p_new", x=bits(x), dst=0), dict(op="p_op", src=0, o=o, y=bits(y), dst=1), dict(op="p_fmt", src=0, o=rng.choice(["display", "lower", "upper"]))]
                st.append(dict(op="p_parse", s=codes(rand_text(rng)), dst=2))
            js.append(job(f"p{i}", st))
        # parameters that stress the backend functions: gamma, powers, square roots
        for i, (al, be) in enumerate([(a, b) for a in (MINP, -0.999, -0.5, 0.3, 1.0, 11.0, 40.0, 90.0, 150.0) for b in (MINP, -0.7, 0.0, 2.0, 33.0)]):
            n = rng.choice([1, 2, 4, 9])
            js.append(job(f"g{i}", [new("Jacobi", n, 0, al, be), new("Laguerre", n, 1, al)]))
        for i, (al, be) in enumerate([(0.0, 0.0), (0.5, 0.5), (-0.5, -0.5), (-0.25, -0.75), (-0.5, 0.5)]):
            for n in (1, 2, 3, 8, 21):
                js.append(job(f"s{i}.{n}", [new("Jacobi", n, 0, al, be)]))
        # large rules: by digest
        big = {"Jacobi": (60, 260), "Laguerre": (60, 260), "Hermite": (60, 260)}
        for fam in ALL:
            lo, hi = big.get(fam, (141, 20011) if fam in GAUSS else (41, 65537))
            for k in range(c.pick(4, 16)):
                n = round(math.exp(rng.uniform(math.log(lo), math.log(hi))))
                a, b = rand_bounds(rng)
                st = [rand_new(rng, fam, n, chk="none", log="none"), integ(0, a, b, dict(kind="hash"), ev=0 if n > 300 else 1)]
                st += [dict(op="iopen", src=0, kind="ref", it=0), dict(op="iop", it=0, o="nth", k=n // 2), dict(op="iop", it=0, o="nth_back", k=n // 3), dict(op="iop", it=0, o="nth", kb=split(2 ** 32 + 1)), dict(op="iop", it=0, o="next_back", k=0)]
                js.append(job(f"L{fam}{k}", st))
            # an integrand that fails, and special values
            n = rng.randrange(2, 20)
            st = [rand_new(rng, fam, n, chk="none")]
            for f in (dict(kind="hash", panic_at=rng.randrange(1, n)), dict(kind="const", c=bits(math.inf)), dict(kind="const", c=bits(math.nan)), dict(kind="hash")):
                st.append(integ(0, -1.0, 1.5, f))
            js.append(job(f"F{fam}", st))
        return js

    common = mkjobs()
    order = ["default", "std", "rayon", "serde", "full", "stdlibm", "stdserde", "rkyv"] + c.pick([], ["zero", "raylibm"])
    # parallel construction exists in two of the builds
    par = [job(f"P{fam}{k}", [new(fam, rng.randrange(*r), par=1, thr=rng.choice([1, 3, 8]), chk="none", log="none")])
           for fam in ("Legendre", "Cheb1", "Cheb2") for k, r in enumerate(((1, 60), (60, 200), (200, 5000)))]

    def runs():
        for cfg in order:
            js = common + (par if cfg in ("rayon", "full", "raylibm") else [])
            yield cfg, js if cfg in order[:5] or c.thorough else js[::2]

    def compare(recs):
        m = {cfg: {json.loads(r)["id"]: json.loads(r) for r in recs.get(cfg, [])} for cfg in order}
        out = []
        for base, other in (("std", "rayon"), ("std", "full"), ("rayon", "full"), ("default", "serde"), ("std", "stdlibm"), ("std", "stdserde"), ("default", "rkyv"), ("default", "zero"), ("rayon", "raylibm")):
            for i in sorted(m.get(base, {})):
                if i in m.get(other, {}):
                    a, b = m[base][i], m[other][i]
                    steps = [dict(op="same", k="cfg", u=x["r"], v=y["r"], r={}) for x, y in zip(a["steps"], b["steps"])]
                    if len(a["steps"]) != len(b["steps"]):
                        steps.append(dict(op="same", k="cfg", u=dict(n=len(a["steps"])), v=dict(n=len(b["steps"])), r={}))
                    out.append(json.dumps(dict(id=f"{base}/{other}/{i}", steps=steps)))
        # different math backends: the rules may differ by the accuracy allowed to each
        for i in sorted(m["default"]):
            if i in m["std"]:
                steps = []
                for x, y in zip(m["default"][i]["steps"], m["std"][i]["steps"]):
                    if x["op"] == "new" and "pairs" in x["r"] and "pairs" in y["r"] and x["fam"] in GAUSS:
                        steps.append(dict(op="near", fam=x["fam"], n=x["n"], al=x.get("al", [0, 0]), be=x.get("be", [0, 0]), u=x["r"]["pairs"], v=y["r"]["pairs"], r={}))
                    elif x["op"] in ("p_new", "p_parse", "p_fmt", "eq", "iopen"):
                        steps.append(dict(op="same", k="cfg", u=x["r"], v=y["r"], r={}))
                    elif x["op"] == "p_op":
                        steps.append(dict(op="nearp", o=x["o"], u=x["r"], v=y["r"], r={}))
                if steps:
                    out.append(json.dumps(dict(id=f"default~std/{i}", steps=steps)))
        return out

    return dict(models=mc(c, "MCGaussQuad.tla", "MCGaussQuad.cfg"), runs=runs, compare=compare,
                kinds=kset("cfg", "cfgnode", "cfgweight", "cfgnonfinite", "cfgp", "node", "weight", "mass", "finite", "order", "value", "evpoint", "evcount", "pround", "view", "iter", "eq", "clone", "change", "panic", "died", "hang"),
                what="the same calls in eight builds (libm; std; std+rayon; libm+serde+rkyv+zerocopy; everything; std+libm; std+serde; libm+rkyv): traces of each against the specification, recorded outcomes compared bit for bit within a math backend and within the rules' accuracy across",
                assumptions=["calls sampled"])


# ------------------------------------------------------------------ C19: no panics, termination
def p_c19(c):
    rng = c.rng
    XP = [MINP, -1 + E, -1 + 1e-12, -0.5, -5e-324, -0.0, 0.0, 5e-324, 2.2e-308, 1e-16, 1.0, 1e2, 170.0, 171.0, 300.0, 1e3, 1e6, 1e8, 1e15, 1e16, 1e50, 1e100, 1e154, 1e155, 1e200, 1e300, 1e307, 1e308, DBLMAX]

    def runs():
        js = []
        pairs = [(a, b) for a in XP for b in XP]
        for i, (al, be) in enumerate(pairs if c.thorough else rng.sample(pairs, 330)):
            st = []
            for n in rng.sample([1, 2, 3, 4, 5, 8, 17, 30], c.pick(3, 6)):
                st += [new("Jacobi", n, 0, al, be, chk="none", log="none"), integ(0, 0.0, 1.0, ev=0), dict(op="debug", src=0), integ(0, -1.0, 1.0, ev=0, par=1, thr=2)]
            js.append(job(f"j{i}", st))
        for i, al in enumerate(XP + [rand_valid(rng) for _ in range(c.pick(60, 400))]):
            st = []
            for n in (1, 2, 3, 7, 20):
                st += [new("Laguerre", n, 0, al, chk="none", log="none"), integ(0, ev=0), new("Jacobi", n, 1, al, rand_valid(rng), chk="none", log="none"), integ(1, 1e308, -1e308, ev=0)]
            js.append(job(f"l{i}", st))
        # degrees: many consecutive ones and boundaries
        for fam in GAUSS:
            cheap = fam in ("Legendre", "Cheb1", "Cheb2")
            degs = list(range(1, c.pick(260, 1200) if cheap else c.pick(70, 200)))
            degs += c.pick([1000, 1023, 1024, 1025, 65536, 200001] if cheap else [100, 128, 200, 256], [4095, 65535, 65536, 1000003, 3000000] if cheap else [256, 300, 400, 512, 700])
            for q in range(0, len(degs), 20):
                st = []
                for n in degs[q:q + 20]:
                    st += [rand_new(rng, fam, n, chk="none", log="none"), integ(0, 0.0, 1.0, ev=0)]
                    if cheap:
                        st.append(new(fam, n, 1, par=1, thr=rng.choice([1, 2, 8]), chk="none", log="none"))
                js.append(job(f"d{fam}{q}", st))
        for fam in ("Legendre", "Cheb1", "Cheb2"):
            for n in huge(rng, c.pick(1, 4)) + c.pick([], [50000001]):
                js.append(job(f"h{fam}{n}", [new(fam, n, chk="none", log="none"), integ(0, 0.0, 1.0, fastg(rng), ev=0), new(fam, n, 1, par=1, thr=8, chk="none", log="none"), integ(1, 0.0, 1.0, fastg(rng), ev=0, par=1, thr=8)]))
        # matrices with tiny and huge entries: random bit patterns as parameters
        for i in range(c.pick(150, 1500)):
            al, be = rand_valid(rng), rand_valid(rng)
            js.append(job(f"x{i}", [new("Jacobi", rng.randrange(1, 25), 0, al, be, chk="none", log="none"), new("Laguerre", rng.randrange(1, 25), 1, al, chk="none", log="none")]))
        # maximal degrees of fixed-step rules, extreme bounds, skip counts
        for fam in NC:
            for n in (1, 2, 65535, 65536, 2147483647, 2147483648, 4294967294, 4294967295):
                st = [new(fam, n), dict(op="debug", src=0), dict(op="clone", src=0, dst=1), dict(op="change_degree", src=1, n=4294967295), dict(op="change_degree", src=1, n=1)]
                for a, b in ((0.0, 1.0), (-1e308, 1e308), (NAN, 1.0), (INF, -INF), (1e308, 1e308), (5e-324, -5e-324)):
                    st.append(integ(0, a, b, dict(kind="hash", panic_at=min(n, 7)), ev=0))
                    if n <= 65536:
                        st += [integ(0, a, b, ev=0), integ(0, a, b, ev=0, par=1, thr=4)]
                for kind in ("iter", "ref", "into"):
                    st += [dict(op="iopen", src=0, kind=kind, it=0)]
                    # skipping takes time proportional to the number of skipped positions
                    skips = [0, 1, n - 1, n, n + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1] if n <= 65536 else [0, 1, 2, 1000]
                    for o in ("len", "nth", "nth_back", "next", "next_back", "size_hint", "nth", "nth_back", "next"):
                        st.append(dict(op="iop", it=0, o=o, kb=split(rng.choice(skips))))
                    if n == 4294967295 and kind == "ref":
                        st.append(dict(op="iop", it=0, o=rng.choice(["nth", "nth_back"]), kb=split(rng.choice([2 ** 32 - 1, 2 ** 64 - 1]))))
                    st.append(dict(op="ifin", it=0, o=rng.choice(["last", "count"]) if n <= 65536 else "last"))
                js.append(job(f"n{fam}{n}", st))
        # degrees for which twice the degree exceeds 32 bits, to the end
        for fam in NC:
            for n in c.pick([2147483649], [2147483648, 2147483649, 4294967295]):
                st = [new(fam, n), integ(0, 0.25, 1.5, dict(kind="fast", c=bits(1.0), s=bits(0.75)), ev=0, par=1, thr=8)]
                if c.thorough:
                    st.append(integ(0, 0.25, 1.5, dict(kind="fast", c=bits(1.0), s=bits(0.75)), ev=0))
                js.append(job(f"fast{fam}{n}", st))
        for fam in GAUSS:
            st = [rand_new(rng, fam, 9, chk="none")]
            for a, b in ((NAN, 1.0), (INF, -INF), (-INF, INF), (1e308, 1.7e308), (-1.7e308, 1.7e308), (DBLMAX, DBLMAX), (5e-324, -5e-324), (0.0, -0.0)):
                st += [integ(0, a, b, ev=0), integ(0, a, b, ev=0, par=1, thr=2)]
            for kind in ("nodes", "weights", "iter", "ref", "into"):
                st += [dict(op="iopen", src=0, kind=kind, it=0)]
                for o in ("nth", "nth_back", "next", "nth", "nth_back", "len", "rest_by_ref"):
                    st.append(dict(op="iop", it=0, o=o, kb=split(rng.choice([0, 1, 8, 9, 10, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]))))
                st.append(dict(op="ifin", it=0, o="last"))
            js.append(job(f"g{fam}", st))
        st = []
        for _ in range(c.pick(300, 3000)):
            x = rand_valid(rng)
            st += [dict(op="p_new", x=bits(x), dst=0), dict(op="p_op", src=0, o=rng.choice(OPS5), y=bits(rand_double(rng)), dst=1)]
        for q in range(0, len(st), 100):
            js.append(job(f"p{q}", st[q:q + 100]))
        rng.shuffle(js)
        yield "full", js
        js = []
        for i, (al, be) in enumerate(rng.sample(pairs, c.pick(90, 400))):
            js.append(job(f"dj{i}", [new("Jacobi", n, 0, al, be, chk="none", log="none") for n in (1, 2, 3, 6)] + [new("Laguerre", n, 1, al, chk="none", log="none") for n in (1, 2, 5)]))
        yield "default", js

    return dict(models=mc(c, "MCIter.tla", "MCIter.cfg"), runs=runs, kinds=kset("panic", "hang", "died", "foreignpanic"),
                what="constructions with extreme and random parameters and many degrees, integrations with extreme bounds, maximal degrees and skip counts, under a watchdog and with overflow checks on",
                assumptions=["a call that does not return within 90 s counts as hanging", "degrees up to 200001 (3000000 thorough)"])


PLANS = {f"C{i:02d}": globals()[f"p_c{i:02d}"] for i in range(1, 22)}
