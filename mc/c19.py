"""C19: seeds.  Every history of up to three (thorough: four) operations before a seeded run, every seed of a boundary list,
every position of the run in a chain of runs; the state of the generator at every draw of a run; several interpreter hash seeds."""
from .core import *
from .util import *
from . import grid as GR

random_ = random
SEEDS = [0, 1, 2, 3, 7, 42, 255, 1000, 65536, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 10 ** 12, 2 ** 64 + 5, -1, -7 ** 5, 5, 2 ** 53, 2 ** 53 + 1, 2 ** 61 - 1, 2 ** 61 + 6, 2 ** 63, 2 ** 128 + 3, 999999937]


def f1(x):
    return GR.f_mod(x)


def noisy(x):
    return GR.f_mod(x) + random_.random()


L = ["red", "green", "blue", "white", "black"]
CFG = {
    "binary": Cfg("binary", ((0, 7, 1), (-1, 1, 0.1)), f1, n=5, g=4, early_stop=None, mutation_lvl=0.3),
    "gray": Cfg("gray", ((0, 7, 1), (-1, 1, 0.1)), f1, n=5, g=4, early_stop=None, transfer_parents="random"),
    "cat": Cfg("cat", (L, (0, 6, 2), L[:2]), f1, n=5, g=4, early_stop=None, mutation_lvl=0.3),
    "order": Cfg("order", (0, 6, 5), f1, n=5, g=4, early_stop=None, mutation_lvl=0.3),
    "vega": Cfg("vega", ((0, 7, 1), (0, 3, 1)), GR.m_two, n=5, g=4, early_stop=None),
    "ffga": Cfg("ffga_gray", ((0, 7, 1), (0, 3, 1)), GR.m_two, n=5, g=4, early_stop=None),
    "collector": Cfg("binary", ((0, 7, 1),) * 2, f1, n=5, g=4, mode="collector", early_stop=50, obj_value=1,
                     ops={"selection": G.BalancedSelection, "crossover": G.UniformCrossover}),
    "order-collector": Cfg("order", (0, 6, 5), f1, n=5, g=4, mode="collector", early_stop=50, transfer_parents="random",
                           ops={"selection": G.RankedSelection, "mutation": G.InversionMutation}),
    "noisy": Cfg("cat", (L, (0, 6, 2)), noisy, n=5, g=3, early_stop=None),
    "user": Cfg("binary", ((0, 7, 1), (-1, 1, 0.1)), f1, n=5, g=4, input_population=[[1, 0.3], [7, 1]]),
    "flat": Cfg("order", (0, 6, 5), GR.f_const, n=5, g=4, early_stop=None, mutation_lvl=0.3),
    "flat-cat": Cfg("cat", (L, (0, 6, 2), L[:2]), GR.f_const, n=5, g=4, mode="collector", early_stop=500, transfer_parents="random",
                    ops={"selection": G.RankedSelection}),
    "flat-vega": Cfg("vega", ((0, 7, 1), (0, 3, 1)), GR.m_same, n=5, g=4, early_stop=None),
    "penalty": Cfg("binary", ((0, 7, 1), (-1, 1, 0.1)), GR.cond_obj(["<=", "optimize"]), n=5, g=4,
                   conditions=["<=", "optimize"], penalty=G.AdaptivePenalty()),
}


def every_operator():
    """collector-mode configurations that reach every selection, crossover, mutation and transfer"""
    out = {}

    def add(algo, gens, obj, **ops):
        extra = {k: ops.pop(k) for k in [k for k in ops if k in ("obj_value", "transfer_parents", "num_objectives", "mutation_lvl")]}
        name = "op-%s-%s" % (algo, "-".join([o.__name__ for o in ops.values()] + [str(v) for v in extra.values()]))
        out[name] = Cfg(algo, gens, obj, n=5, g=4, mode="collector", early_stop=50, ops=ops, **dict({"mutation_lvl": 0.6}, **extra))
    B, C, O = ((0, 7, 1), (-1, 1, 0.1)), (L, (0, 6, 2), L[:3]), (0, 6, 5)
    for cro in GR.CROSS:
        add("binary", B, f1, crossover=cro, selection=G.RankedSelection)
        add("cat", C, f1, crossover=cro, selection=G.RankedSelection, transfer_parents="random")
    for mut in GR.CMUT:
        add("order", O, f1, mutation=mut, selection=G.TournamentSelection)
        add("order", O, f1, mutation=mut, selection=G.RankedSelection, mutation_lvl="strong")
    for sel in GR.SELECT:
        add("gray", B, f1, selection=sel, obj_value=1, transfer_parents="random")
        add("order", O, f1, selection=sel, obj_value=1)
    for sel in GR.VSELECT:
        add("vega", B, GR.m_two, selection=sel, obj_value=[1, 1], num_objectives=2)
    add("ffga", B, GR.m_two, selection=G.BalancedSelection, transfer_parents="random")
    return out


LARGE = {     # many survivors, many ties
    "large": Cfg("order", (0, 6, 5), f1, n=40, g=6, early_stop=None, children_percent=0.4),
    "large-cat": Cfg("cat", (L, (0, 6, 2), L[:2]), GR.f_const, n=40, g=6, early_stop=None, children_percent=0.4, transfer_parents="random"),
    "large-vega": Cfg("vega", ((0, 7, 1), (0, 3, 1)), GR.m_two, n=24, g=5, early_stop=None, children_percent=0.5),
}
EVERY = dict(every_operator(), **LARGE)
CFG.update(EVERY)


def digest(d):
    return repr((essences(d.population), essences(d.parents or []), essences(d.children or []), d.historical_best,
                 d.historical_mediocre, d.historical_worst, d.idx_generation, d.num_generation_no_improve,
                 freeze(d.best_solution)))


def go(cfg):
    return digest(cfg.build(cfg.obj)())


def op_run(name, seed):
    def f():
        generator.rnd_seed = seed
        go(CFG[name])
    f.__name__ = "run(%s, seed %r)" % (name, seed)
    return f


def draw():
    for _ in range(3):
        random_.random()


def user_seed():
    random_.seed(99)


def population():
    p = G.CatPopulation()
    p.set_params(num_individ=3, gens=(L,), input_population=None)
    p.fill()


def unseeded():
    generator.rnd_seed = None
    go(CFG["order"])


def reseeded():
    generator.rnd_seed = 77


def half_collector():
    """a collector run prepared but never optimized"""
    generator.rnd_seed = 5
    c = CFG["collector"]
    col = CollectorGA(fitness=G.HyperbolaFitness(obj_function=f1), selection=G.RankedSelection(), crossover=G.UniformCrossover(),
                      mutation=G.BinStringMutation("weak"), new_generation=G.NewGeneration("best"))
    col.set_population(population=G.BinaryPopulation, num_individ=4, num_generations=3, gens=((0, 7, 1),))


def constructed():
    BinaryGA(num_generations=4, num_individ=5, gens=((0, 7, 1),), obj_function=f1, is_print=False)


OPS = [draw, user_seed, population, unseeded, reseeded, half_collector, constructed, op_run("binary", 3), op_run("cat", 0),
       op_run("ffga", 1)]


def histories(rec, name, depth, seed, part=0, parts=1):
    """the result of a seeded run is the same after every history of operations"""
    cfg = CFG[name]
    set_driver(Real())
    generator.rnd_seed = seed
    ref = go(cfg)
    hs = [h for k in range(depth + 1) for h in itertools.product(OPS, repeat=k)][part::parts]
    for h in hs:
        set_driver(Real())
        random_.seed(12345)
        for op in h:
            op()
        generator.rnd_seed = seed
        got = go(cfg)
        rec.done(1, len(h) + 1)
        rec.state((name, tuple(o.__name__ for o in h)))
        if got != ref:
            rec.fail("%s with seed %r gives another result after %s" % (name, seed, [o.__name__ for o in h]))
    rec.sample("%s seed %r after all %d histories of up to %d operations" % (name, seed, len(hs), depth))


def seeds(rec, name):
    """every seed repeatable; different seeds give different streams; interleaved order of runs does not matter"""
    cfg = CFG[name]
    ref = {}
    for s in SEEDS:
        for k in range(2):
            set_driver(Real())
            random_.seed(k + 1)
            generator.rnd_seed = s
            r = go(cfg)
            if ref.setdefault(s, r) != r:
                rec.fail("%s with seed %r is not repeatable" % (name, s))
            rec.done(1, 1)
            rec.state((name, s, k))
    for a, b in itertools.permutations(SEEDS[:7], 2):
        set_driver(Real())
        for s in (a, b, a):
            generator.rnd_seed = s
            if go(cfg) != ref[s]:
                rec.fail("%s: run with seed %r depends on the runs before (seeds %r, %r alternating)" % (name, s, a, b))
            rec.done(1, 1)
        rec.state((name, a, b))


def distinct(rec, kind):
    """first generations large enough to tell streams apart"""
    gens = {"binary": ((0, 255, 1),) * 4, "gray": ((0, 255, 1),) * 4, "cat": (L, L, (0, 100, 1), (0, 100, 1)), "order": (0, 30, 12)}
    seen = {}
    for s in [s for s in SEEDS if s >= 0]:
        set_driver(Real())
        generator.rnd_seed = s
        p = new_pop(kind, 12, gens[kind])
        key = repr([i["genotype"] for i in p])
        if key in seen:
            rec.fail("%s population: seeds %r and %r give the same first generation" % (kind, s, seen[key]))
        seen[key] = s
        set_driver(Real())
        generator.rnd_seed = s
        q = new_pop(kind, 12, gens[kind])
        if repr([i["genotype"] for i in q]) != key:
            rec.fail("%s population: seed %r is not repeatable" % (kind, s))
        rec.done(2, 2)
        rec.state((kind, s))
    # without a seed runs are not frozen
    got = set()
    for _ in range(4):
        set_driver(Real())
        generator.rnd_seed = None
        got.add(repr([i["genotype"] for i in new_pop(kind, 12, gens[kind])]))
    if len(got) != 4:
        rec.fail("%s population: unseeded first generations repeat" % kind)
    rec.done(4, 4)


def restarts(rec, name, g, n):
    """no generator state occurs twice at draws of one run"""
    base = CFG[name]
    opts = dict(base.opts)
    if g > 50:
        opts["early_stop"] = g + 1
    for s in SEEDS[:3] if g > 50 or n > 50 else SEEDS[:6]:
        cfg = Cfg(base.algo, base.gens, base.obj, n=n, g=g, mode=base.mode, ops=base.ops, **opts)
        drv = set_driver(Real(watch=True))
        generator.rnd_seed = s
        marks = []
        mon = Monitor(snaps=False)
        mon.hook = lambda when, ev, d: marks.append((ev.kind, ev.gen, drv.draws)) if when == "before" else None
        with mon:
            cfg.build(cfg.obj)()
        first = {}
        for i, st in enumerate(drv.states):
            if st in first:
                where = [m for m in marks if m[2] <= i][-1:]
                rec.fail("%s with seed %r: draw %d (%s) replays the random stream from draw %d" % (
                    cfg, s, i, where, first[st]))
                break
            first[st] = i
        for st in drv.states:
            rec.states.add(st)
        rec.done(1, len(drv.states))


def chains(rec, name):
    """consecutive runs in one process under one seed are all equal; alternating algorithms too"""
    others = [k for k in CFG if k != name and k not in EVERY]
    for s in (0, 11):
        set_driver(Real())
        generator.rnd_seed = s
        ref = go(CFG[name])
        for o in others:
            for pattern in ((o, name), (name, o, name), (o, o, name)):
                got = None
                for k in pattern:
                    r = go(CFG[k])
                    got = r if k == name else got
                if got != ref:
                    rec.fail("seed %r: %s after %r differs from a first run" % (s, name, pattern))
                rec.done(1, len(pattern))
                rec.state((name, s, pattern))


def hashes(rec, name):
    """fresh interpreters with different hash seeds and different amounts of prior random numbers"""
    ref = {}
    for hs in ("0", "1", "2", "77", "random"):
        for seed in (0, 5):
            for before in (0, 3) if hs in "01" else (0,):
                env = dict(os.environ, PYTHONHASHSEED=hs)
                p = subprocess.run([sys.executable, os.path.join(HERE, "mc", "hashrun.py"), name, str(seed), str(before)],
                                   capture_output=True, text=True, env=env, timeout=50)
                if p.returncode:
                    rec.fail("%s seed %d: run failed" % (name, seed), err=p.stderr[-800:])
                    continue
                if ref.setdefault(seed, p.stdout) != p.stdout:
                    rec.fail("%s seed %d: result depends on the interpreter's hash seed or prior random numbers" % (name, seed))
                rec.done(1, 1)
                rec.state((name, hs, seed, before))
    if ref.get(0) == ref.get(5):
        rec.fail("%s: seeds 0 and 5 give the same result" % name)


BOUNDS = {"quick": "all histories of up to 3 of 10 operations before a seeded run of 11 configurations; 14 seeds; all "
                   "ordered seed pairs of 7; generator state at every draw of runs up to 30 individuals x 25 generations; 5 hash seeds",
          "thorough": "the same with histories of up to 4 operations"}
ASSUMPTIONS = ["the objective function is deterministic given the random stream", "non-negative integer seeds (CPython's random.seed "
               "treats n and -n alike)"]


def items(tier):
    t = tier == "thorough"
    out = []
    for k in EVERY:
        out.append(("seeds[%s]" % k, "seeds", dict(name=k)))
        out.append(("restarts[%s,5]" % k, "restarts", dict(name=k, g=6, n=5)))
        out.append(("restarts[%s,20]" % k, "restarts", dict(name=k, g=12 if "ffga" in k else 20, n=8 if "ffga" in k else 20)))
    for k in CFG:
        if k in EVERY:
            continue
        for s in (0, 11):
            depth = 4 if t and s == 0 else 3
            parts = 16 if depth == 4 else 2
            for p in range(parts):
                out.append(("histories[%s,%d,%d,%d]" % (k, s, depth, p), "histories", dict(name=k, depth=depth, seed=s, part=p, parts=parts)))
        out.append(("seeds[%s]" % k, "seeds", dict(name=k)))
        out.append(("restarts[%s,5]" % k, "restarts", dict(name=k, g=6, n=5)))
        out.append(("restarts[%s,long]" % k, "restarts", dict(name=k, g=600 if t else 215, n=4)))
        out.append(("restarts[%s,broad]" % k, "restarts", dict(name=k, g=3, n=16 if k == "ffga" else 150)))
        out.append(("restarts[%s,30]" % k, "restarts", dict(name=k, g=8 if k == "ffga" else 25, n=12 if k == "ffga" else 30)))
        out.append(("chains[%s]" % k, "chains", dict(name=k)))
    for k in ("binary", "gray", "cat", "order"):
        out.append(("distinct[%s]" % k, "distinct", dict(kind=k)))
    for k in ("binary", "gray", "cat", "order", "vega", "ffga", "penalty", "collector", "order-collector", "large", "large-cat", "large-vega"):
        out.append(("hash[%s]" % k, "hashes", dict(name=k)))
    return out
