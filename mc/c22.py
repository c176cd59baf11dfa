"""C22: faults of the objective function.  A fault at every call index of a run (and at every pair of indices of short runs), with
exceptions of several kinds; state after the fault, retry and completed run against the fault-free run."""
from .core import *
from .util import *
from . import grid as GR


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


EXC = [Boom, ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError, StopIteration, RuntimeError, AssertionError,
       NotImplementedError, KeyboardInterrupt, SystemExit, GeneratorExit, Stop, OverflowError, LookupError, ArithmeticError]


class Faulty:
    """objective function that raises `exc` at the given call numbers (counted over the whole run)"""

    def __init__(self, f, at=(), exc=Boom):
        self.f, self.at, self.exc, self.calls = f, set(at), exc, 0
        self.raised = []
        self.points = []

    def __call__(self, *a):
        k = self.calls
        self.calls += 1
        self.points.append(fast(a[-1]))
        if k in self.at:
            e = self.exc("fault %d" % k)
            self.raised.append(e)
            raise e
        return self.f(a[-1])


B2 = ((0, 7, 1), (-1, 1, 0.1))
L = ["red", "green", "blue"]


def comps(name, obj):
    """components of a hand-driven run: population kind, gens, options"""
    pc = ["<=", "optimize", "!="]
    mc = ["optimize", "<=", "optimize"]
    H = G.HyperbolaFitness
    single = dict(sel=G.RankedSelection(), new=G.NewGeneration("best"))
    t = {
        "binary": lambda: ("binary", B2, dict(single, fit=H(obj_function=obj), cro=G.OnePointCrossover(), mut=G.BinStringMutation(0.3)), GR.f_mod),
        "gray": lambda: ("gray", B2, dict(single, fit=H(obj_function=obj, obj_value=2), cro=G.UniformCrossover(),
                                          mut=G.BinStringMutation("strong"), new=G.NewGeneration("random")), GR.f_mod),
        "cat": lambda: ("cat", (L, (0, 6, 2)), dict(single, fit=H(obj_function=obj, obj_value=0), cro=G.UniformCrossover(),
                                                    mut=G.CategoricalMutation("normal")), GR.f_mod),
        "order": lambda: ("order", (0, 5, 4), dict(single, fit=H(obj_function=obj), cro=G.OrderCrossover(), mut=G.SwapMutation(0.5)), GR.f_mod),
        "data": lambda: ("binary", B2, dict(single, fit=H(obj_function=obj, input_data=[0]), cro=G.TwoPointCrossover(),
                                            mut=G.BinStringMutation(0.3)), GR.f_mod),
        "dynamic": lambda: ("binary", B2, dict(single, fit=H(obj_function=obj, penalty=G.DynamicPenalty(), conditions=list(pc)),
                                               cro=G.OnePointCrossover(), mut=G.BinStringMutation(0.3)), GR.cond_obj(pc)),
        "adaptive": lambda: ("cat", (L, (0, 6, 2)), dict(single, fit=H(obj_function=obj, penalty=G.AdaptivePenalty(), conditions=list(pc)),
                                                         cro=G.OnePointCrossover(), mut=G.CategoricalMutation(0.3)), GR.cond_obj(pc)),
        "static": lambda: ("gray", B2, dict(single, fit=H(obj_function=obj, penalty=G.StaticPenalty(**GR.static_tables(pc)), obj_value=1,
                                                          conditions=list(pc)), cro=G.OnePointCrossover(), mut=G.BinStringMutation(0.3)),
                            GR.cond_obj(pc)),
        "vega": lambda: ("binary", B2, dict(fit=G.VEGAHyperbolaFitness(obj_function=obj), sel=G.VEGARankedSelection(2), cro=G.OnePointCrossover(),
                                            mut=G.BinStringMutation(0.3), new=G.NewGeneration("best")), GR.m_two),
        "vega-cond": lambda: ("gray", B2, dict(fit=G.VEGAHyperbolaFitness(obj_function=obj, penalty=G.DynamicPenalty(), conditions=list(mc),
                                                                          obj_value=[0, 1]), sel=G.VEGATournamentSelection(2, 2),
                                               cro=G.OnePointCrossover(), mut=G.BinStringMutation(0.3), new=G.NewGeneration("random")),
                              GR.cond_obj(mc)),
        "ffga": lambda: ("binary", B2, dict(fit=G.FFGAFitness(obj_function=obj), sel=G.BalancedSelection(), cro=G.OnePointCrossover(),
                                            mut=G.BinStringMutation(0.3), new=G.MultiNewGeneration("best")), GR.m_two),
        "ffga-cond": lambda: ("gray", B2, dict(fit=G.FFGAFitness(obj_function=obj, penalty=G.AdaptivePenalty(), conditions=list(mc)),
                                               sel=G.BalancedSelection(), cro=G.OnePointCrossover(), mut=G.BinStringMutation(0.3),
                                               new=G.MultiNewGeneration("best")), GR.cond_obj(mc)),
    }
    return t[name]()


NAMES = ["binary", "gray", "cat", "order", "data", "dynamic", "adaptive", "static", "vega", "vega-cond", "ffga", "ffga-cond"]


def hist(d):
    return repr((d.historical_best, d.historical_mediocre, d.historical_worst, d.best_solution, d.idx_generation, d.num_generation_no_improve))


def digest(d):
    return repr((essences(d.population), hist(d)))


KEYS = ("genotype", "phenotype", "score", "obj_score", "feasible")


def vals(ind):
    return {k: fast(ind.get(k)) for k in KEYS}


def drive(rec, name, n, g, at, exc, ref, label):
    """hand-written loop with retries; ref: per generation the individuals after evaluation in the fault-free run, or None"""
    multi = name.startswith(("vega", "ffga"))
    obj = Faulty(None, at, exc)
    kind, gens, ops, f = comps(name, obj)
    obj.f = f
    set_driver(Stream(17))
    d = (G.MultiGaData if multi else G.GaData)(num_generations=g, early_stop=99)
    d.population = new_pop(kind, n, gens)
    after = []
    for gen in range(g):
        if gen:
            for k in ("sel", "cro", "mut", "new"):
                ops[k].execute(d)
        tries = 0
        while True:
            before = [vals(i) for i in d.population]
            live = [id(i) for i in d.population]
            glive = [id(i["genotype"]) for i in d.population]
            pop, h = d.population, hist(d)
            nr = len(obj.raised)
            try:
                ops["fit"].execute(d)
            except BaseException as e:
                if isinstance(e, (Horizon, Hang, Enough, Diverged)):
                    raise
                if len(obj.raised) == nr:
                    rec.fail("%s: evaluation raised %r on its own" % (label, e))
                    return None
                if e is not obj.raised[-1]:
                    rec.fail("%s: %r reached the caller instead of the objective function's %r" % (label, e, obj.raised[-1]))
                    return None
                if not state_ok(rec, label, d, pop, before, live, h, kind, gens, ref[gen] if ref else None, name.startswith("ffga")):
                    return None
                tries += 1
                if tries > len(at):
                    rec.fail("%s: more faults than injected" % label)
                    return None
                continue
            if len(obj.raised) != nr:
                rec.fail("%s: a fault did not reach the caller" % label)
                return None
            break
        after.append([vals(i) for i in d.population])
        d.update()
    return d, obj, after


def state_ok(rec, label, d, pop, before, live, h, kind, gens, ref, ffga):
    if d.population is not pop or [id(i) for i in d.population] != live:
        rec.fail("%s: the population's members changed by the fault" % label)
        return False
    if hist(d) != h:
        rec.fail("%s: history or best solution changed by the fault" % label)
        return False
    for k, ind in enumerate(d.population):
        b, now = before[k], vals(ind)
        if now["genotype"] != b["genotype"]:
            rec.fail("%s: genotype of individual %d is %r after the fault, was %r" % (label, k, now["genotype"], b["genotype"]))
            return False
        if kind in ("binary", "gray"):
            want = decode(b["genotype"], gens, kind)
            if now["phenotype"] is None or len(now["phenotype"]) != len(want) or not all(
                    isinstance(x, (int, float)) and close(x, y) for x, y in zip(now["phenotype"], want)):
                rec.fail("%s: decoded values of individual %d are %r after the fault" % (label, k, now["phenotype"]))
                return False
        if b["score"] is not None:
            if not ffga and (now["score"], now["obj_score"], now["feasible"]) != (b["score"], b["obj_score"], b["feasible"]):
                rec.fail("%s: survivor %d changed by the fault" % (label, k), before=b, after=now)
                return False
        elif now["score"] is None:
            if now["obj_score"] != b["obj_score"]:
                rec.fail("%s: individual %d is half scored after the fault" % (label, k), ind=now)
                return False
        elif ref is not None and now != ref[k]:
            rec.fail("%s: individual %d scored before the fault is wrong" % (label, k), got=now, want=ref[k])
            return False
    return True


def faults(rec, name, n, g, excs, part=0, parts=1):
    """a fault at every call index of the run"""
    base = drive(rec, name, n, g, (), Boom, None, name + " without fault")
    if base is None:
        return
    d0, o0, ref = base
    want = digest(d0)
    for k in range(o0.calls)[part::parts]:
        for e in excs:
            label = "%s n=%d: %s at call %d" % (name, n, EXC[e].__name__, k)
            r = drive(rec, name, n, g, (k,), EXC[e], ref, label)
            if r is not None:
                finish(rec, name, label, r, want, o0.calls, 1)
            rec.done(1, g)
            rec.state((name, n, g, k, e))
    rec.sample("%s n=%d g=%d: a fault at each of %d calls" % (name, n, g, o0.calls))


def far(rec, name, n, g, part, parts):
    """large generations and late generations: a fault at calls spread over the whole run (first, last and every 2^k-th of each generation)"""
    base = drive(rec, name, n, g, (), Boom, None, name + " without fault")
    if base is None:
        return
    d0, o0, ref = base
    want = digest(d0)
    total = o0.calls
    at = sorted({k for k in range(total) if k < 4 or k >= total - 4} | set(range(0, total, max(1, total // 23))) | {2 ** k for k in range(20) if 2 ** k < total}
                | {2 ** k - 1 for k in range(20) if 2 ** k - 1 < total})
    for k in at[part::parts]:
        label = "%s n=%d g=%d: fault at call %d" % (name, n, g, k)
        r = drive(rec, name, n, g, (k,), Boom, ref, label)
        if r is not None:
            finish(rec, name, label, r, want, total, 1)
        rec.done(1, g)
        rec.state((name, n, g, k))
    if part == 0:
        for burst in (5, 20):
            for k in at[::6]:
                label = "%s n=%d g=%d: %d faults in a row from call %d" % (name, n, g, burst, k)
                r = drive(rec, name, n, g, tuple(range(k, k + burst)), Boom, ref, label)
                if r is not None:
                    finish(rec, name, label, r, want, total, len(r[1].raised))
                rec.done(1, g)
                rec.state((name, n, g, k, burst))


def finish(rec, name, label, r, want, calls, nf):
    d, o, _ = r
    if digest(d) != want:
        rec.fail("%s: the run completed after the fault differs from the fault-free run" % label)
    elif not name.startswith(("vega", "ffga")) and o.calls != calls + nf:
        rec.fail("%s: %d calls instead of %d: individuals with a score were evaluated again" % (label, o.calls, calls + nf))


def pairs(rec, name, n, g, count, part=0, parts=1):
    """faults at every set of `count` call indices"""
    base = drive(rec, name, n, g, (), Boom, None, name + " without fault")
    if base is None:
        return
    d0, o0, ref = base
    want = digest(d0)
    total = o0.calls + count - 1
    for at in list(itertools.combinations(range(total), count))[part::parts]:
        label = "%s n=%d: faults at calls %r" % (name, n, at)
        r = drive(rec, name, n, g, at, Boom, ref, label)
        if r is not None:
            finish(rec, name, label, r, want, o0.calls, len(r[1].raised))
        rec.done(1, g)
        rec.state((name, n, g, at))
    rec.sample("%s n=%d g=%d: all sets of %d faults" % (name, n, g, count))


MODES = {
    "BinaryGA": Cfg("binary", B2, GR.f_mod, n=4, g=4, early_stop=None), "BinaryGA-gray": Cfg("gray", B2, GR.f_mod, n=4, g=4, input_population=[[1, 0]]),
    "CategoricalGA": Cfg("cat", (L, (0, 6, 2)), GR.f_mod, n=4, g=4), "CombinatoryGA": Cfg("order", (0, 5, 4), GR.f_mod, n=4, g=4),
    "VEGA": Cfg("vega", B2, GR.m_two, n=4, g=3, tournament_size=2), "FFGA": Cfg("ffga", B2, GR.m_two, n=3, g=3),
    "BinaryGA-cond": Cfg("binary", B2, GR.cond_obj(["optimize", "<="]), n=4, g=4, conditions=["optimize", "<="], penalty=G.DynamicPenalty()),
    "Collector": Cfg("binary", B2, GR.f_mod, n=4, g=4, mode="collector", obj_value=1, ops={"selection": G.BalancedSelection}),
    "Collector-cat": Cfg("cat", (L, (0, 6, 2)), GR.f_mod, n=4, g=4, mode="collector", transfer_parents="random"),
}


def modes(rec, name, excs):
    """the exception surfaces from optimize(); the interrupted data are consistent; the object can be run again"""
    cfg = MODES[name]

    def run(fa):
        mon = Monitor(history=False)
        set_driver(Real())
        generator.rnd_seed = 6
        fa.calls = 0
        with mon:
            go = cfg.build(fa)
            err = None
            try:
                go()
            except BaseException as e:
                if isinstance(e, (Horizon, Hang, Enough, Diverged)):
                    raise
                err = e
        return mon, err, go
    o = Faulty(cfg.obj)
    mon, err, go = run(o)
    if err is not None:
        rec.fail("%s raised %r without a fault" % (name, err))
        return
    want = digest(mon.data)
    total = o.calls
    for k in range(total):
        for e in excs:
            label = "%s: %s at call %d" % (name, EXC[e].__name__, k)
            fa = Faulty(cfg.obj, (k,), EXC[e])
            mon, err, go = run(fa)
            if not fa.raised or err is not fa.raised[0]:
                rec.fail("%s: optimize() %s" % (label, "completed" if err is None else "raised %r" % err))
                continue
            if fa.calls != k + 1:
                rec.fail("%s: the objective function was called again after the fault" % label)
            if mon.events:
                ev = mon.events[-1]
                if ev.kind == "fitness":
                    for b, a in zip(ev.before.pop, ev.after.pop):
                        if a["genotype"] != b["genotype"] or (cfg.kind in ("binary", "gray") and not all(
                                isinstance(x, (int, float)) and close(x, y)
                                for x, y in zip(a["phenotype"] or ["-"], decode(b["genotype"], cfg.gens, cfg.kind)))):
                            rec.fail("%s: genotype or decoded values out of place after the fault" % label, before=b, after=a)
                            break
                    if len(ev.before.pop) != len(ev.after.pop):
                        rec.fail("%s: individuals lost" % label)
            # the same object again, without faults
            fa.at = set()
            set_driver(Real())
            generator.rnd_seed = 6
            mon2 = Monitor(snaps=False)
            with mon2:
                go()
            if digest(mon2.data) != want:
                rec.fail("%s: running the same object again does not give the fault-free result" % label)
            rec.done(1, 2)
            rec.state((name, k, e))
    rec.sample("%s: a fault at each of %d calls" % (name, total))


BOUNDS = {"quick": "a fault with each of 18 exception kinds at every call of 4-generation runs of 4 individuals (12 fitness/population combinations), "
                   "at every call of runs of 9 individuals x 6 generations, all pairs of faults of 4x4 (multi-objective 3x2) runs, all triples of 3x3 "
                   "runs; every call of 9 algorithm objects x 4 exception kinds, then rerun; about 35 call positions and bursts of 5 and 20 faults of runs of up to 130 individuals or 130 generations",
          "thorough": "all triples of 4x3 runs, all exception kinds everywhere, all pairs of larger runs"}
ASSUMPTIONS = ["deterministic objective function apart from the fault"]


def items(tier):
    t = tier == "thorough"
    out = []
    for k in NAMES:
        multi = k.startswith(("vega", "ffga"))
        parts = 4 if multi else 2
        for p in range(parts):
            out.append(("faults[%s,%d]" % (k, p), "faults", dict(name=k, n=3 if multi else 4, g=3 if multi else 4,
                                                                excs=list(range(len(EXC))), part=p, parts=parts)))
        out.append(("faults[%s,large]" % k, "faults", dict(name=k, n=4 if multi else 9, g=4 if multi else 6, excs=[0, 11])))
        for n, g in ((6, 12), (16, 2)) if multi else ((60, 3), (5, 130), (130, 2)):
            for p in range(2):
                out.append(("far[%s,%d,%d,%d]" % (k, n, g, p), "far", dict(name=k, n=n, g=g, part=p, parts=2)))
        n, g = (3, 2) if multi else (4, 4)
        if t:
            n, g = (3, 3) if multi else (6, 5)
        for p in range(4):
            out.append(("pairs[%s,%d]" % (k, p), "pairs", dict(name=k, n=n, g=g, count=2, part=p, parts=4)))
        if not multi or t:
            out.append(("triples[%s]" % k, "pairs", dict(name=k, n=4 if t and not multi else 3, g=2 if multi else 3, count=3)))
    for k in MODES:
        out.append(("modes[%s]" % k, "modes", dict(name=k, excs=list(range(len(EXC))) if t else [0, 2, 11, 14])))
    return out
