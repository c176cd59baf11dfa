"""C21: isolation.  All sequences of up to four runs over reusable algorithm objects, and all interleavings (bounded number of
switches; thorough: all) of the phases of two or three runs that share operator, fitness and penalty objects."""
from .core import *
from .util import *
from . import grid as GR

# ----------------------------------------------------------------------------------------------- inputs stay intact


def snapshot(x):
    if isinstance(x, dict):
        return ("dict", [(k, snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, set):
        return ("set", sorted(map(repr, x)))
    return (type(x).__name__, repr(x))


DATAS = [lambda: {"k": [1, [2]], "t": (3,)}, lambda: [3, 1, 2, 1], lambda: [[2, 1], [0]], lambda: ["b", "a", "b"], lambda: bytearray(b"xyz"),
         lambda: {3, 1, 2}, lambda: [None, 0.5, -1], lambda: ([1], [2]), lambda: collections.deque([2, 1, 3])]


def inputs(rec, part, parts, count):
    """nothing the user passes to a run is modified"""
    for nr, cfg in enumerate((GR.scale() if count == 0 else GR.wide(count))[part::parts]):
        gens = [list(g) if isinstance(g, (list, tuple)) else g for g in cfg.gens] if part % 2 and cfg.kind != "cat" else \
            copy.deepcopy(cfg.gens)
        opts = {k: v if k == "penalty" else copy.deepcopy(v) for k, v in cfg.opts.items()}
        opts["input_data"] = data = DATAS[(nr + part) % len(DATAS)]()
        given = {k: opts[k] for k in ("conditions", "input_population", "obj_value") if k in opts}
        given["gens"], given["input_data"] = gens, data
        before = snapshot(given)
        ids = {k: [id(x) for x in v] for k, v in given.items() if isinstance(v, list)}
        c = Cfg(cfg.algo, gens, cfg.obj, n=cfg.n, g=cfg.g, mode=cfg.mode, ops=cfg.ops, **opts)
        set_driver(Stream(GR.SEED + 5))
        d = c.build(lambda dt, x: cfg.obj(x))()
        if snapshot(given) != before or any([id(x) for x in given[k]] != v for k, v in ids.items()):
            rec.fail("a run modified what the user passed in", cfg=cfg, before=before, after=snapshot(given))
        # the result shares nothing mutable with the user's input
        live = {id(i["genotype"]) for i in d.population} | {id(i.get("phenotype")) for i in d.population if i.get("phenotype")}
        if live & {id(x) for x in given.get("input_population", [])}:
            rec.fail("the population holds the user's own list", cfg=cfg)
        rec.done(1, cfg.g)
        rec.state(repr(cfg))


# ------------------------------------------------------------------------------------------------------ reuse of objects
def digest(d):
    return repr((essences(d.population), essences(d.parents or []), essences(d.children or []), freeze(d.historical_best),
                 freeze(d.historical_mediocre), freeze(d.historical_worst), d.idx_generation, d.num_generation_no_improve,
                 freeze(d.best_solution)))


L = ["red", "green", "blue"]


def makers():
    """name -> function building a reusable object with a run() -> ga_data"""
    base = dict(num_generations=4, num_individ=5, is_print=False, early_stop=None)
    pen = ["<=", "optimize", "!="]
    m = {}
    m["binary"] = lambda: BinaryGA(gens=((0, 7, 1), (-1, 1, 0.1)), obj_function=GR.f_mod, **base).optimize
    m["binary-options"] = lambda: BinaryGA(gens=((0, 7, 1),), obj_function=GR.f_mod, obj_value=2, mutation_lvl="strong",
                                           input_population=[[1], [6]], tournament_size=2, transfer_parents="random",
                                           is_gray=True, num_generations=5, num_individ=4, is_print=False).optimize
    m["binary-adaptive"] = lambda: BinaryGA(gens=((0, 7, 1), (-1, 1, 0.1)), obj_function=GR.cond_obj(pen), conditions=list(pen),
                                            penalty=G.AdaptivePenalty(), **base).optimize
    m["binary-static"] = lambda: BinaryGA(gens=((0, 7, 1), (-1, 1, 0.1)), obj_function=GR.cond_obj(pen), conditions=list(pen),
                                          penalty=G.StaticPenalty(**GR.static_tables(pen)), obj_value=1, **base).optimize
    m["cat"] = lambda: CategoricalGA(gens=(L, (0, 6, 2)), obj_function=GR.f_mod, mutation_lvl="strong", **base).optimize
    m["order"] = lambda: CombinatoryGA(gens=(0, 5, 4), obj_function=GR.f_mod, mutation_lvl=0.5, **base).optimize
    m["vega"] = lambda: VEGA(gens=((0, 7, 1), (0, 3, 1)), obj_function=GR.m_two, **base).optimize
    m["vega-dynamic"] = lambda: VEGA(gens=((0, 7, 1), (0, 3, 1)), obj_function=GR.cond_obj(["optimize", "<=", "optimize"]),
                                     conditions=["optimize", "<=", "optimize"], penalty=G.DynamicPenalty(), **base).optimize
    m["ffga"] = lambda: FFGA(gens=((0, 7, 1), (0, 3, 1)), obj_function=GR.m_two, **base).optimize

    stop = dict(num_generations=9, num_individ=4, is_print=False, early_stop=1)
    m["binary-stop"] = lambda: BinaryGA(gens=((0, 1, 1),), obj_function=GR.f_mod, **stop).optimize
    m["cat-stop"] = lambda: CategoricalGA(gens=(["a", "b"],), obj_function=GR.f_mod, **stop).optimize
    m["order-stop"] = lambda: CombinatoryGA(gens=(0, 1, 2), obj_function=GR.f_mod, **stop).optimize
    m["vega-stop"] = lambda: VEGA(gens=((0, 1, 1),), obj_function=GR.m_two, children_percent=0.5, **stop).optimize
    m["ffga-stop"] = lambda: FFGA(gens=((0, 1, 1),), obj_function=GR.m_two, children_percent=0.0, **stop).optimize

    def coll(kind, gens, sel, cro, mut, new, fit, multi, **kw):
        def make():
            col = CollectorGA(fitness=fit(), selection=sel(), crossover=cro(), mutation=mut(), new_generation=new(),
                              storage=G.MultiGaData if multi else G.GaData)

            def run():
                col.set_population(population=POP[kind], num_individ=5, num_generations=4, gens=gens, **kw)
                col.optimize()
                return col.ga_data
            return run
        return make
    m["collector"] = coll("binary", ((0, 7, 1),) * 2, lambda: G.BalancedSelection(), lambda: G.TwoPointCrossover(),
                          lambda: G.BinStringMutation("normal"), lambda: G.NewGeneration("best"),
                          lambda: G.HyperbolaFitness(obj_function=GR.f_mod, obj_value=0), False, early_stop=9)
    m["collector-order"] = coll("order", (0, 6, 5), lambda: G.RankedSelection(), lambda: G.OrderCrossover(),
                                lambda: G.ShiftMutation("strong"), lambda: G.NewGeneration("random"),
                                lambda: G.HyperbolaFitness(obj_function=GR.f_mod), False, children_percent=0.6)
    m["collector-vega"] = coll("gray", ((0, 7, 1),) * 2, lambda: G.VEGARankedSelection(2), lambda: G.UniformCrossover(),
                               lambda: G.BinStringMutation(0.2), lambda: G.NewGeneration("best"),
                               lambda: G.VEGAHyperbolaFitness(obj_function=GR.m_two), True)
    return m


NAMES = sorted(makers())


def fresh(name, seed):
    set_driver(Real())
    generator.rnd_seed = seed
    return digest(makers()[name]()())


def sequences(rec, names, depth):
    """every sequence of runs over one persistent object per name: each run equals that of a fresh object"""
    seeds = (3, 8)
    ref = {(n, s): fresh(n, s) for n in names for s in seeds}
    for k in range(1, depth + 1):
        for seq in itertools.product(itertools.product(names, seeds), repeat=k):
            objs = {n: makers()[n]() for n in names}
            set_driver(Real())
            kept = []
            for n, s in seq:
                generator.rnd_seed = s
                d = objs[n]()
                if digest(d) != ref[n, s]:
                    rec.fail("%s with seed %d in sequence %r differs from a fresh object's run" % (n, s, seq))
                    break
                kept.append((n, s, d))
            else:
                for n, s, d in kept:
                    if digest(d) != ref[n, s]:
                        rec.fail("the result of %s (seed %d) was changed by later runs of %r" % (n, s, seq))
            rec.done(1, k)
            rec.state(seq)
    rec.sample("all sequences of up to %d runs of %r with seeds %r" % (depth, names, seeds))


class Trip(Exception):
    pass


def failed(rec, name):
    """a run ended by the objective function, at any of its calls (beyond the 60th: at 40 spread ones), leaves nothing behind in
    the object, in another object of the same class or in the module"""
    count, at = [0], [None]

    def wrap(f):
        def g(*args):
            count[0] += 1
            if count[0] == at[0]:
                raise Trip()
            return f(*args)
        return g
    ref = fresh(name, 5)
    keep = GR.f_mod, GR.m_two, GR.cond_obj
    GR.f_mod, GR.m_two, GR.cond_obj = wrap(keep[0]), wrap(keep[1]), lambda c: wrap(keep[2](c))
    try:
        set_driver(Real())
        generator.rnd_seed = 5
        makers()[name]()()
        total = count[0]
        calls = sorted(set(range(1, min(total, 60) + 1)) | set(range(60, total, max(1, total // 40))) | {total})
        for k in calls:
            run, other = makers()[name](), makers()[name]()
            set_driver(Real())
            for what, r, seed, stop in (("failing", run, 5, k), ("failing", run, 11, max(1, k // 2)), ("same object", run, 5, None),
                                        ("other object", other, 5, None), ("same object", run, 5, None)):
                generator.rnd_seed = seed
                count[0], at[0] = 0, stop
                try:
                    d = r()
                except Trip:
                    if stop is None:
                        raise RuntimeError("fault where none was injected")
                    continue
                if stop is None and digest(d) != ref:
                    rec.fail("%s: after runs in which the objective function raised at call %d and %d, a run of the %s differs from a fresh "
                             "one" % (name, k, max(1, k // 2), what))
                    break
            rec.done(1, 5)
            rec.state(("failed", name, k))
    finally:
        GR.f_mod, GR.m_two, GR.cond_obj = keep
    rec.sample("%s: faults at %d of %d calls" % (name, len(calls), total))


# --------------------------------------------------------------------------------- shared operators, alternating phases
def f_shared(x):
    return GR.f_mod(x)


class Run:
    """one run as a list of phases; its random numbers come from its own stream, so phases of other runs cannot shift them"""

    def __init__(self, kind, gens, n, g, ops, seed, multi=False, cp=0.95, inp=None):
        self.ops, self.kind = ops, kind
        self.stream = Stream(seed)
        self.d = (G.MultiGaData if multi else G.GaData)(num_generations=g, children_percent=cp, early_stop=99)

        def start():
            p = POP[kind]()
            p.set_params(num_individ=n, gens=gens, input_population=inp)
            p.fill()
            self.d.population = p
        self.phases = [start] + [self.op("fit"), self.d.update] + [
            f for _ in range(g - 1) for f in (self.op("sel"), self.op("cro"), self.op("mut"), self.op("new"), self.op("fit"),
                                              self.d.update)]
        self.pos = 0

    def op(self, k):
        return lambda: self.ops[k].execute(self.d)

    def step(self):
        set_driver(self.stream)
        self.phases[self.pos]()
        self.pos += 1

    def digest(self):
        return digest(self.d)


def pairs():
    """name -> function returning the constructors of the runs; ops objects are shared as stated"""
    out = {}

    def single(sel, cro, mut, new, fit):
        return dict(sel=sel, cro=cro, mut=mut, new=new, fit=fit)

    def shared_all(sel, cro, mut, new, fit, specs, multi=False):
        def make():
            ops = single(sel(), cro(), mut(), new(), fit())
            return [Run(*sp[:4], ops, sp[4], multi=multi, **(sp[5] if len(sp) > 5 else {})) for sp in specs]
        return make

    def own(specs, multi=False):
        """each run has its own objects of the same classes, all created before any runs"""
        def make():
            made = [single(*[f() for f in fs]) for fs, _ in specs]
            return [Run(*sp[:4], o, sp[4], multi=multi, **(sp[5] if len(sp) > 5 else {})) for o, (_, sp) in zip(made, specs)]
        return make
    B1, B2 = ((0, 7, 1),), ((0, 15, 1), (-1, 1, 0.1), (0, 3, 1))
    C1, C2 = (L, (0, 6, 2)), (["x", "y"], ["p", "q", "r"], (0, 9, 3), (1, 2, 1))
    hyp = lambda: G.HyperbolaFitness(obj_function=f_shared, obj_value=1)
    mini = lambda: G.HyperbolaFitness(obj_function=f_shared)
    pc = ["<=", "optimize"]
    ada = lambda: G.HyperbolaFitness(obj_function=GR.cond_obj(pc), penalty=G.AdaptivePenalty(), conditions=list(pc))
    dyn = lambda: G.HyperbolaFitness(obj_function=GR.cond_obj(pc), penalty=G.DynamicPenalty(), conditions=list(pc), obj_value=0)
    for lvl in ("normal", "strong", 0.4):
        out["binary-%s" % lvl] = shared_all(lambda: G.TournamentSelection(2), G.OnePointCrossover, lambda lvl=lvl: G.BinStringMutation(lvl),
                                            lambda: G.NewGeneration("best"), mini,
                                            [("binary", B1, 4, 3, 11), ("binary", B2, 6, 3, 12)])
        out["cat-%s" % lvl] = shared_all(lambda: G.TournamentSelection(3), G.UniformCrossover, lambda lvl=lvl: G.CategoricalMutation(lvl),
                                         lambda: G.NewGeneration("random"), mini,
                                         [("cat", C1, 5, 3, 11), ("cat", C2, 4, 3, 12)])
    out["binary-gray"] = shared_all(G.BalancedSelection, G.TwoPointCrossover, lambda: G.BinStringMutation("weak"),
                                    lambda: G.NewGeneration("best"), hyp,
                                    [("binary", B2, 4, 3, 1), ("gray", B2, 5, 3, 2, dict(inp=[[1, 0.5, 2]], cp=0.5))])
    for mut in (G.SwapMutation, G.MovementMutation, G.InversionMutation, G.ShiftMutation):
        out["order-%s" % mut.__name__] = shared_all(G.RankedSelection, G.OrderCrossover, lambda mut=mut: mut("strong"),
                                                    lambda: G.NewGeneration("best"), mini,
                                                    [("order", (0, 4, 5), 4, 3, 5), ("order", (0, 9, 3), 5, 3, 6)])
        for lvl in (1.0, 0.95, 0.2):
            out["order-%s-%s" % (mut.__name__, lvl)] = shared_all(
                lambda: G.TournamentSelection(2), G.OrderCrossover, lambda mut=mut, lvl=lvl: mut(lvl), lambda: G.NewGeneration("best"), mini,
                [("order", (0, 9, 4), 5, 3, 5), ("order", (0, 4, 5), 4, 3, 6)])
    for lvl in (1.0, 0.02, "weak"):
        out["binary-%s" % lvl] = shared_all(lambda: G.RankedSelection(), G.UniformCrossover, lambda lvl=lvl: G.BinStringMutation(lvl),
                                            lambda: G.NewGeneration("random"), hyp,
                                            [("gray", B2, 6, 3, 11), ("binary", B1, 4, 3, 12)])
        out["cat-%s" % lvl] = shared_all(lambda: G.RankedSelection(), G.TwoPointCrossover, lambda lvl=lvl: G.CategoricalMutation(lvl),
                                         lambda: G.NewGeneration("best"), hyp,
                                         [("cat", C2, 4, 3, 11), ("cat", C1, 5, 3, 12)])
    S8, S12 = ((0, 1, 1),) * 3, ((0, 255, 1),) * 2
    for cro in (G.OnePointCrossover, G.TwoPointCrossover, G.UniformCrossover):
        for k, (a, b) in enumerate(((S8, S12), (S12, S8))):
            out["lengths-%s-%d" % (cro.__name__, k)] = shared_all(lambda: G.TournamentSelection(2), cro, lambda: G.BinStringMutation("normal"),
                                                                  lambda: G.NewGeneration("best"), mini,
                                                                  [("binary", a, 4, 3, 11), ("gray", b, 6, 3, 12)])
        out["lengths-cat-%s" % cro.__name__] = shared_all(lambda: G.RankedSelection(), cro, lambda: G.CategoricalMutation("normal"),
                                                          lambda: G.NewGeneration("best"), mini,
                                                          [("cat", C1, 4, 3, 11), ("cat", C2 * 3, 6, 3, 12)])
    for mut in (G.SwapMutation, G.MovementMutation, G.InversionMutation, G.ShiftMutation):
        out["lengths-%s" % mut.__name__] = shared_all(G.RankedSelection, G.OrderCrossover, lambda mut=mut: mut("strong"),
                                                      lambda: G.NewGeneration("best"), mini,
                                                      [("order", (0, 4, 3), 4, 3, 5), ("order", (0, 9, 9), 5, 3, 6)])

    def mixed():
        ops = single(G.TournamentSelection(2), G.UniformCrossover(), None, G.NewGeneration("best"), mini())
        return [Run(*sp[:4], dict(ops, mut=m), sp[4]) for sp, m in [
            (("binary", B1, 4, 3, 7), G.BinStringMutation(0.2)), (("cat", C2, 5, 3, 8), G.CategoricalMutation("normal"))]]
    out["mixed-kinds"] = mixed
    out["adaptive"] = shared_all(lambda: G.TournamentSelection(2), G.OnePointCrossover, lambda: G.BinStringMutation(0.3),
                                 lambda: G.NewGeneration("best"), ada, [("binary", B2, 4, 3, 3), ("binary", B1, 5, 3, 4)])
    out["dynamic"] = shared_all(lambda: G.RankedSelection(), G.OnePointCrossover, lambda: G.BinStringMutation(0.3),
                                lambda: G.NewGeneration("random"), dyn, [("binary", B2, 4, 3, 3), ("gray", B1, 5, 3, 4)])
    for sel in (lambda: G.VEGATournamentSelection(2, 2), lambda: G.VEGARankedSelection(2), lambda: G.VEGABalancedSelection(2)):
        out["vega-%s" % type(sel()).__name__] = shared_all(
            sel, G.OnePointCrossover, lambda: G.BinStringMutation("normal"), lambda: G.NewGeneration("best"),
            lambda: G.VEGAHyperbolaFitness(obj_function=GR.m_two, obj_value=[0, 0]),
            [("binary", B1, 4, 3, 3), ("gray", B2, 5, 3, 4)], multi=True)
    out["ffga"] = shared_all(G.BalancedSelection, G.OnePointCrossover, lambda: G.BinStringMutation("normal"),
                             lambda: G.MultiNewGeneration("best"), lambda: G.FFGAFitness(obj_function=GR.m_two),
                             [("binary", B2, 4, 3, 3), ("binary", B1, 5, 3, 4)], multi=True)
    pen = G.AdaptivePenalty
    sa, sb = ["<=", "optimize"], ["optimize", "!=", "<="]
    out["own-objects"] = own([
        ((lambda: G.TournamentSelection(2), G.OnePointCrossover, lambda: G.BinStringMutation("weak"), lambda: G.NewGeneration("best"),
          lambda: G.HyperbolaFitness(obj_function=GR.cond_obj(sa), penalty=pen(2, 1.5, 3, 1), conditions=list(sa))), ("binary", B1, 4, 3, 3)),
        ((lambda: G.TournamentSelection(4), G.UniformCrossover, lambda: G.BinStringMutation("strong"), lambda: G.NewGeneration("random"),
          lambda: G.HyperbolaFitness(obj_function=GR.cond_obj(sb), penalty=pen(), conditions=list(sb), obj_value=2)), ("gray", B2, 6, 3, 4))])
    out["own-static"] = own([
        ((lambda: G.RankedSelection(), G.OnePointCrossover, lambda: G.CategoricalMutation(0.5), lambda: G.NewGeneration("best"),
          lambda: G.HyperbolaFitness(obj_function=GR.cond_obj(sa), penalty=G.StaticPenalty(**GR.static_tables(sa)), conditions=list(sa))),
         ("cat", C1, 4, 3, 3)),
        ((lambda: G.RankedSelection(), G.UniformCrossover, lambda: G.CategoricalMutation("weak"), lambda: G.NewGeneration("random"),
          lambda: G.HyperbolaFitness(obj_function=GR.cond_obj(sb), penalty=G.StaticPenalty(**GR.static_tables(sb)), conditions=list(sb))),
         ("cat", C2, 5, 3, 4))])
    out["own-multi"] = own([
        ((lambda: G.VEGATournamentSelection(2, 3), G.OnePointCrossover, lambda: G.BinStringMutation(0.3), lambda: G.NewGeneration("best"),
          lambda: G.VEGAHyperbolaFitness(obj_function=GR.m_two)), ("binary", B1, 4, 3, 3)),
        ((lambda: G.VEGATournamentSelection(3, 2), G.UniformCrossover, lambda: G.BinStringMutation("weak"), lambda: G.NewGeneration("random"),
          lambda: G.VEGAHyperbolaFitness(obj_function=GR.cond_obj(["optimize", "<=", "optimize", "optimize"]), penalty=G.DynamicPenalty(),
                                         conditions=["optimize", "<=", "optimize", "optimize"])), ("binary", B2, 5, 3, 4))], multi=True)
    out["three"] = shared_all(lambda: G.TournamentSelection(2), G.OnePointCrossover, lambda: G.BinStringMutation("normal"),
                              lambda: G.NewGeneration("best"), mini,
                              [("binary", B1, 4, 2, 11), ("binary", B2, 5, 2, 12), ("gray", B1, 6, 2, 13)])
    return out


def schedules(lengths, switches):
    """all interleavings of len(lengths) phase lists with at most `switches` switches between runs"""
    n = len(lengths)

    def go(left, cur, used, path):
        if not any(left):
            yield tuple(path)
            return
        for k in range(n):
            if not left[k]:
                continue
            cost = 0 if cur is None or k == cur or not left[cur] else 1
            if used + cost > switches:
                continue
            left[k] -= 1
            path.append(k)
            yield from go(left, k, used + cost, path)
            path.pop()
            left[k] += 1
    yield from go(list(lengths), None, 0, [])


def interleave(rec, name, switches, part=0, parts=1):
    make = pairs()[name]
    ref = []
    for i in range(len(make())):
        r = make()[i]
        ref.append([])
        while r.pos < len(r.phases):
            r.step()
            ref[-1].append(r.digest() if r.d.population is not None and r.pos > 1 else None)
    lens = [len(r.phases) for r in make()]
    count = 0
    for k, sch in enumerate(schedules(lens, switches)):
        if k % parts != part:
            continue
        runs = make()
        ok = True
        for j, i in enumerate(sch):
            r = runs[i]
            try:
                r.step()
            except Exception as e:
                rec.fail("%s: run %d raised %r when alternating with another run" % (name, i, e), schedule=sch[:j + 1])
                ok = False
                break
            last = j + 1 == len(sch) or sch[j + 1] != i
            if last and r.pos > 1 and r.digest() != ref[i][r.pos - 1]:
                rec.fail("%s: run %d differs from the same run alone after phase %d" % (name, i, r.pos), schedule=sch[:j + 1])
                ok = False
                break
        if ok:
            for i, r in enumerate(runs):
                if r.digest() != ref[i][-1]:
                    rec.fail("%s: run %d's final data differ from the same run alone" % (name, i), schedule=sch)
        count += 1
        rec.done(1, len(sch))
        rec.state((name, sch))
    rec.sample("%s: %d schedules of %r phases with at most %d switches" % (name, count, lens, switches))


def before_run(rec, name):
    """constructing other objects or abandoning a run half-way does not influence a run"""
    make = pairs()[name]
    solo = []
    for i in range(len(make())):
        r = make()[i]
        while r.pos < len(r.phases):
            r.step()
        solo.append(r.digest())
    lens = [len(r.phases) for r in make()]
    for i in range(len(lens)):
        for j in range(len(lens)):
            for stop in range(lens[j] + 1):
                runs = make()
                other = runs[j] if j != i else None
                if other is None:
                    # the same run, abandoned after `stop` phases, then started again with fresh data but the same operators
                    first = runs[i]
                    for _ in range(stop):
                        first.step()
                    again = make()[i]
                    again.ops.update(first.ops)
                    target = again
                else:
                    for _ in range(stop):
                        other.step()
                    target = runs[i]
                while target.pos < len(target.phases):
                    target.step()
                if target.digest() != solo[i]:
                    rec.fail("%s: run %d differs after run %d was abandoned after %d phases" % (name, i, j, stop))
                rec.done(1, stop + lens[i])
                rec.state((name, i, j, stop))


BOUNDS = {"quick": "inputs of about 230 configurations; all sequences of up to 3 runs (x 2 seeds) over 10 groups of reusable objects; all "
                   "interleavings with at most 3 switches of the 15 phases of two runs sharing objects, 23 groups; three runs with 2 switches; "
                   "abandonment after every phase; runs ended by the objective function at every call (up to the 60th)",
          "thorough": "4 runs, at most 4-5 switches (three runs: 3)"}
ASSUMPTIONS = ["runs alternate between operator calls (no threads: the library is single-threaded)"]


def circuit(names, start):
    """a sequence of names in which every ordered pair (including twice the same) is adjacent (Hierholzer)"""
    left = {n: list(names[::-1]) for n in names}
    stack, out = [start], []
    while stack:
        v = stack[-1]
        if left[v]:
            stack.append(left[v].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def interpreter(seed, names):
    p = subprocess.run([sys.executable, os.path.join(HERE, "mc", "alone.py"), str(seed)] + names, capture_output=True, text=True,
                       timeout=150)
    if p.returncode:
        raise RuntimeError(p.stderr[-500:])
    return p.stdout.split("\n")[:-1]


def processes(rec, part, parts, seed):
    """runs of other configurations earlier in the interpreter have no influence: in one interpreter, a sequence of runs in
    which every ordered pair of configurations is adjacent; each equals the run of an interpreter that runs nothing else"""
    from . import alone
    names = list(alone.family())
    ref = {n: interpreter(seed, [n])[0] for n in names}
    for n, r in ref.items():
        if r.startswith("raised"):
            rec.fail("run %s with seed %d %s" % (n, seed, r))
            return
    for start in names[part::parts]:
        seq = circuit(names, start)
        for i, (n, got) in enumerate(zip(seq, interpreter(seed, seq))):
            if got != ref[n]:
                rec.fail("run %s with seed %d after runs %r differs from the same run in a new interpreter" % (n, seed, seq[max(0, i - 3):i]),
                         runs_before=i)
                return
        rec.done(1, len(seq))
        rec.state((seed, start))
    rec.sample("%d runs in one interpreter, all ordered pairs of %d configurations" % (len(seq), len(names)))


def items(tier):
    t = tier == "thorough"
    out = [("inputs[%d/8]" % p, "inputs", dict(part=p, parts=8, count=2)) for p in range(8)]
    out += [("inputs-scale[%d/8]" % p, "inputs", dict(part=p, parts=8, count=0)) for p in range(8)]
    groups = [["binary", "binary-options"], ["binary-adaptive", "binary-static"], ["cat", "order"], ["vega", "vega-dynamic"],
              ["ffga", "collector"], ["collector-order", "collector-vega"], ["binary-options", "ffga", "cat"],
              ["collector", "collector-order", "binary-adaptive"], ["binary-stop", "cat-stop"], ["order-stop", "vega-stop", "ffga-stop"]]
    for g in groups:
        out.append(("sequences%s" % g, "sequences", dict(names=g, depth=4 if t and len(g) == 2 else 3)))
    out += [("failed[%s]" % n, "failed", dict(name=n)) for n in NAMES]
    for k in pairs():
        parts = 8 if t else 1
        sw = 2 if k == "three" or k.startswith("lengths") else 3
        if t:
            sw = 3 if k == "three" else 4 if k.startswith(("vega", "ffga")) else 5
        for p in range(parts):
            out.append(("interleave[%s,%d,%d]" % (k, sw, p), "interleave", dict(name=k, switches=sw, part=p, parts=parts)))
        out.append(("abandon[%s]" % k, "before_run", dict(name=k)))
    for p in range(7):
        out.append(("processes[%d]" % p, "processes", dict(part=p, parts=7 if t else 21, seed=p + 1)))
    return out
