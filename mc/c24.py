"""C24: every valid configuration runs to completion.  All random outcomes of minimal runs up to a number of branching draws, each
continued on a fair stream; products of boundary option values; all operator combinations; every reachable generation is
selectable."""
from .core import *
from .util import *
from . import grid as GR

B1 = ((0, 1, 1),)
B2 = ((0, 3, 1),)
BB = ((0, 1, 1), (0, 1, 1))
L = ["red", "green", "blue"]


class DfsFair(Dfs):
    """all alternatives of a draw as long as fewer than `volume` combinations of alternatives precede it, a fair stream afterwards"""

    def __init__(self, prefix, units, big, cap, volume, limit=20000):
        super().__init__(prefix, units, big, cap, 10 ** 9)
        self.room = Fraction(1, volume)
        self.g = OrigRandom(len(prefix))
        self.limit = limit
        self.fair = False

    def _tick(self):
        if self.draws > self.limit:
            raise Horizon()

    def below(self, n):
        self._tick()
        if n > 1 and self.weight <= self.room:
            self.draws += 1
            self.fair = True
            return self.g._randbelow(n)
        return super().below(n)

    def unit(self):
        self._tick()
        if self.weight <= self.room:
            self.draws += 1
            self.fair = True
            return self.g.random()
        return super().unit()


def all_outcomes(fn, units, volume, big=ends, cap=64):
    trace = []
    while True:
        drv = DfsFair(trace, units, big, cap, volume)
        set_driver(drv)
        exc = res = None
        try:
            res = fn()
        except Exception as e:
            exc = e
        except Horizon:
            exc = "endless"
        trace = drv.trace
        yield res, exc, [c for c, _ in trace], drv
        while trace and trace[-1][0] + 1 >= trace[-1][1]:
            trace.pop()
        if not trace:
            return
        trace[-1][0] += 1


def selectable(d):
    """is there a pair of different individuals to pick"""
    return len(d.population) >= 2


def outcome(rec, label, exc, trace=None, cfg=None):
    if exc == "endless":
        rec.fail("%s: the run does not come to an end on a fair continuation" % label, trace=trace, cfg=cfg)
    elif exc is not None:
        rec.fail("%s: raised %s: %s" % (label, type(exc).__name__, exc), trace=trace, cfg=cfg)


# ----------------------------------------------------------------------------------------- all random outcomes
def minimal(name):
    """smallest runs of every algorithm and operator"""
    S, V = G.RankedSelection, G.VEGARankedSelection
    col = dict(mode="collector")
    m = {}
    for kind in ("binary", "gray"):
        for cro in GR.CROSS:
            for gn, gens in (("b1", B1), ("b2", B2), ("bb", BB)):
                m["%s-%s-%s" % (kind, cro.__name__[:3], gn)] = lambda kind=kind, cro=cro, gens=gens: Cfg(
                    kind, gens, GR.f_mod, n=2, g=2, children_percent=0.5, ops={"selection": S, "crossover": cro}, **col)
    for cro in GR.CROSS:
        for gn, gens in (("1", (L,)), ("2", (["a", "b"], (0, 2, 2))), ("one", (["a"], (5, 5, 1))), ("wide", ((0, 2, 5), ["a", "b"])), ("part", ((1, 6, 4), (-3, -2, 9)))):
            m["cat-%s-%s" % (cro.__name__[:3], gn)] = lambda cro=cro, gens=gens: Cfg(
                "cat", gens, GR.f_mod, n=2, g=2, children_percent=0.5, ops={"selection": S, "crossover": cro}, **col)
    for mut in GR.CMUT:
        for gn, gens in (("2", (0, 1, 2)), ("2of3", (0, 2, 2)), ("3", (0, 2, 3)), ("4", (0, 3, 4))):
            m["order-%s-%s" % (mut.__name__[:3], gn)] = lambda mut=mut, gens=gens: Cfg(
                "order", gens, GR.f_mod, n=2, g=2, children_percent=0.5, mutation_lvl=0.5, ops={"selection": S, "mutation": mut}, **col)
    for sel in GR.SELECT:
        m["select-%s" % sel.__name__[:3]] = lambda sel=sel: Cfg("binary", B2, GR.f_mod, n=3, g=3, children_percent=0.4, obj_value=1, mutation_lvl=0.0,
                                                                ops={"selection": sel}, **col)
        m["two-%s" % sel.__name__[:3]] = lambda sel=sel: Cfg("binary", B1, GR.f_const, n=3 if sel is G.TournamentSelection else 2, g=4, obj_value=1,
                                                             children_percent=0.5, mutation_lvl=0.0, ops={"selection": sel}, **col)
    for tr in ("best", "random"):
        for cp in (0.0, 0.4, 0.95, 1.0):
            m["transfer-%s-%g" % (tr, cp)] = lambda tr=tr, cp=cp: Cfg("binary", B1, GR.f_const, n=3, g=3, children_percent=cp, mutation_lvl=0.0,
                                                                      transfer_parents=tr, **col)
            m["ctransfer-%s-%g" % (tr, cp)] = lambda tr=tr, cp=cp: Cfg("cat", (["a", "b"],), GR.f_mod, n=3, g=3, children_percent=cp, mutation_lvl=0.0,
                                                                       transfer_parents=tr, **col)
    for tr in ("best", "random"):
        for obj in (GR.m_same, GR.m_tie, GR.m_conflict):
            for cp in (0.5, 1.0):
                m["ffga-%s-%s-%g" % (tr, obj.__name__, cp)] = lambda tr=tr, obj=obj, cp=cp: Cfg("ffga", B1, obj, n=2, g=3, transfer_parents=tr,
                                                                                               children_percent=cp, mutation_lvl=0.0)
                m["vega-%s-%s-%g" % (tr, obj.__name__, cp)] = lambda tr=tr, obj=obj, cp=cp: Cfg(
                    "vega", B1, obj, n=3, g=2, transfer_parents=tr, children_percent=cp, mutation_lvl=0.0, tournament_size=2)
    for a, gens in (("binary", B1), ("gray", B2), ("cat", (L,)), ("order", (0, 1, 2))):
        m["facade-%s" % a] = lambda a=a, gens=gens: Cfg(a, gens, GR.f_mod, n=3, g=2, tournament_size=2, children_percent=0.4)
    if name is None:
        return sorted(m)
    return m[name]()


def outcomes(rec, name, volume):
    cfg = minimal(name)
    gens = set()

    def run():
        mon = Monitor(snaps=False, history=False)

        def hook(when, ev, d):
            if when == "before" and ev.kind == "selection":
                gens.add(repr([(i["genotype"], i["score"]) for i in d.population]))
                if not selectable(d) and int(d.children_percent * d.population.num_individ) > 0:
                    rec.fail("%s: a generation of %d individuals, no pair can be selected" % (name, len(d.population)), cfg=cfg)
        mon.hook = hook
        with mon:
            return cfg.build(cfg.obj)()
    k = 0
    for res, exc, trace, drv in all_outcomes(run, (0.0, 0.37, 0.71, HIGH) if "Bal" not in name else (0.0, 0.3, 0.6, 0.85, HIGH), volume):
        outcome(rec, name, exc, trace, cfg)
        rec.done(1, len(trace))
        rec.notes["prefixes continued on a fair stream" if drv.fair else "executions complete"] += 1
        k += 1
    rec.states.update(hash(g) for g in gens)
    rec.sample("%s: %d executions, %d different generations" % (name, k, len(gens)))


# ------------------------------------------------------------------------------------------ reachable generations
def reach_cfgs():
    m = {}
    K = (0, 1, 2)

    def ops(sel, cro, mut, new):
        return dict(sel=sel, cro=cro, mut=mut, new=new)
    for tr in ("best", "random"):
        for sn, sel in (("Tou", lambda: G.TournamentSelection(2)), ("Ran", G.RankedSelection), ("Bal", G.BalancedSelection)):
            m["b2-%s-%s" % (sn, tr)] = ("binary", B2, 3, 0.4, GR.f_mod, ops(sel(), G.OnePointCrossover(), G.BinStringMutation(0.5), G.NewGeneration(tr)))
            m["b1-%s-%s" % (sn, tr)] = ("gray", B1, 3, 0.7, GR.f_const, ops(sel(), G.UniformCrossover(), G.BinStringMutation(0.0), G.NewGeneration(tr)))
            m["c2-%s-%s" % (sn, tr)] = ("cat", (["a", "b"],), 3, 0.95, GR.f_mod, ops(sel(), G.TwoPointCrossover(), G.CategoricalMutation(0.0), G.NewGeneration(tr)))
            m["o2-%s-%s" % (sn, tr)] = ("order", (0, 1, 2), 3, 0.4, GR.f_mod, ops(sel(), G.OrderCrossover(), G.SwapMutation(0.5), G.NewGeneration(tr)))
        m["o3-%s" % tr] = ("order", (0, 2, 3), 2, 0.5, GR.f_mod, ops(G.RankedSelection(), G.OrderCrossover(), G.ShiftMutation(0.5), G.NewGeneration(tr)))
        m["f1-%s" % tr] = ("ffga", B1, 2, 0.5, GR.m_conflict, ops(G.BalancedSelection(), G.OnePointCrossover(), G.BinStringMutation(0.5), G.MultiNewGeneration(tr)))
        m["f2-%s" % tr] = ("ffga", BB, 2, 0.5, GR.m_tie, ops(G.BalancedSelection(), G.UniformCrossover(), G.BinStringMutation(0.0), G.MultiNewGeneration(tr)))
        m["v1-%s" % tr] = ("vega", B1, 3, 0.7, GR.m_conflict, ops(G.VEGATournamentSelection(2, 2), G.OnePointCrossover(), G.BinStringMutation(0.5), G.NewGeneration(tr)))
        m["v2-%s" % tr] = ("vega", BB, 3, 0.7, GR.m_two, ops(G.VEGARankedSelection(2), G.UniformCrossover(), G.BinStringMutation(0.0), G.NewGeneration(tr)))
    return m


def reach(rec, name, volume, depth, cap):
    """breadth-first over all generations reachable from every initial population (all random outcomes of every step, up to the volume)"""
    algo, gens, n, cp, obj, ops = reach_cfgs()[name]
    kind = POPKIND[algo]
    multi = algo in ("vega", "ffga")
    fit = {"vega": G.VEGAHyperbolaFitness, "ffga": G.FFGAFitness}.get(algo, G.HyperbolaFitness)
    fit = fit(obj_function=obj) if algo == "ffga" else fit(obj_function=obj, obj_value=[1, 1] if multi else 1)

    def first():
        d = (G.MultiGaData if multi else G.GaData)(num_generations=99, children_percent=cp, early_stop=99)
        d.population = new_pop(kind, n, gens)
        fit.execute(d)
        d.update()
        return d

    def key(d):
        return repr([(i["genotype"], i["score"], i.get("rank")) for i in d.population]), d.population.is_sorted
    seen, front = {}, []
    for d, exc, trace, drv in all_outcomes(first, (0.0, 0.5, HIGH), 10 ** 6):
        outcome(rec, name + " first generation", exc, trace)
        if d is not None and key(d) not in seen:
            seen[key(d)] = 0
            front.append(d)
        rec.done(1, 1)
    closed = False
    for level in range(1, depth + 1):
        nxt = []
        for d0 in front:
            if len(d0.population) < 2:
                rec.fail("%s: a generation of %d individuals is reachable: no pair can be selected" % (name, len(d0.population)))

            def step():
                d = copy.deepcopy(d0)
                for k in ("sel", "cro", "mut", "new"):
                    ops[k].execute(d)
                fit.execute(d)
                d.update()
                return d
            for d, exc, trace, drv in all_outcomes(step, (0.0, 0.2, 0.45, 0.7, HIGH), volume):
                outcome(rec, "%s from %s" % (name, key(d0)[0]), exc, trace)
                rec.done(1, 1)
                if d is not None and key(d) not in seen and len(seen) < cap:
                    seen[key(d)] = level
                    d.parents, d.children = None, None
                    nxt.append(d)
        front = nxt
        if not front:
            closed = len(seen) < cap
            break
    rec.notes["reachable sets closed" if closed else "reachable sets cut at depth or size"] += 1
    rec.states.update(hash(k) for k in seen)
    rec.sample("%s: %d reachable generations, %s" % (name, len(seen), "closed" if closed else "bounded"))


# --------------------------------------------------------------------------------------------- products of options
PROD = {
    "binary": [B1, B2, ((0, 7, 1), (-1, 1, 0.1)), [(0.25, 0.5, 0.1)]], "gray": [B1, BB, ((-5, 5, 0.5),)],
    "cat": [(["a"],), (L,), ((5, 5, 1), ["x"]), (L, (0, 6, 2)), ((0, 2, 5), L, (-3, 4, 5)), [(0, 1, 1)] * 3], "order": [(0, 1, 2), (0, 2, 2), (0, 2, 3), (-2, 3, 4), (3, 9, 5)],
    "vega": [B1, ((0, 7, 1), (-1, 1, 0.1))], "vega_gray": [BB, ((0, 7, 1),)], "ffga": [B1, ((0, 7, 1), (-1, 1, 0.1))], "ffga_gray": [BB, ((0, 7, 1),)],
}


def products(rec, algo, gi, t):
    gens = PROD[algo][gi]
    kind = POPKIND[algo]
    multi = algo.startswith(("vega", "ffga"))
    ffga = algo.startswith("ffga")
    ns = (2, 3, 4) if ffga else (3, 4, 5)
    seeds = 2 if t else 1
    k = 0
    objs = [GR.f_mod, GR.f_const] if not multi else [GR.m_two, GR.m_same]
    for n in ns:
        for g in (1, 2, 4):
            for cp in (0.0, 0.3, 0.5, 0.95, 1.0, 1):
                for es in (None, 0, 2):
                    for ts in ((3,) if ffga else sorted({2, n - 1})):
                        for lvl in (0.0, 1.0, "normal", "strong") + (("weak", 0.5) if t else ()):
                            for tr in ("best", "random"):
                                for inp in (0, 1, n):
                                    for obj in objs:
                                        o = dict(children_percent=cp, early_stop=es, mutation_lvl=lvl, transfer_parents=tr, tournament_size=ts)
                                        if inp:
                                            o["input_population"] = GR.points(kind, gens, inp)
                                        if k % 3 == 0 and not ffga:
                                            o["obj_value"] = [1, 0] if multi else 1
                                        cfg = Cfg(algo, gens, obj, n=n, g=g, **o)
                                        for s in range(seeds):
                                            k += 1
                                            one(rec, cfg, Stream(GR.SEED + k, 20000))
                                        rec.state((algo, gi, n, g, cp, es, ts, lvl, tr, inp, obj.__name__))
    rec.sample("%s gens=%r: %d runs" % (algo, gens, k))


def one(rec, cfg, drv):
    set_driver(cfg.allow(drv))
    exc = None
    try:
        cfg.build(lambda *a: cfg.obj(a[-1]))()
    except Exception as e:
        exc = e
    except Horizon:
        exc = "endless"
    if exc is not None:
        outcome(rec, repr(cfg), exc, cfg=cfg)
    rec.done(1, cfg.g)


def defaults(rec, algo):
    """only the required arguments, every subset of the options spelled out with its default, sizes 4..12"""
    multi = algo.startswith(("vega", "ffga"))
    base = dict(obj_value=None, input_data=None, penalty=None, conditions=None, children_percent=0.95, early_stop=10, input_population=None,
                tournament_size=3, mutation_lvl="normal", transfer_parents="best", is_print=True)
    keys = sorted(base)
    n = 0
    for r in (0, 1, 2, len(keys)):
        for sub in itertools.combinations(keys, r):
            for size in (4, 5, 12):
                o = {k: base[k] for k in sub}
                obj = GR.m_two if multi else GR.f_mod
                kw = dict(o)
                if algo.endswith("gray"):
                    kw["is_gray"] = True
                set_driver(Stream(n + 1, 200000))
                exc = None
                try:
                    FACADE[algo](num_generations=4, num_individ=size, gens=PROD[algo][-1], obj_function=obj, **kw).optimize()
                except Exception as e:
                    exc = e
                except Horizon:
                    exc = "endless"
                outcome(rec, "%s with %r" % (algo, sub), exc)
                rec.done(1, 4)
                rec.state((algo, sub, size))
                n += 1
    for cls, args in ((G.BinStringMutation, ()), (G.CategoricalMutation, ()), (G.SwapMutation, ()), (G.NewGeneration, ()), (G.MultiNewGeneration, ()),
                      (G.TournamentSelection, ()), (G.BalancedSelection, ()), (G.RankedSelection, ()), (G.VEGATournamentSelection, (2,)),
                      (G.VEGABalancedSelection, (2,)), (G.VEGARankedSelection, (2,)), (G.DynamicPenalty, ()), (G.AdaptivePenalty, ())):
        cls(*args)
    rec.sample("%s: defaults and pairs of defaults, %d runs" % (algo, n))


# ------------------------------------------------------------------------------------------ operator combinations
def combos(rec, algo, seeds):
    kind = POPKIND[algo]
    multi = algo.startswith(("vega", "ffga"))
    ffga = algo.startswith("ffga")
    sels = GR.VSELECT if algo.startswith("vega") else GR.SELECT
    cros = [G.OrderCrossover] if kind == "order" else GR.CROSS
    muts = GR.CMUT if kind == "order" else [G.CategoricalMutation] if kind == "cat" else [G.BinStringMutation]
    conds = [(None, None)] + [(p, c) for p in GR.PENALTIES for c in ((GR.MCONDS if multi else GR.CONDS[:4]))]
    k = 0
    for sel in sels:
        for cro in cros:
            for mut in muts:
                for tr in ("best", "random"):
                    for pen, cl in conds:
                        for n, g, cp in ((3, 4, 0.95), (4, 3, 0.8), (7, 5, 1.0)) + (() if ffga else ((4, 3, 0.3), (5, 3, 0.0))):
                            gens = PROD[algo][k % len(PROD[algo])]
                            o = dict(transfer_parents=tr, children_percent=cp, mutation_lvl=["normal", 0.5, "weak", 1.0, "strong", 0.0][k % 6],
                                     early_stop=[20, 0, 1][k % 3])
                            obj = GR.m_two if multi else GR.SINGLE[k % len(GR.SINGLE)]
                            nobj = 2
                            if pen:
                                o.update(penalty=GR.penalty(pen, cl), conditions=list(cl))
                                obj = GR.cond_obj(cl)
                                nobj = cl.count("optimize")
                            if algo.startswith("vega"):
                                o["num_objectives"] = nobj
                            if not ffga and (sel in (G.BalancedSelection, G.VEGABalancedSelection) or k % 2):
                                o["obj_value"] = [1] * nobj if multi else 1
                            for s in range(seeds):
                                k += 1
                                one(rec, Cfg(algo, gens, obj, n=n, g=g, mode="collector", ops={"selection": sel, "crossover": cro, "mutation": mut}, **o),
                                    Stream(GR.SEED * 1000 + k, 60000))
                            rec.state((algo, sel.__name__, cro.__name__, mut.__name__, tr, pen, cl, n))
    rec.sample("%s: %d runs of all operator combinations" % (algo, k))


def wide(rec, part, parts, count):
    for i, cfg in enumerate(GR.wide(count)[part::parts]):
        one(rec, cfg, Stream(GR.SEED * 7919 + i))
        rec.state(repr(cfg))


def scaled(rec, part, parts):
    """large configurations: hundreds of individuals, long runs, long genotypes"""
    for i, cfg in enumerate(GR.scale()[part::parts]):
        one(rec, cfg, Stream(GR.SEED * 31 + i))
        rec.state(repr(cfg))


def long_runs(rec, algo, n, g):
    """long runs with every transfer, without and with early stop"""
    multi = algo.startswith(("vega", "ffga"))
    k = 0
    for gens in PROD[algo][-2:]:
        for tr in ("best", "random"):
            for cp in (0.0, 0.5, 0.95, 1.0):
                for es in (None, g, 3):
                    if algo.startswith("ffga") and n > 40 and (es is None or cp != 0.95):
                        continue
                    k += 1
                    one(rec, Cfg(algo, gens, GR.m_two if multi else GR.SINGLE[k % len(GR.SINGLE)], n=n, g=g, transfer_parents=tr, children_percent=cp,
                                 early_stop=es, tournament_size=2 if n < 5 else 3, mutation_lvl=["normal", "weak", 0.5, "strong"][k % 4]),
                        Stream(GR.SEED * 77 + k))
                    rec.state((algo, repr(gens), tr, cp, es, n, g))


def improving(rec, algo, g):
    """hundreds of generations each of which has a new best: nothing may pile up from one best to the next"""
    multi = algo.startswith(("vega", "ffga"))
    for gens in PROD[algo][-2:]:
        for tr in ("best", "random"):
            for es in (None, 5):
                calls = [0]

                def obj(x):
                    calls[0] += 1
                    return (-calls[0], -calls[0]) if multi else -calls[0]
                one(rec, Cfg(algo, gens, obj, n=4, g=g, transfer_parents=tr, early_stop=es, tournament_size=2), Stream(GR.SEED * 13 + g))
                rec.state((algo, repr(gens), tr, es, g))
    rec.sample("%s: %d generations, a new best in each" % (algo, g))


def sizes(rec, algo):
    """every small population size and genotype length"""
    kind = POPKIND[algo]
    multi = algo.startswith(("vega", "ffga"))
    lo = 2 if algo.startswith("ffga") else 3
    for n in range(lo, 16):
        for length in (range(2, 10) if kind == "order" else range(1, 9)):
            gens = {"binary": ((0, 2 ** length - 1, 1),), "gray": ((0, 1, 1),) * length, "cat": (["a", "b"],) * length, "order": (0, length + n % 2 - 1, length)}[kind]
            for tr in ("best", "random"):
                one(rec, Cfg(algo, gens, GR.m_two if multi else GR.f_mod, n=n, g=4, tournament_size=min(3, n - 1) if lo == 3 else 3, transfer_parents=tr),
                    Stream(n * 100 + length, 60000))
            rec.state((algo, n, length))
    rec.sample("%s: n %d..15 x lengths" % (algo, lo))


# ----------------------------------------------------------------------------------------------- objective values
def magnitudes(rec, algo):
    """objective functions that return unusual but finite numbers"""
    kind = POPKIND[algo]
    multi = algo.startswith(("vega", "ffga"))
    mags = [0, -0.0, 1, -1, 1e-300, 1e12, -1e12, 1e300, -1e300, True, 5e-324, 10 ** 30, -10 ** 30, 0.1]
    for a in mags:
        for b in mags:
            def obj(x):
                v = a if GR.f_mod(x) % 2 else b
                return (v, -v) if multi else v
            for tv in (None, 0, 3):
                if tv is not None and multi:
                    tv = [tv, tv]
                sels = ["facade"] if multi else ["facade", G.RankedSelection]
                for sel in sels:
                    cfg = Cfg(algo, PROD[algo][-1], obj, n=4, g=4, mode="facade" if sel == "facade" else "collector",
                              ops={} if sel == "facade" else {"selection": sel}, tournament_size=2, **({"obj_value": tv} if tv is not None else {}))
                    if sel != "facade":
                        cfg.opts.pop("tournament_size")
                    one(rec, cfg, Stream(11, 60000))
            rec.state((algo, repr(a), repr(b)))
    rec.sample("%s: %d pairs of magnitudes" % (algo, len(mags) ** 2))


BOUNDS = {"quick": "all random outcomes of about 90 minimal runs up to 2500 combinations of alternatives (then a fair stream) (2-3 individuals, 2-4 generations, genotypes of 1-4 genes); "
                   "products of boundary option values (n x generations x children x early stop x tournament x level x transfer x input x objective) for 8 algorithms; "
                   "all operator x penalty combinations in collector mode; n<=15 x genotype length<=9; pairs of default options; 196 pairs of objective magnitudes; 8 algorithms with 700 improving generations",
          "thorough": "100000 combinations per minimal run, 3000 reachable generations, more levels and seeds, three times the run grid"}
ASSUMPTIONS = ["beyond the enumerated draws the retries of selection see a fair stream"]


def items(tier):
    t = tier == "thorough"
    out = [("outcomes[%s]" % k, "outcomes", dict(name=k, volume=100000 if t else 2500)) for k in minimal(None)]
    for k in sorted(reach_cfgs()):
        out.append(("reach[%s]" % k, "reach", dict(name=k, volume=3000 if t else 300, depth=8 if t else 4, cap=3000 if t else 150)))
    for a in PROD:
        for gi in range(len(PROD[a])):
            out.append(("options[%s,%d]" % (a, gi), "products", dict(algo=a, gi=gi, t=t)))
        out.append(("defaults[%s]" % a, "defaults", dict(algo=a)))
        out.append(("operators[%s]" % a, "combos", dict(algo=a, seeds=3 if t else 1)))
        out.append(("improving[%s]" % a, "improving", dict(algo=a, g=3000 if t else 700)))
        out.append(("sizes[%s]" % a, "sizes", dict(algo=a)))
        out.append(("magnitudes[%s]" % a, "magnitudes", dict(algo=a)))
        for n, g in ((4, 300), (24, 70), (61, 4), (230, 3)):
            if a.startswith("ffga"):
                n, g = min(n, 45), {300: 20, 70: 6}.get(g, 2)
            out.append(("long[%s,%d,%d,%d]" % (a, n, g, len(out)), "long_runs", dict(algo=a, n=n, g=g)))
    for p in range(8):
        out.append(("scale[%d]" % p, "scaled", dict(part=p, parts=8)))
        out.append(("runs[%d]" % p, "wide", dict(part=p, parts=8, count=9 if t else 3)))
    return out
