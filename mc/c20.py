"""C20: the three modes.  Full products of small option domains: ready-made class, collector and the documented hand-written
loop, same seed, compared generation by generation."""
import functools

from .core import *
from .util import *
from . import grid as GR

GENS = {"binary": ((0, 7, 1), (-1, 1, 0.1)), "cat": (["a", "b", "c"], (0, 6, 2), ["x", "y"]), "order": (0, 5, 4),
        "vega": ((0, 7, 1), (-1, 1, 0.1)), "ffga": ((0, 7, 1), (-1, 1, 0.1))}
CONDS = {"binary": ["optimize", "<="], "cat": ["!=", "optimize", "<="], "order": ["optimize", "<=", "!="],
         "vega": ["optimize", "<=", "optimize"], "ffga": ["optimize", "<=", "optimize"]}
POPS = {"cat": G.CatPopulation, "order": G.OrderCatPopulation}


def penalties(algo, which):
    if which == "dynamic":
        return G.DynamicPenalty(delta=2, c=0.7)
    if which == "adaptive":
        return G.AdaptivePenalty()
    return G.StaticPenalty(**GR.static_tables(CONDS[algo]))


DOMAINS = {
    "children_percent": ["-", 0.5],
    "tournament_size": ["-", 2],
    "mutation_lvl": ["-", 0.6],
    "transfer_parents": ["-", "random"],
    "is_gray": ["-", True],
    "input_population": ["-", 2],
    "obj_value": ["-", 3],
    "input_data": ["-", 0, (1, "x")],
    "penalty": ["-", "dynamic", "adaptive"],
    "early_stop": ["-", None, 0],
}
DEFAULTS = dict(children_percent=0.95, tournament_size=3, mutation_lvl="normal", transfer_parents="best", is_gray=False,
                input_population=None, obj_value=None, input_data=None, penalty=None, conditions=None, early_stop=10)


def facade_cls(algo):
    return {"binary": BinaryGA, "cat": CategoricalGA, "order": CombinatoryGA, "vega": VEGA, "ffga": FFGA}[algo]


def names(algo):
    out = [k for k in DOMAINS if not (k == "is_gray" and algo in ("cat", "order")) and not (k == "tournament_size" and algo == "ffga")]
    return out


def objective(algo, o, log):
    if o.get("conditions"):
        f = GR.cond_obj(o["conditions"])
    else:
        f = o["_obj"] if o.get("_obj") else GR.m_two if algo in ("vega", "ffga") else GR.f_mod
    scale = 0 if o.get("input_data") is None else len(repr(o["input_data"])) + 1

    def one(x):
        log.append(fast(x))
        return f(x)

    def two(d, x):
        log.append(fast(x))
        r = f(x)
        return type(r)(v * scale for v in r) if isinstance(r, (tuple, list)) else r * scale
    return one if o.get("input_data") is None else two


def expand(algo, choice):
    """constructor options from one combination of the product"""
    o = {k: v for k, v in choice.items() if v != "-" or v is None}
    kind = {"cat": "cat", "order": "order"}.get(algo, "binary")
    if "input_population" in o:
        o["input_population"] = GR.points(kind, GENS[algo], o["input_population"])
    if "penalty" in o:
        o["penalty"] = penalties(algo, o["penalty"])
        o["conditions"] = list(CONDS[algo])
    if "obj_value" in o and algo in ("vega", "ffga"):
        o["obj_value"] = [o["obj_value"], 1]
    return o


class Log:
    def __init__(self):
        self.gens = []
        self.calls = []
        self.final = None

    def note(self, d):
        self.gens.append((sorted(repr(e) for e in essences(d.population)), repr(freeze(d.historical_best[-1:])),
                          repr(freeze(d.best_solution)), d.num_generation_no_improve))

    def finish(self, d):
        self.final = (d.idx_generation, [repr(freeze(x)) for x in (d.historical_best, d.historical_mediocre, d.historical_worst,
                                                                 d.best_solution)], sorted(map(repr, essences(d.population))))


def facade(algo, o, n, g, seed, is_print=False, gens=None, wrap=lambda f: f):
    log = Log()
    mon = Monitor(snaps=False)
    mon.hook = lambda when, ev, d: log.note(d) if when == "after" and ev.kind == "update" else None
    set_driver(Real())
    generator.rnd_seed = seed
    with mon:
        log.finish(facade_cls(algo)(num_generations=g, num_individ=n, gens=GENS[algo] if gens is None else gens,
                                    obj_function=wrap(objective(algo, o, log.calls)), is_print=is_print, **{k: v for k, v in o.items() if k[0] != "_"}).optimize())
    return log


def parts(algo, o, n, g, log):
    p = dict(DEFAULTS, **o)
    f = objective(algo, o, log.calls)
    fit = {"vega": G.VEGAHyperbolaFitness, "ffga": G.FFGAFitness}.get(algo, G.HyperbolaFitness)(
        obj_function=f, obj_value=p["obj_value"], input_data=p["input_data"], penalty=p["penalty"], conditions=p["conditions"])
    if algo == "vega":
        sel = G.VEGATournamentSelection(num_objectives=o.get("_m", 2), tournament_size=p["tournament_size"])
    elif algo == "ffga":
        sel = G.BalancedSelection()
    else:
        sel = G.TournamentSelection(tournament_size=p["tournament_size"])
    cro = {"order": G.OrderCrossover, "cat": G.UniformCrossover}.get(algo, G.OnePointCrossover)()
    mut = {"order": G.MovementMutation, "cat": G.CategoricalMutation}.get(algo, G.BinStringMutation)(p["mutation_lvl"])
    new = (G.MultiNewGeneration if algo == "ffga" else G.NewGeneration)(p["transfer_parents"])
    pop = POPS.get(algo) or (G.BinaryGrayPopulation if p["is_gray"] else G.BinaryPopulation)
    data = G.MultiGaData if algo in ("vega", "ffga") else G.GaData
    es = g if p["early_stop"] is None else p["early_stop"]
    return p, fit, sel, cro, mut, new, pop, data, es


def advanced(algo, o, n, g, seed, bare=()):
    """the documented hand-written loop; the components named in bare are made without their optional parameters"""
    log = Log()
    set_driver(Real())
    generator.rnd_seed = seed
    p, fit, sel, cro, mut, new, pop, data, es = parts(algo, o, n, g, log)
    d = data(num_generations=g, children_percent=p["children_percent"], early_stop=es)
    x = pop()
    x.set_params(num_individ=n, gens=GENS[algo], input_population=p["input_population"])
    if "data" in bare:
        d = data(num_generations=g)
    if "population" in bare:
        x.set_params(num_individ=n, gens=GENS[algo])
    if "fitness" in bare:
        fit = type(fit)(obj_function=objective(algo, o, log.calls))
    if "selection" in bare:
        sel = type(sel)(2) if algo == "vega" else type(sel)()
    if "mutation" in bare:
        mut = type(mut)()
    if "survivors" in bare:
        new = type(new)()
    es = d.early_stop if "data" in bare else es
    x.fill()
    d.population = x
    fit.execute(d)
    d.update()
    log.note(d)
    for _ in range(g - 1):
        sel.execute(d)
        cro.execute(d)
        mut.execute(d)
        new.execute(d)
        fit.execute(d)
        d.update()
        log.note(d)
        if d.num_generation_no_improve > es:
            break
    log.finish(d)
    return log


def collector(algo, o, n, g, seed):
    log = Log()
    set_driver(Real())
    generator.rnd_seed = seed
    p, fit, sel, cro, mut, new, pop, data, es = parts(algo, o, n, g, log)
    mon = Monitor(snaps=False)
    mon.hook = lambda when, ev, d: log.note(d) if when == "after" and ev.kind == "update" else None
    col = CollectorGA(fitness=fit, selection=sel, crossover=cro, mutation=mut, new_generation=new, storage=data)
    with mon:
        kw = {k: o[k] for k in ("children_percent", "input_population") if k in o}
        if "early_stop" in o:
            kw["early_stop"] = es
        col.set_population(population=pop, num_individ=n, num_generations=g, gens=GENS[algo], **kw)
        col.optimize()
    log.finish(col.ga_data)
    return log


def same(rec, algo, choice, a, b, la, lb):
    if a.gens != b.gens:
        k = next((i for i, (x, y) in enumerate(zip(a.gens, b.gens)) if x != y), min(len(a.gens), len(b.gens)))
        rec.fail("%s options %r: %s and %s differ from generation %d (%d and %d generations)" % (
            algo, {k2: v for k2, v in choice.items() if v != "-"}, la, lb, k, len(a.gens), len(b.gens)))
        return False
    if a.final != b.final:
        rec.fail("%s options %r: %s and %s report different results" % (algo, choice, la, lb))
        return False
    return True


def product(rec, algo, fixed, seeds, n=5, g=4, only=None):
    ks = names(algo)
    doms = [[fixed[k]] if k in fixed else (DOMAINS[k] if only is None or k in only else ["-"]) for k in ks]
    seen = {}
    for combo in itertools.product(*doms):
        choice = dict(zip(ks, combo))
        for seed in seeds:
            a = advanced(algo, expand(algo, choice), n, g, seed)
            f = facade(algo, expand(algo, choice), n, g, seed)
            c = collector(algo, expand(algo, choice), n, g, seed)
            ok = same(rec, algo, choice, f, a, "ready-made class", "hand-written loop")
            ok = same(rec, algo, choice, c, a, "collector", "hand-written loop") and ok
            if algo not in ("vega", "ffga") and ok and not (f.calls == a.calls == c.calls):
                rec.fail("%s options %r: the modes evaluate different individuals" % (algo, choice))
            rec.done(3, len(a.gens) * 3)
            rec.state((algo, combo, seed))
            seen[combo, seed] = repr(a.gens)
    # how often a single option changes the run: evidence that the comparison is not vacuous
    for i, k in enumerate(ks):
        for (combo, seed), r in seen.items():
            if combo[i] != "-" or combo[i] is None:
                base = combo[:i] + ("-",) + combo[i + 1:]
                if (base, seed) in seen:
                    rec.notes["%s changes the run" % k] += seen[base, seed] != r
                    rec.notes["%s does not change the run" % k] += seen[base, seed] == r
    rec.sample("%s: %d option combinations" % (algo, len(seen)))


def sizes(rec, algo):
    """defaults only and single options over populations and generation counts"""
    ks = names(algo)
    for n, g in itertools.product((4, 6, 11), (1, 2, 3, 9, 25)):
        for k in ["-"] + ks:
            for v in (DOMAINS[k][1:] if k != "-" else ["-"]):
                choice = {} if k == "-" else {k: v}
                a = advanced(algo, expand(algo, choice), n, g if algo != "ffga" else min(g, 6), 4)
                f = facade(algo, expand(algo, choice), n, g if algo != "ffga" else min(g, 6), 4)
                c = collector(algo, expand(algo, choice), n, g if algo != "ffga" else min(g, 6), 4)
                same(rec, algo, dict(choice, n=n, g=g), f, a, "ready-made class", "hand-written loop")
                same(rec, algo, dict(choice, n=n, g=g), c, a, "collector", "hand-written loop")
                rec.done(3, 3 * len(a.gens))
                rec.state((algo, n, g, k, repr(v)))


def bare(rec, algo):
    """components and penalties whose optional parameters are left out behave as if the documented defaults were given"""
    names_ = ("data", "population", "fitness", "selection", "mutation", "survivors")
    for n, g in ((4, 5), (7, 30), (24, 16), (41, 6)):
        if algo == "ffga":
            n, g = min(n, 16), min(g, 14)
        for seed in (3, 8):
            full = advanced(algo, {}, n, g, seed)
            for sub in [(k,) for k in names_] + [names_]:
                same(rec, algo, {"left out": sub, "n": n, "g": g}, advanced(algo, {}, n, g, seed, sub), full,
                     "the loop without parameters of %s" % ", ".join(sub), "the loop with the defaults given")
                rec.done(1, len(full.gens))
                rec.state((algo, n, g, seed, sub))
    for seed in range(1, 9):                     # without mutation runs converge and stop early
        o = {"mutation_lvl": 0.0}
        g = 14 if algo == "ffga" else 40
        full = advanced(algo, o, 4, g, seed)
        same(rec, algo, {"left out": "data", "seed": seed}, advanced(algo, o, 4, g, seed, ("data",)), full,
             "the loop without parameters of the data", "the loop with the defaults given")
        rec.done(1, len(full.gens))
        rec.notes["stopped early" if len(full.gens) < g else "not stopped early"] += 1
    for x, y in ((lambda: G.DynamicPenalty(), lambda: G.DynamicPenalty(1, 0.5, 2, 2)),
                 (lambda: G.AdaptivePenalty(), lambda: G.AdaptivePenalty(1, 1.1, 1.2, 2)),
                 (lambda: G.DynamicPenalty(), lambda: G.DynamicPenalty(delta=1, c=0.5, alpha=2, betta=2)),
                 (lambda: G.AdaptivePenalty(), lambda: G.AdaptivePenalty(delta=1, betta_1=1.1, betta_2=1.2, betta=2))):
        for seed in (3, 8):
            a, b = ({"penalty": k(), "conditions": list(CONDS[algo])} for k in (x, y))
            same(rec, algo, {"penalty": type(a["penalty"]).__name__}, facade(algo, a, 9, 6, seed), facade(algo, b, 9, 6, seed),
                 "the penalty without parameters", "the penalty with the defaults given")
            rec.done(2, 12)


class Callable_:
    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def method(self, *args):
        return self.f(*args)


def shapes(rec, algo):
    """the same configuration written differently: lists or tuples, positional arguments, other callables, other number types"""
    multi = algo in ("vega", "ffga")
    binary = algo not in ("cat", "order")
    gens = GENS[algo]
    base = [{}, {"input_population": 2}, {"penalty": "dynamic"}, {"input_data": (1, "x")}, {"obj_value": 3}, {"penalty": "adaptive", "input_population": 2, "obj_value": 3}]
    for choice in base:
        for n, g, seed in ((4, 3, 1), (9, 5, 6)):
            ref = facade(algo, expand(algo, choice), n, g, seed)

            def compare(label, o=None, wrap=lambda f: f, gens_=None):
                o = expand(algo, choice) if o is None else o
                got = facade(algo, o, n, g, seed, gens=gens_, wrap=wrap)
                same(rec, algo, dict(choice, shape=label), got, ref, label, "the plain form")
                rec.done(1, len(got.gens))
                rec.state((algo, repr(choice), n, label))
            compare("gens as a list", gens_=list(gens))
            compare("gens as a tuple", gens_=tuple(gens))
            if binary:
                compare("genes as lists in a list", gens_=[list(x) for x in gens])
                compare("genes as lists in a tuple", gens_=tuple(list(x) for x in gens))
                compare("genes as floats", gens_=tuple(tuple(float(v) for v in x) for x in gens)) if not multi else None
            compare("a callable object", wrap=Callable_)
            compare("a bound method", wrap=lambda f: Callable_(f).method)
            compare("a partial", wrap=lambda f: functools.partial(lambda k, *a: f(*a), 1))
            compare("variable arguments", wrap=lambda f: lambda *a: f(*a))
            if multi or "penalty" in choice:
                for t in (list, tuple):
                    def wrapped(f, t=t):
                        def h(*a):
                            return t(f(*a))
                        return h
                    compare("the values returned as a %s" % t.__name__, wrap=wrapped)
            else:
                for t in (list, tuple):
                    compare("the value returned in a %s" % t.__name__, wrap=lambda f, t=t: lambda *a: t([f(*a)]))
            if "penalty" in choice:
                o = expand(algo, choice)
                o["conditions"] = tuple(o["conditions"])
                compare("conditions as a tuple", o)
            if "input_population" in choice:
                o = expand(algo, choice)
                o["input_population"] = tuple(tuple(x) for x in o["input_population"])
                compare("input population of tuples", o)
                o = expand(algo, choice)
                o["input_population"] = [tuple(x) for x in o["input_population"]]
                compare("input population: list of tuples", o)
            if "obj_value" in choice and multi:
                o = expand(algo, choice)
                o["obj_value"] = tuple(o["obj_value"])
                compare("target values as a tuple", o)
    rec.sample("%s: %d configurations in up to 15 forms" % (algo, len(base)))


def objectives(rec, algo):
    """one to six objectives, with and without conditions"""
    sets = [(1, lambda x: [GR.f_mod(x)], None), (2, GR.m_tie, None), (3, GR.m_three, None), (3, GR.m_neg, None), (6, GR.m_six, None)]
    sets += [(3, lambda x: list(GR.m_three(x)), None), (6, lambda x: list(GR.m_six(x)), None)]
    sets += [(cl.count("optimize"), None, list(cl)) for cl in (
        ["optimize", "<="], ["!=", "optimize", "<=", "optimize", "optimize"], ["optimize", "<=", "<=", "!=", "<="], ["optimize"] * 3, ["optimize"] * 4 + ["<="],
        ["<=", "<=", "optimize", "!=", "optimize"])]
    for m, f, cl in sets:
        for pen in (("dynamic", "adaptive") if cl and m < len(cl) else (None,)):
            for n, g, cp in ((7, 5, 0.95), (12, 4, 0.5), (24, 3, 1.0)):
                for tr in ("best", "random"):
                    if algo == "ffga" and n > 12:
                        continue

                    def opts():
                        o = dict(_m=m, children_percent=cp, transfer_parents=tr)
                        if cl is not None:
                            o["conditions"] = list(cl)
                        if f is not None:
                            o["_obj"] = f
                        if pen:
                            o["penalty"] = penalties(algo, pen)
                        return o
                    a, fa, c = advanced(algo, opts(), n, g, 21), facade(algo, opts(), n, g, 21), collector(algo, opts(), n, g, 21)
                    label = dict(objectives=m, conditions=cl, penalty=pen, n=n, transfer=tr)
                    same(rec, algo, label, fa, a, "ready-made class", "hand-written loop")
                    same(rec, algo, label, c, a, "collector", "hand-written loop")
                    rec.done(3, 3 * len(a.gens))
                    rec.state((algo, repr(label), f and f.__name__))


LARGE = {"children_percent": [0.0, 0.02, 0.1, 0.5, 0.99, 1.0, 1.3], "tournament_size": [2, 7, 15], "mutation_lvl": ["weak", "strong", 0.03],
         "transfer_parents": ["random"], "is_gray": [True], "input_population": [1, 8], "obj_value": [0, 3.5, 1e6],
         "input_data": [0], "penalty": ["static", "dynamic", "adaptive"], "early_stop": [None, 0, 1, 60]}


def large(rec, algo, n, g):
    """single options and pairs with children_percent on larger populations and longer runs"""
    n, g = (min(n, 20), min(g, 5)) if algo == "ffga" else (n, g)
    for k in [k for k in names(algo)]:
        for v in LARGE[k]:
            if k in ("tournament_size", "input_population") and v >= n:
                continue
            for k2, v2 in (("-", "-"), ("transfer_parents", "random"), ("children_percent", 0.3)):
                if k2 == k:
                    continue
                choice = {k: v} if k2 == "-" else {k: v, k2: v2}
                a = advanced(algo, expand(algo, choice), n, g, 14)
                f = facade(algo, expand(algo, choice), n, g, 14)
                c = collector(algo, expand(algo, choice), n, g, 14)
                same(rec, algo, dict(choice, n=n, g=g), f, a, "ready-made class", "hand-written loop")
                same(rec, algo, dict(choice, n=n, g=g), c, a, "collector", "hand-written loop")
                rec.done(3, 3 * len(a.gens))
                rec.state((algo, n, g, repr(choice)))


def long(rec):
    """FFGA over many generations: few children, or few survivors, keep its growing generations small"""
    for n, g, cp, tr in ((3, 40, 0.4, "best"), (3, 26, "-", "random"), (6, 40, 0.17, "best"), (6, 26, 0.5, "random"), (2, 60, 0.5, "best"), (4, 60, 0.25, "random")):
        for gray in ("-", True):
            for pen in ("-", "dynamic", "adaptive"):
                for lvl in (("-", 0.6) if pen == "-" else ("-",)):
                    choice = dict(children_percent=cp, transfer_parents=tr, is_gray=gray, penalty=pen, mutation_lvl=lvl, early_stop=None)
                    a = advanced("ffga", expand("ffga", choice), n, g, 17)
                    f = facade("ffga", expand("ffga", choice), n, g, 17)
                    c = collector("ffga", expand("ffga", choice), n, g, 17)
                    same(rec, "ffga", dict(choice, n=n, g=g), f, a, "ready-made class", "hand-written loop")
                    same(rec, "ffga", dict(choice, n=n, g=g), c, a, "collector", "hand-written loop")
                    rec.done(3, 3 * len(a.gens))
                    rec.state(("long", n, g, repr(choice)))


ALT = {"children_percent": [0.0, 0.2, 1.0, 0.8, 1.5], "tournament_size": [4, 5], "mutation_lvl": ["weak", "strong", 0.0, 1.0],
       "transfer_parents": ["best"], "is_gray": [False, 1], "input_population": [1, 6], "obj_value": [0, -2.5, 7],
       "input_data": [False, "", [], {"a": 1}], "penalty": ["static"], "early_stop": [1, 2, 100]}


def values(rec, algo):
    """further values of every option, alone and with every value of each other option"""
    ks = [k for k in names(algo)]
    for k in ks:
        for v in ALT[k]:
            for k2 in ["-"] + [x for x in ks if x != k]:
                for v2 in (DOMAINS[k2][1:] if k2 != "-" else ["-"]):
                    choice = {k: v}
                    if k2 != "-":
                        choice[k2] = v2
                    a = advanced(algo, expand(algo, choice), 6, 5, 9)
                    f = facade(algo, expand(algo, choice), 6, 5, 9, is_print=True)
                    c = collector(algo, expand(algo, choice), 6, 5, 9)
                    same(rec, algo, choice, f, a, "ready-made class", "hand-written loop")
                    same(rec, algo, choice, c, a, "collector", "hand-written loop")
                    rec.done(3, 3 * len(a.gens))
                    rec.state((algo, repr(choice)))


BOUNDS = {"quick": "full product of ten option domains (2-3 values each; up to 3456 combinations) for the five algorithm classes, n=5, 4 "
                   "generations, one or two seeds, three modes each; 20 further option values pairwise with every other option; sizes up to 11 x 25 (FFGA: runs of up to 60 generations); every component built with its defaults; 20 shapes of option values (lists, tuples, callables, return containers)",
          "thorough": "the products with three seeds and longer runs"}
ASSUMPTIONS = ["the hand-written loop is the documented one (README, advanced mode)"]


def items(tier):
    t = tier == "thorough"
    out = []
    for a in GENS:
        for cp in DOMAINS["children_percent"]:
            for tr in DOMAINS["transfer_parents"]:
                for pen in DOMAINS["penalty"]:
                    out.append(("product[%s,%s,%s,%s]" % (a, cp, tr, pen), "product", dict(
                        algo=a, fixed={"children_percent": cp, "transfer_parents": tr, "penalty": pen},
                        seeds=(GR.SEED, 31, 77) if t else (GR.SEED,), g=6 if t and a != "ffga" else 4)))
        out.append(("bare[%s]" % a, "bare", dict(algo=a)))
        out.append(("shapes[%s]" % a, "shapes", dict(algo=a)))
        out.append(("sizes[%s]" % a, "sizes", dict(algo=a)))
        for n, g in ((40, 6), (9, 130), (101, 3)):
            out.append(("large[%s,%d,%d]" % (a, n, g), "large", dict(algo=a, n=n, g=g)))
        if a in ("vega", "ffga"):
            out.append(("objectives[%s]" % a, "objectives", dict(algo=a)))
        out.append(("values[%s]" % a, "values", dict(algo=a)))
    out.append(("long[ffga]", "long", {}))
    return out
