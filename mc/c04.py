"""C04: the objective function only sees points of the declared domain."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items, o_domain
from . import grid as GR


def cases():
    B = [((0, 1, 1), (0, 3, 1)), ((-1, 1, 0.5), (0, 1, 1))]
    out = []
    for kind in ("binary", "gray"):
        for gens in B:
            for c in GR.CROSS:
                out.append((kind, gens, c, G.BinStringMutation))
    for gens in ((["a", "b"], (0, 4, 2)), (["x"], ["p", "q", 3], (1, 2, 1)), ((2, 2, 1), (0, 3, 3))):
        for c in GR.CROSS:
            out.append(("cat", gens, c, G.CategoricalMutation))
    for gens in ((0, 2, 3), (0, 3, 4), (0, 3, 2), (1, 4, 3), (0, 4, 3)):
        for m in GR.CMUT:
            out.append(("order", gens, G.OrderCrossover, m))
    return out


CASES = cases()


def closure(rec, index, level):
    """every pair of parents of the domain x every random outcome of crossover, mutation and evaluation"""
    from .c03 import domain
    kind, gens, cross, mut = CASES[index]
    dom = domain(kind, gens)
    seen = []

    def f(data, x):
        seen.append((data, list(x)))
        return 0
    token = {"k": (1, 2)}
    for a, b in itertools.product(dom, repeat=2):
        def go():
            set0 = core._driver
            d = G.GaData(num_generations=2)
            p = POP[kind]()
            core._driver = Stream(1)
            p.set_params(num_individ=2, gens=gens, input_population=None)
            p.fill()
            core._driver = set0
            for ind, g in zip(p, (a, b)):
                ind["genotype"] = list(g)
                if "phenotype" in ind:
                    ind["phenotype"] = None
            d.population = p
            d.parents = [{"genotype": list(a)}, {"genotype": list(b)}]
            cross().execute(d)
            mut(level).execute(d)
            d.population.extend(d.children)
            del seen[:]
            G.HyperbolaFitness(obj_function=f, input_data=token).execute(d)
            return [list(c["genotype"]) for c in d.children], list(seen)
        for lf in explore_all(go, Cover(), index, cap=64, budget=1500):
            rec.leaf(lf)
            if lf.exc is not None:
                rec.fail("raised %r" % lf.exc, case=CASES[index][:2], parents=(a, b), trace=lf.choices)
                return
            if lf.cut:
                continue
            kids, calls = lf.result
            for k in kids:
                rec.state((index, k))
                if not genotype_ok(kind, gens, k):
                    rec.fail("offspring outside the domain", kind=kind, gens=gens, cross=cross.__name__,
                             mut=mut.__name__, parents=(a, b), child=k, trace=lf.choices)
            for data, x in calls:
                if data != token or type(data) is not dict or not point_ok(kind, gens, x):
                    rec.fail("objective called outside the search space or without the input data", kind=kind,
                             gens=gens, x=x, data=data, trace=lf.choices)
            if len(calls) != 3:
                rec.fail("%d calls for 3 individuals" % len(calls), kind=kind)
    rec.sample("%s %r %s+%s: %d parent pairs" % (kind, gens, cross.__name__, mut.__name__, len(dom) ** 2))


class Opaque:
    def __eq__(self, o):
        return isinstance(o, Opaque)
    __hash__ = object.__hash__


DATA = [None, 0, 0.0, False, "", [], {}, (), 1, "text", [1, [2]], {"a": 1}, (1, 2), Opaque(), set(), {3}, 1j, b"",
        True, -1]


def data_kinds(rec, algo):
    """every kind of input data for every algorithm"""
    gens = {"binary": ((0, 7, 1), (0, 1, 1)), "cat": (["a", "b"], (0, 2, 1)), "order": (0, 3, 3)}[POPKIND[algo].replace("gray", "binary")]
    for data in DATA:
        for mode in ("facade", "collector"):
            for s in range(2):
                f = GR.m_two if algo.startswith(("vega", "ffga")) else GR.f_mod
                o = {} if data is None else {"input_data": data}
                cfg = Cfg(algo, gens, f, n=5, g=3, mode=mode, early_stop=10, obj_value=None, **o)
                mon = cfg.run(Stream(GR.SEED * 10 + s))
                if not checked(rec, cfg, mon):
                    return
                o_domain(rec, cfg, mon)
                if data is not None and any(type(c[0][0]) is not type(data) for c in mon.calls):
                    rec.fail("input data changed", cfg=cfg)
                rec.state((algo, repr(data), mode, s))
                rec.done(1, len(mon.calls))
    rec.sample("%s: %d kinds of input data" % (algo, len(DATA)))


def domains(rec, algo):
    """one short run per gene family of C01/C03, objective monitored"""
    from .c01 import LOS, SPANS
    from .c03 import CAT, ORD
    kind = POPKIND[algo]
    if kind in ("binary", "gray"):
        fam = [((lo, lo + w, st), (0, 1, 1)) for i, lo in enumerate(LOS) for w, st in SPANS[i % 3::3]]
    elif kind == "cat":
        fam = [g for g in CAT if not any(isinstance(x, list) and None in x for x in g)] + list(GR.GENS["cat"])
    else:
        fam = [g for g in ORD if g[2] > 1] + list(GR.GENS["order"])
    for gens in fam:
        f = GR.m_two if algo.startswith(("vega", "ffga")) else GR.f_mod
        cfg = Cfg(algo, gens, f, n=4, g=3, mutation_lvl=0.5, early_stop=10)
        mon = cfg.run(Stream(GR.SEED + 5))
        if not checked(rec, cfg, mon):
            return
        o_domain(rec, cfg, mon)
        rec.state((algo, repr(gens)))
        rec.done(1, len(mon.calls))
    rec.sample("%s: %d gene families" % (algo, len(fam)))


LABELS = ["ALGORITHM", "abcd", "xy", (10, 20.5, "z", None, (1, 2)), (-3, -1, 100, 7), "qwertyuiopasdfghjklzxcvbnm"]


def labels(rec, mode):
    """an order population made of the user's own labels (README): every point is an arrangement of exactly these labels"""
    for word in LABELS:
        L = len(word)
        for cro in [G.OrderCrossover]:
            for mut in ([None] if mode == "facade" else GR.CMUT):
                for n, g, tr in ((4, 6, "best"), (5, 5, "random"), (9, 4, "best")):
                    inp = [list(word[i % L:] + word[:i % L]) for i in range(n)]
                    want = sorted(map(repr, word))

                    def f(x):
                        if sorted(map(repr, x)) != want:
                            rec.fail("labels %r: the objective function was given %r" % (word, x))
                        return sum(i * len(repr(v)) + (v == word[i]) for i, v in enumerate(x))
                    o = dict(input_population=inp, transfer_parents=tr, mutation_lvl=0.6)
                    if mut is not None:
                        cfg = Cfg("order", (0, L - 1, L), f, n=n, g=g, mode=mode, ops={"crossover": cro, "mutation": mut}, early_stop=99, **o)
                    else:
                        cfg = Cfg("order", (0, L - 1, L), f, n=n, g=g, mode=mode, tournament_size=2, **o)
                    mon = cfg.run(Stream(GR.SEED * 3 + n))
                    if not checked(rec, cfg, mon):
                        return
                    for i in list(mon.result.population) + [mon.result.best_solution]:
                        if sorted(map(repr, i["genotype"])) != want:
                            rec.fail("labels %r: a generation or the best solution contains %r" % (word, i["genotype"]))
                    rec.state((mode, repr(word), mut, n, tr))
                    rec.done(1, len(mon.calls))
    rec.sample("%s: %d label sets" % (mode, len(LABELS)))


LIMIT = {"quick": 120.0, "thorough": 1800.0}
BOUNDS = {"quick": "closure: all parent pairs of domains up to 60 elements x all outcomes of crossover+mutation "
                   "(mutation coin at both ends); monitored runs of all algorithms and operators; 20 kinds of input data; ordered populations of user labels"}
ALGOS = ["binary", "gray", "cat", "order", "vega", "vega_gray", "ffga", "ffga_gray"]


def items(tier):
    t = tier == "thorough"
    out = [("closure[%d]" % i, "closure", dict(index=i, level=0.5)) for i in range(len(CASES))]
    out += [("data[%s]" % a, "data_kinds", dict(algo=a)) for a in ALGOS]
    out += [("labels[%s]" % m, "labels", dict(mode=m)) for m in ("facade", "collector")]
    out += [("domains[%s]" % a, "domains", dict(algo=a)) for a in ALGOS]
    return out + run_items(["o_domain"], parts=16, count=4 if t else 1, streams=3 if t else 1)
