"""The configurations every monitored-run layer goes through (deterministic, no sampling of options).

small(): tiny runs, used where many random streams or all random outcomes are explored.
wide(): one or a few runs each, options cycled so that every option value meets every algorithm, sizes up to
100 individuals / 60 generations / 30 genes.
"""
import itertools, os
from . import core
from .util import G, Cfg

SEED = int(os.environ.get("VERIF_SEED", "1") or 1) if os.environ.get("VERIF_SEED", "1").lstrip("-").isdigit() else 1


def num(v):
    return v if isinstance(v, (int, float)) else sum(ord(c) for c in str(v))


# ---- single-objective functions (pure)
def f_sum(x): return sum(num(v) for v in x)
def f_neg(x): return -sum((i + 1) * num(v) for i, v in enumerate(x)) - 3
def f_const(x): return 7
def f_levels(x): return int(sum(num(v) * (i + 2) for i, v in enumerate(x)) * 4) % 3
def f_mod(x): return int(sum(num(v) * (3 * i + 5) for i, v in enumerate(x)) * 10) % 17 - 6
def f_zero(x): return (int(sum(num(v) * (i + 1) for i, v in enumerate(x)) * 8) % 5) * 0.5
def f_seq(x): return [int(sum(num(v) * (i + 1) for i, v in enumerate(x)) * 10) % 13 - 2.5]


def f_wave(x):
    s = 0.0
    for i, v in enumerate(x):
        s += num(v) * num(v) / 40.0 - (i + 1) * (num(v) % 3)
    return s


SINGLE = [f_sum, f_mod, f_levels, f_neg, f_zero, f_const, f_wave, f_seq]


# ---- several objectives
def m_conflict(x): return (sum(num(v) for v in x), -sum(num(v) for v in x))
def m_two(x): return (int(sum(num(v) * (i + 2) for i, v in enumerate(x)) * 10) % 11, int(num(x[0]) * 7) % 5)
def m_three(x): return [(num(x[0]) - 2) ** 2, num(x[-1]), int(sum(num(v) for v in x) * 10) % 7]
def m_tie(x): return (int(num(x[0])) % 2, int(num(x[-1])) % 2)
def m_same(x): return (1, 2)
def m_neg(x): return (-num(x[0]), -(num(x[-1]) * 10 % 7), 0)


MULTI = [(m_conflict, 2), (m_two, 2), (m_three, 3), (m_tie, 2), (m_neg, 3), (m_same, 2)]


# ---- conditional objectives: value list matching the conditions
def cond_obj(conditions, nobj=1):
    """deterministic values, conditions violated at some points and exactly met at others"""
    def f(x):
        t = int(sum(num(v) * (2 * i + 3) for i, v in enumerate(x)) * 10)
        out = []
        for j, c in enumerate(conditions):
            if c == "optimize":
                out.append((t * (j + 2)) % 19 - 4.5)
            elif c == "<=":
                out.append((t // (j + 1)) % 4 - 2)
            else:
                out.append(((t // (j + 2)) % 3 - 1) * 0.5)
        return tuple(out)
    f.__name__ = "cond" + "".join(c[0] for c in conditions)
    return f


def static_tables(conditions):
    rest = [c for c in conditions if c != "optimize"]
    inf = float("inf")
    return dict(
        equality_intervals={i: [(0.0, 0.4), (0.4, 2), (2, inf)] for i, c in enumerate(rest) if c == "!="},
        equality_r_coef={i: [2 + i, 3 + i, 5] for i, c in enumerate(rest) if c == "!="},
        inequality_intervals={i: [(0, 1), (1, 2), (2, inf)] for i, c in enumerate(rest) if c == "<="},
        inequality_r_coef={i: [1 + i, 4, 7 + i] for i, c in enumerate(rest) if c == "<="})


def penalty(which, conditions):
    if which == "dynamic":
        return G.DynamicPenalty()
    if which == "dynamic2":
        return G.DynamicPenalty(delta=2, c=1.5, alpha=1, betta=1)
    if which == "adaptive":
        return G.AdaptivePenalty()
    if which == "adaptive2":
        return G.AdaptivePenalty(delta=3, betta_1=2.0, betta_2=1.5, betta=1)
    return G.StaticPenalty(**static_tables(conditions))


CONDS = [["optimize", "<="], ["<=", "optimize"], ["optimize", "!="], ["!=", "optimize", "<="],
         ["optimize", "<=", "!="], ["<=", "<=", "optimize"], ["!=", "<=", "optimize", "<="],
         ["optimize", "!=", "!=", "<="]]
MCONDS = [["optimize", "optimize", "<="], ["optimize", "<=", "optimize"], ["<=", "optimize", "!=", "optimize"],
          ["optimize", "!=", "optimize", "<=", "optimize"]]
PENALTIES = ["dynamic", "adaptive", "static", "dynamic2", "adaptive2"]

GENS = {
    "binary": [((0, 7, 1),), ((-1, 1, 0.1), (0, 3, 1)), ((0, 1, 1), (0, 1, 1), (0, 1, 1)), ((-5.12, 5.12, 0.01),) * 2,
               ([0, 1, 1],) * 30, ((0.5, 0.75, 0.1), (-100, 100, 0.5), (3, 4, 0.001)), ((0, 1, 1), (0, 15, 1)),
               [(2, 9, 0.3), (-8, -1, 2)], ((0, 7, 1), (0, 5, 1), (1, 6, 1))],
    "cat": [(["a", "b", "c"], (0, 4, 2)), (["x"], ["p", "q"], (1, 3, 1)), ((0, 1, 1),) * 6, ([0, 1, 2, 5],) * 2,
            [["a", "b"]] * 12, ((5, 5, 1), (0, 9, 3), ["u", 3, "w", 2.5]),
            ((0, 7, 4), (1, 6, 3), ["north", "south"])],
    "order": [(0, 3, 4), (0, 5, 3), (1, 4, 2), (0, 9, 10), (-3, 3, 5), (0, 30, 12), (10, 29, 20)],
}
GENS["gray"] = GENS["binary"]

SELECT = [G.TournamentSelection, G.BalancedSelection, G.RankedSelection]
VSELECT = [G.VEGATournamentSelection, G.VEGABalancedSelection, G.VEGARankedSelection]
CROSS = [G.OnePointCrossover, G.TwoPointCrossover, G.UniformCrossover]
CMUT = [G.SwapMutation, G.MovementMutation, G.InversionMutation, G.ShiftMutation]

SIZES = [4, 5, 7, 10, 20]
GENERATIONS = [3, 2, 5, 9, 1, 4]
PERCENTS = [0.95, 0.5, 1.0, 0.3, 0.8, 0.0]
LEVELS = ["normal", 0.35, 0.0, 1.0, "weak", "strong", 0.05, 0.5]
STOPS = [10, None, 0, 2, 1, 100]
TARGETS = [None, 0, 5, -3.5, None, 1]
DATA = [None, 0, "", [1, 2], None, {"k": [1]}, 5, False, (1,), 0.0]


def points(kind, gens, k):
    """k deterministic user individuals inside the domain"""
    out = []
    for i in range(k):
        if kind in ("binary", "gray"):
            out.append([g[0] + (g[1] - g[0]) * (((i + 1) * (j + 2)) % 8) / 7 for j, g in enumerate(gens)])
        elif kind == "cat":
            from .util import cat_values
            out.append([cat_values(g)[(i * (j + 1)) % len(cat_values(g))] for j, g in enumerate(gens)])
        else:
            vals = list(range(gens[0], gens[1] + 1))
            r = i % len(vals)
            out.append((vals[r:] + vals[:r])[:gens[2]])
    return out


class Cycle:
    """deals the values of every option evenly (all values once before any repeats), in an order of its own"""

    def __init__(self):
        self.decks = {}

    def __call__(self, name, values):
        deck, dealt = self.decks.setdefault(name, ([], [0]))
        if not deck:
            deck.extend(range(len(values)))
            core.OrigRandom("%s/%d" % (name, dealt[0])).shuffle(deck)
            dealt[0] += 1
        return values[deck.pop()]


def options(c, kind, gens, n, multi=False, facade=True, nobj=1):
    o = {}
    o["children_percent"] = c("cp", PERCENTS)
    es = c("es", STOPS)
    if es is None and not facade:
        es = 50
    o["early_stop"] = es
    o["mutation_lvl"] = c("lvl", LEVELS)
    o["transfer_parents"] = c("tr", ["best", "random", "best"])
    inp = c("inp", [0, 0, 1, n // 2, n])
    if inp:
        o["input_population"] = points(kind, gens, inp)
    d = c("data", DATA)
    if d is not None:
        o["input_data"] = d
    o["tournament_size"] = min(c("ts", [3, 2, n - 1, 4]), n - 1)
    return o


def wide(count=1, which=("binary", "gray", "cat", "order", "vega", "vega_gray", "ffga", "ffga_gray"),
         conditional=True, big=True):
    """list of configurations; every run of this function gives the same list"""
    out = []
    c = Cycle()
    singles = [a for a in which if not a.startswith(("vega", "ffga"))]
    multis = [a for a in which if a.startswith(("vega", "ffga"))]
    for rep in range(count):
        for algo in singles:
            for gens in GENS[algo]:
                for mode in ("facade", "collector"):
                    n = c("n", SIZES)
                    g = c("g", GENERATIONS)
                    o = options(c, algo, gens, n, facade=mode == "facade")
                    tv = c("target", TARGETS)
                    ops = {}
                    if mode == "collector":
                        ops["selection"] = c("sel", SELECT)
                        if ops["selection"] is not G.TournamentSelection:
                            o.pop("tournament_size")
                        ops["crossover"] = G.OrderCrossover if algo == "order" else c("cross", CROSS)
                        if algo == "order":
                            ops["mutation"] = c("mut", CMUT)
                        if ops["selection"] is G.BalancedSelection and tv is None:
                            tv = 2
                    if tv is not None:
                        o["obj_value"] = tv
                    f = c("f" + mode, SINGLE)
                    if conditional and c("cond", [0, 0, 1]):
                        cl = c("conds", CONDS)
                        o["conditions"] = list(cl)
                        o["penalty"] = penalty(c("pen", PENALTIES), cl)
                        f = cond_obj(cl)
                    out.append(Cfg(algo, gens, f, n=n, g=g, mode=mode, ops=ops, **o))
        for algo in multis:
            kind = "gray" if algo.endswith("gray") else "binary"
            for gens in GENS[kind]:
                for mode in ("facade", "collector"):
                    n = c("mn", [4, 5, 8, 12])
                    g = c("mg", [3, 2, 5, 1, 7])
                    o = options(c, kind, gens, n, multi=True, facade=mode == "facade")
                    f, m = c("mf", MULTI)
                    if conditional and c("mcond", [0, 0, 1]):
                        cl = c("mconds", MCONDS)
                        o["conditions"] = list(cl)
                        o["penalty"] = penalty(c("mpen", PENALTIES), cl)
                        f, m = cond_obj(cl), cl.count("optimize")
                    tv = c("mtarget", [None, 0, 2.5])
                    ops = {}
                    if mode == "collector":
                        if algo.startswith("vega"):
                            ops["selection"] = c("vsel", VSELECT)
                            o["num_objectives"] = m
                            if ops["selection"] is G.VEGABalancedSelection and tv is None:
                                tv = 1
                        else:
                            ops["selection"] = c("fsel", [G.BalancedSelection, G.TournamentSelection,
                                                          G.RankedSelection])
                        if ops["selection"] not in (G.TournamentSelection, G.VEGATournamentSelection):
                            o.pop("tournament_size")
                        elif algo.startswith("ffga"):       # generations = children + front must outnumber the tournament
                            o["tournament_size"] = 2
                            o["children_percent"] = max(o["children_percent"], 0.8)
                        ops["crossover"] = c("mcross", CROSS)
                    if tv is not None and not algo.startswith("ffga"):
                        o["obj_value"] = [tv] * m
                    out.append(Cfg(algo, gens, f, n=n, g=g, mode=mode, ops=ops, **o))
    if big:
        B = GENS["binary"]
        if "binary" in which:
            out.append(Cfg("binary", B[3], f_wave, n=100, g=25, early_stop=None, obj_value=0, mutation_lvl=0.05))
            out.append(Cfg("binary", B[4], f_sum, n=60, g=60, early_stop=None))
            out.append(Cfg("binary", B[0], f_mod, n=40, g=60, early_stop=None, transfer_parents="random"))
            out.append(Cfg("binary", B[1], f_mod, n=30, g=40, mode="collector", early_stop=100, obj_value=3,
                           ops={"selection": G.BalancedSelection, "crossover": G.TwoPointCrossover}))
        if "gray" in which:
            out.append(Cfg("gray", ((-16, 16, 0.01),) * 2, f_wave, n=50, g=30, early_stop=None, mutation_lvl=0.35,
                           obj_value=0))
            out.append(Cfg("gray", B[5], f_neg, n=33, g=40, mode="collector", early_stop=100, tournament_size=5,
                           ops={"selection": G.TournamentSelection, "crossover": G.UniformCrossover}))
        if "cat" in which:
            out.append(Cfg("cat", [list("abcdefghij")] * 10, f_mod, n=100, g=15, early_stop=None, obj_value=0,
                           mutation_lvl=0.1, tournament_size=10))
            out.append(Cfg("cat", GENS["cat"][0], f_levels, n=25, g=50, early_stop=None))
        if "order" in which:
            out.append(Cfg("order", (0, 14, 15), f_mod, n=80, g=15, early_stop=None, mutation_lvl=0.3))
            out.append(Cfg("order", (0, 4, 5), f_mod, n=20, g=60, early_stop=None, transfer_parents="random"))
        if "vega" in which:
            out.append(Cfg("vega", ((0, 100, 0.01),) * 2, m_three, n=24, g=12, early_stop=None, mutation_lvl=0.05))
            out.append(Cfg("vega", ((0, 3, 1),) * 2, m_two, n=12, g=30, early_stop=None, transfer_parents="random"))
        if "ffga" in which:
            out.append(Cfg("ffga", ((0, 100, 0.01),) * 2, m_three, n=16, g=8, early_stop=None, mutation_lvl=0.05))
            out.append(Cfg("ffga", ((0, 7, 1),), m_two, n=8, g=8, early_stop=None, transfer_parents="random"))
    return out


def f_tiny(x): return 1 + f_mod(x) * 2.0 ** -44
def f_huge(x): return f_mod(x) * 1e9 + 0.5
def m_six(x): return tuple(int(sum(num(v) * (i + j + 2) for i, v in enumerate(x)) * (3 + j)) % (5 + j) for j in range(6))
def m_tiny(x): return (1 + m_two(x)[0] * 2.0 ** -44, -m_two(x)[1] * 1e-13)


MANY = ["<=", "!=", "optimize", "<=", "!=", "<=", "<=", "!="]
MMANY = ["<=", "optimize", "!=", "optimize", "<=", "<=", "optimize", "!=", "<=", "optimize"]
LONGGENE = ((0, 1, 1e-12), (-1, 1, 1e-9))


def scale(which=("binary", "gray", "cat", "order", "vega", "vega_gray", "ffga", "ffga_gray"), conditional=True):
    """runs that are long, wide, or need fine arithmetic: hundreds of generations, populations above 100, genotypes above 100
    elements, many conditions, objectives or allowed values, tiny and huge differences between scores"""
    N, B, C, O = None, ((0, 7, 1), (0, 3, 1)), (["a", "b", "c"], (0, 3, 1)), (0, 4, 4)
    out = []

    def add(algo, gens, f, n, g, mode="facade", ops=None, **o):
        o.setdefault("early_stop", N if mode == "facade" else 5000)
        out.append(Cfg(algo, gens, f, n=n, g=g, mode=mode, ops=ops or {}, **o))
    # long
    add("binary", B, f_mod, 4, 620)
    add("gray", B, f_mod, 5, 130, transfer_parents="random")
    add("cat", C, f_mod, 4, 560)
    add("order", O, f_mod, 4, 560)
    add("binary", B, f_mod, 4, 520, mode="collector", ops={"selection": G.RankedSelection})
    add("cat", C, f_zero, 4, 150, mode="collector", obj_value=3, ops={"selection": G.BalancedSelection}, children_percent=1.0)
    add("vega", B, m_two, 4, 150)
    add("ffga", B, m_two, 4, 70)
    add("vega_gray", B, m_conflict, 5, 110, mode="collector", num_objectives=2, ops={"selection": G.VEGARankedSelection})
    for algo, gens, f, es, g in [("binary", B, f_const, 120, 200), ("gray", B, f_const, 75, 90), ("cat", C, f_const, 70, 150),
                                 ("order", O, f_const, 60, 120), ("vega", B, m_same, 55, 120), ("ffga", ((0, 1, 1),), m_same, 52, 60)]:
        add(algo, gens, f, 3 if algo != "ffga" else 2, g, early_stop=es, tournament_size=2, mutation_lvl=0.0)
    # large populations, unusual percentages
    add("binary", ((-5, 5, 0.01),) * 2, f_wave, 160, 3, children_percent=0.955)
    add("gray", ((-5, 5, 0.01),) * 2, f_wave, 220, 3, children_percent=0.333, transfer_parents="random", tournament_size=12)
    add("cat", [list("abcdef")] * 6, f_mod, 150, 3, children_percent=0.6667, tournament_size=40)
    add("order", (0, 9, 8), f_mod, 130, 3, children_percent=0.125, transfer_parents="random")
    add("binary", ((0, 1000, 1),), f_mod, 140, 3, mode="collector", ops={"selection": G.RankedSelection})
    add("cat", [list("abcdef")] * 6, f_mod, 130, 3, mode="collector", obj_value=3, ops={"selection": G.BalancedSelection})
    add("binary", B, f_mod, 60, 3, children_percent=0.02)
    add("vega", ((0, 100, 0.01),) * 2, m_three, 120, 3)
    add("vega_gray", ((0, 100, 0.01),) * 2, m_two, 105, 3, mode="collector", num_objectives=2, obj_value=[1, 1],
        ops={"selection": G.VEGABalancedSelection}, transfer_parents="random")
    add("vega", ((0, 100, 0.01),) * 2, m_six, 90, 3, mode="collector", num_objectives=6, ops={"selection": G.VEGARankedSelection})
    add("ffga", ((0, 100, 0.01),) * 2, m_three, 110, 3)
    add("ffga_gray", ((0, 100, 0.01),) * 3, m_six, 30, 4)
    add("ffga", ((0, 100, 0.01),) * 2, m_conflict, 8, 19, mode="collector", ops={"selection": G.RankedSelection})
    # long genotypes, large domains, fine genes
    add("order", (0, 39, 40), f_mod, 8, 6, mutation_lvl=0.8)
    for m in CMUT:
        add("order", (0, 99, 70), f_mod, 6, 4, mode="collector", ops={"mutation": m}, mutation_lvl=0.7)
    add("binary", ((0, 1, 1),) * 140, f_sum, 8, 5)
    add("gray", ((0, 1, 1),) * 90, f_sum, 8, 5, mode="collector", ops={"crossover": G.TwoPointCrossover}, mutation_lvl="strong")
    add("binary", ((0, 255, 1),) * 12, f_mod, 8, 5, mode="collector", ops={"crossover": G.UniformCrossover}, mutation_lvl="weak")
    add("cat", (list(range(40)), (0, 20000, 1), [str(i) for i in range(80)]) * 4, f_mod, 8, 6, mutation_lvl=0.5)
    add("cat", (["a", "b"],) * 90, f_mod, 6, 4, mode="collector", ops={"crossover": G.OnePointCrossover})
    add("binary", LONGGENE, f_sum, 6, 5, input_population=[[0.123456789012, -0.5], [1, 1], [0, -1]])
    add("gray", LONGGENE, f_sum, 6, 5, input_population=[[0.123456789012, -0.5], [1, 1], [0, -1]])
    add("vega", LONGGENE + ((0, 2 ** 33, 1),), m_two, 6, 5)
    # fine and coarse arithmetic
    for algo, gens in (("binary", B), ("gray", B), ("cat", C), ("order", O)):
        add(algo, gens, f_tiny, 8, 40)
        add(algo, gens, f_huge, 7, 8, obj_value=3)
        add(algo, gens, f_tiny, 6, 9, mode="collector", ops={"selection": G.RankedSelection}, transfer_parents="random")
    add("vega", B, m_tiny, 8, 12)
    add("ffga_gray", B, m_tiny, 6, 12)
    if conditional:
        for algo, gens in (("binary", B), ("cat", C), ("order", O)):
            for w in PENALTIES:
                add(algo, gens, cond_obj(MANY), 6, 6, conditions=list(MANY), penalty=penalty(w, MANY))
            add(algo, gens, cond_obj(CONDS[3]), 4, 130, conditions=list(CONDS[3]), penalty=penalty("dynamic2", CONDS[3]))
            add(algo, gens, cond_obj(CONDS[1]), 4, 130, conditions=list(CONDS[1]), penalty=penalty("adaptive", CONDS[1]), obj_value=1)
        for algo in ("vega", "ffga", "vega_gray"):
            for w in ("dynamic2", "adaptive", "static"):
                add(algo, B, cond_obj(MMANY), 6, 5, conditions=list(MMANY), penalty=penalty(w, MMANY))
        add("vega", B, cond_obj(MCONDS[0]), 4, 120, conditions=list(MCONDS[0]), penalty=penalty("dynamic", MCONDS[0]))
    return [c for c in out if c.algo in which]


def chunk(lst, k):
    return [lst[i::k] for i in range(k) if lst[i::k]]
