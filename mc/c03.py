"""C03: the first generation, for all random outcomes."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items
from . import grid as GR

SHARED = ["a", "b"]
BIN = [((0, 1, 1),), ((0, 3, 1),), ((0, 1, 1), (0, 1, 1)), ((-1, 1, 0.3),), ((0, 3, 1), (5, 6, 1)), ((0, 15, 1),),
       ((0, 63, 1),), ((0, 1023, 1),), ((-5.12, 5.12, 0.1), (0, 1, 1))]
CAT = [(["a"],), (["a", "b"],), ((0, 4, 2),), ((0, 5, 2),), ((3, 3, 1),), (["x", "y", "z"], (0, 1, 1)),
       ((0, 7, 4),), ((1, 6, 3), (0, 5, 3)), ((-7, 0, 5),), ((1, 10, 3), ["q"], [0, 1]), ([1, "1", 2.5, None],), ((-3, 3, 1),), (list(range(100)),), ((0, 200, 1),),
       [["a", "b"], ["c", "d"]], [SHARED] * 6, [SHARED] * 9, ((0, 1, 1),) * 7, [[0, 1, 2]] * 5]
ORD = [(0, 1, 2), (0, 1, 1), (0, 2, 2), (0, 3, 4), (1, 4, 2), (-2, 1, 3), (0, 4, 3), (0, 5, 1), (0, 8, 3), (0, 5, 5),
       (5, 5, 1), (-30, 40, 2), (0, 6, 4)]


def domain(kind, gens):
    if kind in ("binary", "gray"):
        b = sum(gene_bits(g, kind) for g in gens)
        return [tuple(t) for t in itertools.product("01", repeat=b)]
    if kind == "cat":
        return list(itertools.product(*[cat_values(g) for g in gens]))
    return list(itertools.permutations(range(gens[0], gens[1] + 1), gens[2]))


def check_pop(rec, kind, gens, pop, n, inp, live):
    if len(pop) != n:
        rec.fail("first generation has %d individuals instead of %d" % (len(pop), n), gens=gens)
    for i, ind in enumerate(pop):
        if not genotype_ok(kind, gens, ind["genotype"]):
            rec.fail("individual outside the domain", kind=kind, gens=gens, genotype=ind["genotype"])
    for i, x in enumerate(inp or []):
        got = pop[i]["phenotype"] if kind in ("binary", "gray") else pop[i]["genotype"]
        if not (len(got) == len(x) and all(a == b or (not isinstance(a, str) and not isinstance(b, str) and
                                                      a is not None and b is not None and close(a, b))
                                           for a, b in zip(got, x))):
            rec.fail("user individual %d is not individual %d of the first generation" % (i, i), gens=gens, given=x,
                     got=got)
    if len({id(i) for i in pop}) != len(pop) or len({id(i["genotype"]) for i in pop}) != len(pop):
        rec.fail("individuals share storage", kind=kind, gens=gens)
    if {id(i["genotype"]) for i in pop} & {id(x) for x in live or []}:
        rec.fail("an individual shares storage with the user's input", kind=kind, gens=gens)


def uniform(rec, kind, index, n, k):
    """all random outcomes for n individuals, k of them given by the user"""
    gens = {"binary": BIN, "gray": BIN, "cat": CAT, "order": ORD}[kind][index]
    dom = domain(kind, gens)
    if kind in ("binary", "gray"):
        given = [decode(list(dom[(3 * i + 1) % len(dom)]), gens, kind) for i in range(k)]
    else:
        given = [list(dom[(3 * i + 1) % len(dom)]) for i in range(k)]
    live = [None]

    def go():
        inp = copy.deepcopy(given) if k else None
        live[0] = inp
        p = new_pop(kind, n, gens, inp)
        if inp is not None and inp != given:
            rec.fail("user's input population modified", gens=gens)
        return p
    dist = collections.Counter()
    set_driver(Stream(1))
    need = min((lambda d: (set_driver(d), new_pop(kind, n, gens, copy.deepcopy(given) if k else None), d.draws)[2])(
        Stream(s)) for s in range(40))
    leaves = 0
    for lf in explore(go, units=LAZY, cap=5000, horizon=need + 1):
        rec.leaf(lf)
        leaves += 1
        if lf.exc is not None:
            rec.fail("fill raised %r" % lf.exc, kind=kind, gens=gens, n=n)
            return
        if lf.cut:
            continue
        check_pop(rec, kind, gens, lf.result, n, given, live[0])
        key = tuple(tuple(i["genotype"]) for i in lf.result)
        dist[key[k:]] += lf.weight
        rec.state((kind, gens, key))
        if any(i["score"] is not None for i in lf.result):
            rec.fail("individual of the first generation already has a score", gens=gens)
    want = set(itertools.product(dom, repeat=n - k))
    if n > k:
        if set(dist) != want and {repr(x) for x in dist} != {repr(x) for x in want}:
            rec.fail("not every element of the domain can occur", kind=kind, gens=gens,
                     missing=list(want - set(dist))[:3], extra=list(set(dist) - want)[:3])
        elif len(set(dist.values())) != 1:
            rec.fail("random individuals are not uniformly distributed", kind=kind, gens=gens,
                     weights=sorted(dist.items(), key=lambda t: t[1])[:2])
    rec.sample("%s %r n=%d given=%d: %d outcomes, %d populations" % (kind, gens, n, k, leaves, len(dist)))


def sizes(rec, part):
    """larger first generations on fair streams, every count of user individuals, and rejection of too many"""
    for kind in ("binary", "gray", "cat", "order"):
        for gi, gens in enumerate(GR.GENS[kind]):
            for n in ((1, 2, 3, 5, 10), (17, 50, 100))[part]:
                for k in sorted({0, 1, n // 2, n - 1, n} - {-1}):
                    pts = GR.points(kind, gens, k)
                    if kind in ("binary", "gray"):
                        pts = [[grid_near(g, v, kind) for g, v in zip(gens, p)] for p in pts]
                    inp = [tuple(p) if (i + gi) % 3 == 0 else p for i, p in enumerate(copy.deepcopy(pts))]
                    keep = copy.deepcopy(inp)
                    gk = copy.deepcopy(gens)
                    set_driver(Stream(GR.SEED * 100 + n))
                    pop = new_pop(kind, n, gens, inp if k else None)
                    if inp != keep or gens != gk:
                        rec.fail("user's input modified", kind=kind, gens=gens)
                    check_pop(rec, kind, gens, list(pop), n, [list(x) for x in inp], inp)
                    rec.state((kind, gens, n, k))
                    rec.done(1, 1)
                for k in (n + 1, n + 2, 2 * n + 1):
                    set_driver(Stream(1))
                    try:
                        p = new_pop(kind, n, gens, GR.points(kind, gens, k))
                    except Exception:
                        pass
                    else:
                        rec.fail("an input population larger than num_individ was accepted", kind=kind, n=n, k=k,
                                 size=len(p))
                    rec.done(1, 1)
    rec.sample("sizes up to 100, user individuals 0..n")


FINE = [((0, 2 ** 17 - 1, 1),), ((0, 100000, 1),), ((-5.12, 5.12, 1e-5), (0, 7, 1)), ((0, 2 ** 31, 1),), ((0, 2 ** 33 - 1, 1),),
        ((0, 1, 1e-12),), ((0, 3, 1), (-1, 1, 1e-9), (0, 1, 1)), ((0, 1, 1),) * 70]
HUGE = [((0, 20000, 1),), ((-70000, 70000, 1),), ((5, 30004, 3), ["a", "b"]), (list(range(0, 3000, 2)), (0, 1500, 1)), ((0, 10 ** 6, 1),), ((0, 999, 1), (0, 299, 1)),
        (list(range(1000)), (0, 600, 2)), ((-500, 500, 1),)]
WIDE_ORD = [(0, 1000, 3), (5, 40000, 2), (-300, 300, 40), (0, 5000, 60), (0, 99, 100), (1, 128, 128), (0, 600, 1),
            (1000, 1999, 10), (-999, 0, 5), (0, 63, 64), (0, 30000, 5)]


def extremes(rec, kind, index):
    """domains too large to enumerate: all executions that differ from a fair stream in one draw, and the executions whose
    draws are all minimal or all maximal.  Binary: every bit takes both values whatever the rest; categorical: the first and
    last value and every power-of-two position occur"""
    gens = {"cat": HUGE, "order": WIDE_ORD}.get(kind, FINE)[index]
    seen = [set() for _ in new_pop_quiet(kind, gens)]
    n = 0

    def note(ind):
        if not genotype_ok(kind, gens, ind["genotype"]):
            rec.fail("individual outside the domain", kind=kind, gens=gens, genotype=ind["genotype"])
        for s, x in zip(seen, ind["genotype"]):
            s.add(x)
    for drv in (Fixed(lambda m: 0, LOW), Fixed(lambda m: m - 1, HIGH)):
        set_driver(drv)
        try:
            note(new_pop(kind, 1, gens)[0])
        except Horizon:
            rec.notes["constant choices rejected for ever"] += 1
    for seed in range(3):
        for pop, at in deviations(lambda: new_pop(kind, 1, gens), GR.SEED * 10 + seed):
            note(pop[0])
            n += 1
            rec.state((kind, index, seed, at))
            rec.done(1, 1)
    # 400 x 100 fair individuals: a value of a domain of up to 1100 values is missed with probability below 1e-12
    full = kind == "order" and gens[1] - gens[0] < 1100 or kind == "cat" and max(len(cat_values(g)) for g in gens) < 1100
    each = 100 if not full or kind == "cat" or gens[2] < 50 else 20
    for seed in range(400 if full else 60):
        set_driver(Stream(GR.SEED * 1000 + seed))
        for ind in new_pop(kind, each, gens):
            note(ind)
        rec.done(1, 1)
    for i, s in enumerate(seen):
        if kind in ("cat", "order"):
            dom = cat_values(gens[i]) if kind == "cat" else list(range(gens[0], gens[1] + 1))
            if full and each == 100 and s != set(dom):
                rec.fail("some values never occur", gens=gens, position=i, values=sorted(set(dom) - s, key=repr)[:5])
                return
            # 1200 to 40000 fair draws: every tenth of the domain is hit (miss probability below 1e-130)
            pos = {v: j for j, v in enumerate(dom)}
            tenth = {pos[v] * 10 // len(dom) for v in s}
            if len(tenth) < min(10, len(dom)):
                rec.fail("a part of the domain never occurs", gens=gens, gene=i, tenths=sorted(tenth))
        elif len(s) != 2:
            rec.fail("bit %d never varies" % i, kind=kind, gens=gens)
    rec.sample("%s %r: %d single-draw deviations" % (kind, gens, n))


def new_pop_quiet(kind, gens):
    set_driver(Stream(1))
    return new_pop(kind, 1, gens)[0]["genotype"]


def grid_near(g, v, kind):
    k = 2 ** gene_bits(g, kind) - 1
    return g[0] + (g[1] - g[0]) * round((v - g[0]) / (g[1] - g[0]) * k) / k


BOUNDS = {"quick": "all random outcomes: 9 binary (both codings), 19 categorical, 13 ordered domains of up to 1024 "
                   "elements with 1 individual, domains of up to 16 elements with 2, up to 4 with 3; every number of "
                   "user individuals; sizes up to 100 on fair streams; genes up to 40 bits and 10^6 values: all single-draw "
                   "deviations from 3 streams and the constant choices"}


def items(tier):
    t = tier == "thorough"
    out = []
    for kind, fam in (("binary", BIN), ("gray", BIN), ("cat", CAT), ("order", ORD)):
        for i, gens in enumerate(fam):
            size = len(domain(kind, gens))
            for n, lim in ((1, 5000), (2, 130 if t else 30), (3, 16 if t else 6), (4, 4)):
                if size <= lim:
                    for k in range(n + 1):
                        if size ** (n - k) <= 20000:
                            out.append(("%s[%d] n=%d given=%d" % (kind, i, n, k), "uniform",
                                        dict(kind=kind, index=i, n=n, k=k)))
    out += [("extremes[%s,%d]" % (k, i), "extremes", dict(kind=k, index=i))
            for k in ("binary", "gray", "cat", "order")
            for i in range(len({"cat": HUGE, "order": WIDE_ORD}.get(k, FINE)))]
    out += [("sizes[%d]" % i, "sizes", dict(part=i)) for i in range(2)]
    return out + run_items(["o_first"], count=3 if t else 1)
