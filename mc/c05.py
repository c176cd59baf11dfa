"""C05: crossover, all random outcomes, with symbolic genes that reveal their origin."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items, recombined
from . import grid as GR


def situation(kind, pairs, offs=None, pop_extra=1):
    """GaData with the given parent pairs (lists of genotypes)"""
    L = len(pairs[0][0])
    d = G.GaData(num_generations=3)
    p = POP[kind]()
    p.num_individ = 2 * len(pairs)
    for pr in pairs:
        for g in pr:
            ind = dict(genotype=list(g), score=1.5, obj_score=2.5)
            if kind in ("binary", "gray"):
                ind["phenotype"] = [0.0]
            p.add_dict(**ind)
    for i, ind in enumerate(p):
        ind["idx_individ"] = i
    d.population = p
    par = POP[kind]()
    for ind in p:
        par.append(copy.deepcopy(ind))
    d.parents = par
    return d


def run_cross(cls, kind, pairs, noff):
    op = cls()
    if noff is not None:
        op.num_offsprings = noff
    d = situation(kind, pairs)
    b = Snap(d)
    op.execute(d)
    a = Snap(d)
    return b, a


def verify(rec, cls, pairs, noff, b, a, trace=None):
    per = noff or 1
    kids = [c["genotype"] for c in a.chi]
    if len(kids) != per * len(pairs):
        rec.fail("%d children for %d pairs" % (len(kids), len(pairs)), cls=cls.__name__, pairs=pairs, trace=trace)
        return None
    for i, k in enumerate(kids):
        p, q = pairs[i // per]
        if not recombined(cls, k, list(p), list(q)):
            rec.fail("child is not a recombination of its own two parents", cls=cls.__name__, parents=(p, q), child=k,
                     trace=trace)
    for c in a.chi:
        if c.get("score") is not None or c.get("obj_score") is not None or c.get("phenotype") is not None:
            rec.fail("child is not unevaluated", cls=cls.__name__, child=c)
        if c.get("feasible") is not True:
            rec.fail("child carries a feasibility verdict", cls=cls.__name__, child=c)
    if essences(a.pop) != essences(b.pop) or essences(a.par) != essences(b.par):
        rec.fail("crossover changed parents or population", cls=cls.__name__, parents=pairs, trace=trace)
    if len(set(a.cids)) != len(a.cids) or set(a.cids) & set(a.ids + a.pids):
        rec.fail("offspring share storage", cls=cls.__name__, parents=pairs, trace=trace)
    if len(set(a.cgids)) != len(a.cgids) or set(a.cgids) & set(a.gids + a.pgids):
        rec.fail("offspring share genotype storage", cls=cls.__name__, parents=pairs, trace=trace)
    return kids


def sym(L, base="ab"):
    return [[c + str(i) for i in range(L)] for c in base]


def provenance(rec, cls, L, noff):
    """one pair of fully distinguishable parents of length L, all random outcomes"""
    C = getattr(G, cls)
    order = C is G.OrderCrossover
    if order:
        pair = (list(range(L)), list(range(L, 2 * L)))
    else:
        pair = tuple(sym(L))
    dist = collections.Counter()
    cov = Cover()
    for lf in explore_all(lambda: run_cross(C, "order" if order else "cat", [pair], noff), cov, (cls, L, noff), cap=20000):
        rec.leaf(lf)
        if lf.exc is not None:
            rec.fail("raised %r" % lf.exc, cls=cls, L=L, trace=lf.choices)
            return
        if lf.cut:
            continue
        kids = verify(rec, C, [pair], noff, *lf.result, trace=lf.choices)
        for k in kids or []:
            dist["".join("a" if x in pair[0] else "b" for x in k)] += lf.weight
            rec.state((cls, k))
    other = {"a": "b", "b": "a"}
    need = set()
    if C is G.OnePointCrossover:
        need = {"a" * i + "b" * (L - i) for i in range(1, L)} or {"a", "b"}
        need |= {"".join(other[c] for c in s) for s in need}
    elif C is G.UniformCrossover:
        need = {"".join(t) for t in itertools.product("ab", repeat=L)}
        if set(dist) == need and not cov.cut and not cov.partial and len(set(dist.values())) != 1:
            rec.fail("mixtures are not equally probable", L=L, weights={k: str(v) for k, v in dist.items()})
    elif L >= 3:
        need = {"b" * i + "a" * (j - i) + "b" * (L - j) for i in range(1, L) for j in range(i + 1, L)}
        need |= {"".join(other[c] for c in s) for s in need}
    if need - set(dist) and cov.complete(len(need)):
        rec.fail("not every cut point and role can occur", cls=cls, L=L, missing=sorted(need - set(dist))[:5])
    rec.sample("%s length %d, offspring %s: %d patterns" % (cls, L, noff, len(dist)))


def far(rec, cls, L):
    """long genotypes whose outcomes are too many: all single-draw deviations from fair streams; every position comes from
    either parent, any two positions in all four combinations (160 streams more: missing one is rarer than 1e-15)"""
    C = getattr(G, cls)
    pair = tuple(sym(L))
    first, second = set(pair[0]), set(pair[1])
    single = [set() for _ in range(L)]
    double = {(i, j): set() for j in range(L) for i in range(j)}

    def streams():
        for seed in range(160):
            set_driver(Stream(GR.SEED * 500 + seed))
            yield run_cross(C, "cat", [pair], None), None
    bias = collections.defaultdict(lambda: (set(), collections.Counter()))
    from . import core as driving
    for nsrc, src in enumerate([streams()] + [deviations(lambda: run_cross(C, "cat", [pair], None), GR.SEED * 10 + s, units=max(32, 4096 // L)) for s in range(4)]):
        for (b, a), at in src:
            kids = verify(rec, C, [pair], None, b, a, trace=at)
            for k in kids or []:
                o = [x in second for x in k]
                for i in range(L):
                    single[i].add(o[i])
                for (i, j), x in double.items():
                    if len(x) < 4:
                        x.add((o[i], o[j]))
                rec.state((cls, k))
                if at is not None and len(kids) == 1:
                    log = driving._driver.log
                    vals, seen = bias[nsrc, at[0], log[at[0]]]
                    vals.add(at[1])
                    seen[tuple(o), len(log)] += 1
            rec.done(1, 1)
    for (_, at, n), (vals, seen) in bias.items():
        # a draw all of whose values were tried and which decides one position only (and nothing about later draws)
        if n is not None and len(vals) == n == sum(seen.values()) and len(seen) == 2 or n is None and len(seen) == 2:
            (p, m), (q, l) = seen
            if m == l and sum(x != y for x, y in zip(p, q)) == 1 and (len(set(seen.values())) != 1 if n is not None else abs(seen[p, m] - seen[q, l]) > 0.1 * len(vals)):
                rec.fail("mixtures are not equally probable: draw %d (%r values) decides position %d as %r" % (
                    at, n, [x != y for x, y in zip(p, q)].index(True), sorted(seen.values())), cls=cls, L=L)
    if any(len(x) != 2 for x in single):
        rec.fail("a position can come from one parent only", cls=cls, L=L, position=[len(x) for x in single].index(1))
    if any(len(x) != 4 for x in double.values()):
        rec.fail("two positions are not taken independently", cls=cls, L=L,
                 positions=[i for i, x in double.items() if len(x) != 4][:3])
    rec.sample("%s length %d: single-draw deviations of 4 streams" % (cls, L))


def cuts(rec, cls, L):
    """long genotypes: all single-draw deviations from 4 streams and 30 L more streams; every cut point occurs, near and far apart
    (missing one on fair streams is rarer than 1e-12)"""
    C = getattr(G, cls)
    order = C is G.OrderCrossover
    pair = (list(range(L)), list(range(L, 2 * L))) if order else tuple(sym(L))
    mine = set(pair[0])
    seen, gaps = set(), set()

    def go():
        return run_cross(C, "order" if order else "cat", [pair], None)

    def streams():
        for seed in range(30 * L):
            set_driver(Stream(GR.SEED * 70001 + seed))
            yield go(), None
    for src in [streams()] + [deviations(go, GR.SEED * 10 + s, units=64) for s in range(4)]:
        for (b, a), at in src:
            for k in verify(rec, C, [pair], None, b, a, trace=at) or []:
                o = [x in mine for x in k]
                at_ = [i for i in range(1, L) if o[i] != o[i - 1]]
                seen.update(at_)
                if len(at_) > 1:
                    gaps.add(at_[-1] - at_[0])
                rec.state((cls, L, tuple(at_)))
            rec.done(1, 1)
    if set(range(1, L)) - seen:
        rec.fail("not every cut point can occur", cls=cls, L=L, missing=sorted(set(range(1, L)) - seen)[:5])
    if gaps and (max(gaps) < 0.85 * L or min(gaps) > 2):
        rec.fail("the cut points are never %s" % ("far apart" if max(gaps) < 0.85 * L else "close together"), cls=cls, L=L)
    rec.sample("%s length %d" % (cls, L))


def perms(rec, L, part, parts, noff):
    """order crossover, all pairs of ordered selections"""
    dom = list(itertools.permutations(range(L)))
    if L <= 3:
        dom += list(itertools.permutations(range(L + 1), L))
    prs = list(itertools.product(dom, repeat=2))[part::parts]
    if L == 3:
        # equal numbers that are different objects, negative numbers
        base = prs[::5]
        for conv in (lambda x: int("%d" % (100000 + x)), lambda x: -1 - x, lambda x: int("-%d" % (7000 + x))):
            prs += [([conv(x) for x in p], [conv(x) for x in q]) for p, q in base]
    if L in (3, 4):
        # a user's own labels
        for lab in ([1, "1", 2, "2"], ["a", "A", "aa", "Aa"], ["ab", "a", "abc", "b"], [(1, 2), (1,), None, ""], [0, -1, 0.5, "0"]):
            prs += [([lab[x % 4] for x in p], [lab[x % 4] for x in q]) for p, q in (prs[:36] if L == 3 else prs[::19])
                    if all(isinstance(x, int) and 0 <= x < 4 for x in (*p, *q))]
    for pair in prs:
        for lf in explore_all(lambda: run_cross(G.OrderCrossover, "order", [pair], noff), Cover(), ("perms", L, noff)):
            rec.leaf(lf)
            if lf.exc is not None:
                rec.fail("raised %r" % lf.exc, pair=pair, trace=lf.choices)
                return
            if lf.cut:
                continue
            kids = verify(rec, G.OrderCrossover, [pair], noff, *lf.result, trace=lf.choices)
            for k in kids or []:
                rec.state((pair, k))
    rec.sample("order crossover length %d: %d parent pairs" % (L, len(prs)))


def bits(rec, cls, L, noff):
    """all pairs of binary parents"""
    C = getattr(G, cls)
    dom = list(itertools.product("01", repeat=L))
    for pair in itertools.product(dom, repeat=2):
        for lf in explore_all(lambda: run_cross(C, "binary", [pair], noff), Cover(), ("bits", cls, L, noff)):
            rec.leaf(lf)
            if lf.exc is not None:
                rec.fail("raised %r" % lf.exc, cls=cls, pair=pair, trace=lf.choices)
                return
            if lf.cut:
                continue
            verify(rec, C, [pair], noff, *lf.result, trace=lf.choices)
            rec.state((cls, pair, lf.choices))


def several(rec, cls, L, npairs, noff):
    """several pairs of distinguishable parents: every child comes from its own pair"""
    C = getattr(G, cls)
    order = C is G.OrderCrossover
    if order:
        pairs = [(list(range(L)), list(range(L))[::-1]), (list(range(1, L)) + [0], [L - 1] + list(range(L - 1))),
                 (list(range(L)), list(range(1, L)) + [0])][:npairs]
        pairs = [([x + 100 * i for x in p], [x + 100 * i for x in q]) for i, (p, q) in enumerate(pairs)]
    else:
        pairs = [tuple(sym(L, b)) for b in ("ab", "cd", "ef")][:npairs]
    for lf in explore_all(lambda: run_cross(C, "order" if order else "cat", pairs, noff), Cover(),
                          ("several", cls, L, npairs, noff)):
        rec.leaf(lf)
        if lf.exc is not None:
            rec.fail("raised %r" % lf.exc, cls=cls, trace=lf.choices)
            return
        if lf.cut:
            continue
        kids = verify(rec, C, pairs, noff, *lf.result, trace=lf.choices)
        rec.state((cls, kids))


def reuse(rec, cls):
    """one operator object used on genotypes of changing length, and large genotypes"""
    C = getattr(G, cls)
    order = C is G.OrderCrossover
    op = C()
    for L in (4, 9, 3, 30, 2, 64, 5, 100):
        for s in range(12):
            if order:
                r = OrigRandom(s * 100 + L)
                a = list(range(L))
                b = a[:]
                r.shuffle(b)
                pairs = [(a, b), (b, a[::-1])]
            else:
                pairs = [tuple(sym(L)), tuple(sym(L, "cd"))]
            d = situation("order" if order else "cat", pairs)
            b = Snap(d)
            set_driver(Stream(s + 1))
            op.execute(d)
            verify(rec, C, pairs, None, b, Snap(d))
            rec.state((cls, L, s))
            rec.done(1, 1)


CL = ["OnePointCrossover", "TwoPointCrossover", "UniformCrossover", "OrderCrossover"]
BOUNDS = {"quick": "1 pair: all random outcomes for lengths 1..8 (two-point/one-point up to 12 and 48/130; order from 2, and 34), both "
                   "settings of num_offsprings; all pairs of permutations up to length 4 (also of user labels of mixed types), of bit strings up to 3; 2-3 "
                   "pairs up to length 4; reuse over lengths 2..100; uniform crossover of length 12, 16, 20, 33, 70, 130: all single-draw "
                   "deviations from 4 streams"}


def items(tier):
    t = tier == "thorough"
    out = []
    for c in CL:
        for noff in (None, 2):
            top = 10 if c == "UniformCrossover" and t else 8 if c == "UniformCrossover" else 16 if t else 12
            if noff and not hasattr(getattr(G, c)(), "num_offsprings"):
                continue
            long = {"OnePointCrossover": (33, 130), "TwoPointCrossover": (22, 48) + ((80,) if noff else ()), "OrderCrossover": (21, 34),
                    "UniformCrossover": ()}[c]
            for L in list(range(2 if c == "OrderCrossover" else 1, top + 1)) + list(long):
                out.append(("one_pair[%s,%d,%s]" % (c, L, noff), "provenance", dict(cls=c, L=L, noff=noff)))
            for L in (2, 3, 4):
                for k in (2, 3):
                    if c == "UniformCrossover" and L * k > (12 if t else 9):
                        continue
                    out.append(("pairs[%s,%d,%d,%s]" % (c, L, k, noff), "several",
                                dict(cls=c, L=L, npairs=k, noff=noff)))
            if c != "OrderCrossover":
                for L in range(1, 5 if t else 4):
                    out.append(("bits[%s,%d,%s]" % (c, L, noff), "bits", dict(cls=c, L=L, noff=noff)))
        if c == "UniformCrossover":
            out += [("far[%s,%d]" % (c, L), "far", dict(cls=c, L=L)) for L in (12, 16, 20, 33, 70, 130)]
        else:
            out += [("cuts[%s,%d]" % (c, L), "cuts", dict(cls=c, L=L)) for L in ((70, 130, 300) if c != "OrderCrossover" else (70, 130))]
        out.append(("reuse[%s]" % c, "reuse", dict(cls=c)))
    for L in (2, 3, 4) + ((5,) if t else ()):
        for part in range(1 if L < 5 else 8):
            for noff in (None, 2) if hasattr(G.OrderCrossover(), "num_offsprings") else (None,):
                out.append(("perms[%d,%d,%s]" % (L, part, noff), "perms",
                            dict(L=L, part=part, parts=1 if L < 5 else 8, noff=noff)))
    return out + run_items(["o_crossover"], count=3 if t else 1)
