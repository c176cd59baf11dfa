"""C08: tournament selection.  All random outcomes of all tournaments of small populations; the joint distribution of
the pairs is computed exactly and compared with 'best of k distinct uniformly drawn individuals, twice'."""
import itertools
from math import comb, prod
from .core import *
from .util import *
from .oracle import monitored, run_items, of

VALUES = {0: [-7.5, -2, 0, 0.25, 3, 40, 41, 50.5, 1000], 1: [float("-inf"), -1, -0.5, 1, 1.5, 1e9, 2e9, 1e30, 1e31],
          2: [0.1, 0.2, 0.30000000000000004, 0.5, 0.9, 1.0, 1.5, 2.5, 7],
          3: [1 + i * 2.0 ** -48 for i in range(9)]}


def weak_orders(n):
    """all rankings with ties of n individuals, as level vectors"""
    return [v for v in itertools.product(range(n), repeat=n) if set(v) == set(range(max(v) + 1))]


def compositions(n):
    """one weak order per multiset of tie sizes, individuals in a few positions"""
    out = []
    for cut in itertools.product((0, 1), repeat=n - 1):
        v = [0]
        for c in cut:
            v.append(v[-1] + c)
        out += [tuple(v), tuple(reversed(v)), tuple(v[1::2] + v[::2])]
    return sorted(set(out))


def win(levels, k):
    """probability that the winner of a tournament has this level"""
    n = len(levels)
    p = {}
    for lv in set(levels):
        lo = sum(x < lv for x in levels)
        le = sum(x <= lv for x in levels)
        p[lv] = Fraction(comb(le, k) - comb(lo, k), comb(n, k))
    return p


def pick(op, d):
    op.execute(d)
    return [p["obj_score"] - 1000 for p in d.parents]


_short = {}
LARGEST = 400000               # executions of one configuration (at most 331776 with tournaments drawn by sample())


def shortest(make, key=None, runs=400):
    """number of branching draws of an execution without retries (the minimum seen over fair streams); also notes how many such executions there are"""
    if key in _short:
        return _short[key][0]
    best = None
    for s in range(runs):
        drv = set_driver(Deviate(s))
        make()()
        log = [n for n in drv.log if n is None or n > 1]
        if best is None or len(log) < best[0]:
            best = len(log), prod(n or 2 for n in log)
    if key is not None:
        _short[key] = best
    return best[0]


def too_large(rec, key):
    """the code draws in a way that makes this configuration's tree too large (none is with sample() of k of n)"""
    if _short[key][1] <= LARGEST:
        return False
    rec.notes["configurations with too many outcomes, not explored"] += 1
    return True


def verify(rec, d, before, ids, tag):
    """structural part for one execution"""
    if Counter(map(essence, d.population)) != before:
        rec.fail("%s: selection changed the population's individuals" % tag)
    if len({id(p) for p in d.parents} | {id(p) for p in d.population}) != len(d.parents) + len(d.population):
        rec.fail("%s: parents are not independent copies" % tag)
    if len({id(p["genotype"]) for p in d.parents} | {id(p["genotype"]) for p in d.population}) != \
            len(d.parents) + len(d.population):
        rec.fail("%s: parents share genotype storage" % tag)
    for p in d.parents:
        if essence(p) not in before:
            rec.fail("%s: a parent is not an individual of the generation" % tag, parent=p)


Counter = collections.Counter


def joint(rec, levels, k, n, pairs, vals, ascending, same=False, op=None, retries=0):
    """all random outcomes of `pairs` pairs; len(levels) individuals, num_individ n"""
    scores = [VALUES[vals][x] for x in levels]
    op = op or G.TournamentSelection(k)
    tag = "scores=%r k=%d num_individ=%d pairs=%d%s" % (scores, k, n, pairs, " equal genotypes" if same else "")

    def make():
        d = scored(scores, n=n, genotypes=alike(len(scores), (scores, k, n), same))
        d.children_percent = (pairs + 0.5) / n
        age(d, sum((i + 1) * x for i, x in enumerate(levels)) + len(levels) + k + vals)
        if ascending:
            d.population.is_sorted = True
        return d

    key = type(op).__name__, k, len(levels), n, pairs, len(set(levels))
    H = shortest(lambda: (lambda d: lambda: pick(op, d))(make()), key)
    if too_large(rec, key):
        return
    H += H // 2 * retries                       # one pair only: that many repeated second tournaments
    d0 = make()
    before = Counter(map(essence, d0.population))
    cell = {}

    def run():
        d = make()
        cell["d"] = d
        return pick(op, d)

    dist = Counter()
    first = True
    for lf in explore(run, horizon=H):
        rec.leaf(lf)
        if lf.exc is not None:
            rec.fail("%s: raised %r" % (tag, lf.exc), trace=lf.trace)
            return
        if lf.cut:
            continue
        r = lf.result
        if len(r) != 2 * pairs:
            rec.fail("%s: %d parents instead of %d" % (tag, len(r), 2 * pairs), trace=lf.trace)
            return
        for i in range(0, len(r), 2):
            if r[i] == r[i + 1]:
                rec.fail("%s: pair consists of the same individual twice" % tag, trace=lf.trace, pair=r[i:i + 2])
                return
        if first or dist[tuple(r)] == 0:
            verify(rec, cell["d"], before, r, tag)
            first = False
        dist[tuple(r)] += lf.weight
    # distribution over levels; pairs of different levels are untouched by the distinctness retries and ties
    p = win(levels, k)
    got = Counter()
    for r, w in dist.items():
        lv = tuple(levels[i] for i in r)
        if all(lv[i] != lv[i + 1] for i in range(0, len(lv), 2)):
            got[lv] += w
    lvls = sorted(set(levels))
    for lv in itertools.product(lvls, repeat=2 * pairs):
        if any(lv[i] == lv[i + 1] for i in range(0, len(lv), 2)):
            continue
        want = Fraction(1)
        for x in lv:
            want *= p[x]
        want *= sum(p[lv[0]] ** t for t in range(retries + 1))
        if got[lv] != want:
            rec.fail("%s: parents with scores %r have probability %s instead of %s (%d retries)" % (
                tag, [VALUES[vals][x] for x in lv], got[lv], want, retries))
            return
    # individuals that are beaten in every tournament never win, the others can
    seen = {i for r in dist for i in r}
    floor = sorted(levels)[k - 1]
    if any(levels[i] < floor for i in seen):
        rec.fail("%s: one of the k-1 worst is a parent" % tag)
    if len(set(levels)) == len(levels) and seen != {i for i in range(len(levels)) if levels[i] >= floor}:
        rec.fail("%s: some individual can never be a parent" % tag, seen=sorted(seen))
    if not dist:
        rec.fail("%s: no pair of different individuals can be selected" % tag)
    rec.state((levels, k, n, pairs, vals, ascending, same))
    rec.sample("%s: %d pair outcomes" % (tag, len(dist)))


def orders(rec, n, k, part, parts, how="all", extra=0, pairs=1):
    vs = (weak_orders if how == "all" else compositions)(n + extra)
    for c, v in enumerate(vs[part::parts]):
        asc = list(v) == sorted(v)
        joint(rec, v, k, n, pairs, c % 4, asc)
    if part == 0:
        joint(rec, tuple([0] * (n + extra)), k, n, pairs, 0, False, same=True)


def retried(rec, n, k, retries):
    """second tournaments repeated after the first parent won again follow the same distribution"""
    for c, v in enumerate(itertools.permutations(range(n))):
        joint(rec, v, k, n, 1, c % 4, list(v) == sorted(v), retries=retries)


def reuse(rec):
    """one operator object over changing populations"""
    op = G.TournamentSelection(2)
    for levels, n in [((0, 1, 2), 3), ((2, 1, 0, 3), 3), ((1, 0, 2), 3), ((0, 1, 1, 2, 3), 4), ((3, 2, 1, 0), 4)]:
        for k in (2,):
            joint(rec, levels, k, n, 1, 0, False, op=op)
    op = G.TournamentSelection(3)
    for levels, n in [((0, 1, 2, 3), 4), ((3, 2, 1, 0, 3), 4), ((1, 0, 2, 0), 4)]:
        joint(rec, levels, 3, n, 1, 2, False, op=op)


def again(rec):
    """a second selection in the same data replaces the parents and does not touch the first result"""
    for seed in range(8):
        d = scored([3, 1, 2, 5, 4])
        op = G.TournamentSelection(2)
        set_driver(Stream(seed))
        op.execute(d)
        first, vals = d.parents, essences(d.parents)
        op.execute(d)
        if essences(first) != vals:
            rec.fail("an earlier selection's parents changed")
        if len(d.parents) != 2 * int(0.95 * 5):
            rec.fail("%d parents on the second selection" % len(d.parents))
        rec.done(2)
        rec.state((seed, essences(d.parents)))


def counts(rec):
    """number of pairs for every size and percentage; distinctness and the winners' floor on fair streams"""
    for n in list(range(3, 24)) + [30, 37, 50, 64, 99, 100, 101, 200]:
        for cp in (0.0, 0.1, 0.25, 0.29, 0.3, 0.333, 0.5, 0.57, 0.58, 0.7, 0.8, 0.9, 0.95, 0.99, 1.0, 0.125, 0.955, 2 / 3, 0.004):
            for extra in (0, 1):
                k = 2 + (n + extra) % (n - 2)
                lv = [(i * 7) % (n + extra) for i in range(n + extra)]
                d = scored(lv, n=n)
                d.children_percent = cp
                age(d, n + extra + int(cp * 1000))
                before = Counter(map(essence, d.population))
                set_driver(Stream(n))
                r = pick(G.TournamentSelection(k), d)
                tag = "n=%d members=%d children_percent=%r k=%d" % (n, n + extra, cp, k)
                if len(r) != 2 * int(cp * n):
                    rec.fail("%s: %d parents instead of %d" % (tag, len(r), 2 * int(cp * n)))
                verify(rec, d, before, r, tag)
                floor = sorted(lv)[k - 1]
                for i in range(0, len(r), 2):
                    if r[i] == r[i + 1]:
                        rec.fail("%s: pair consists of one individual twice" % tag)
                    if lv[r[i]] < floor or lv[r[i + 1]] < floor:
                        rec.fail("%s: one of the k-1 worst is a parent" % tag)
                rec.done(1, 1)
                rec.state((n, cp, extra))


def extremes(rec):
    """tournament of all but one individual: the pair is decided, whatever is drawn"""
    for n in (3, 4, 5, 8, 20, 40, 60, 130, 250):
        for rot in range(0, n, max(1, n // 5)):
            lv = [(i + rot) % n for i in range(n)]
            for s in range(12 if n <= 60 else 2):
                d = scored(lv)
                d.children_percent = 1.0 if n <= 60 else 1.5 / n
                set_driver(Stream(s, 10 ** 7))
                r = pick(G.TournamentSelection(n - 1), d)
                for i in range(0, len(r), 2):
                    if {lv[r[i]], lv[r[i + 1]]} != {n - 1, n - 2}:
                        rec.fail("n=%d k=%d: parents %r" % (n, n - 1, [lv[r[i]], lv[r[i + 1]]]))
                rec.done(1, 1)
            rec.state((n, rot))


def reachable(rec):
    """large populations, tournaments of two on fair streams: a winner beats or ties half of everybody on average, and every
    tenth of the better half occurs as a parent, wherever it stands in the list"""
    for n in (60, 150, 260):
        for rot in (0, n // 2, n - 10):
            lv = [(i + rot) % n for i in range(n)]
            got = Counter()
            for s in range(8):
                d = scored(lv)
                d.children_percent = 1.0
                age(d, s + rot)
                set_driver(Stream(s))
                for i in pick(G.TournamentSelection(2), d):
                    got[i * 10 // n] += 1
                rec.done(1, 1)
            # 16 n draws, every tenth of the list has a chance of at least 1%
            if len(got) != 10:
                rec.fail("n=%d: members at some places of the list are never selected" % n, tenths=sorted(got))
            rec.state((n, rot))


BOUNDS = {"quick": "all weak score orders of 3-5 individuals (6: one per tie pattern, several positions) x tournament "
                   "sizes x member counts num_individ..num_individ+2, every outcome of the draws of one pair (two pairs "
                   "for 3-4 individuals) up to the first retry; sizes up to 260 on fair streams; situations placed in generations 0..600",
          "thorough": "as quick, all weak orders of 6 for k=2 and tie patterns for k=3,4; 25-individual populations"}
ASSUMPTIONS = ["a retry of the distinct-parents loop repeats the tournament independently (retries are cut)",
               "which of several equally scored tournament members wins is left open"]


def items(tier):
    t = tier == "thorough"
    out = []

    def add(n, k, parts, how="all", extra=0, pairs=1):
        for p in range(parts):
            out.append(("pairs[n=%d+%d,k=%d,x%d,%s,%d]" % (n, extra, k, pairs, how, p), "orders",
                        dict(n=n, k=k, part=p, parts=parts, how=how, extra=extra, pairs=pairs)))
    add(3, 2, 1)
    add(3, 2, 1, extra=1)
    add(3, 2, 4, pairs=2)
    add(3, 2, 4, extra=2)
    add(4, 2, 1)
    add(4, 3, 2)
    add(4, 2, 4, extra=1)
    add(4, 3, 4, "comp", extra=1)
    add(5, 2, 4)
    add(5, 3, 4, "comp")
    add(5, 4, 8, "comp" if not t else "all")
    add(6, 2, 4, "all" if t else "comp")
    if t:
        add(5, 3, 8)
        add(6, 3, 8, "comp")
        add(6, 4, 8, "comp")
        add(7, 2, 8, "comp")
        add(4, 2, 8, "comp", pairs=2)
        add(8, 2, 8, "comp")
    for n, k, r in [(3, 2, 1), (3, 2, 2), (4, 2, 1)] + ([(4, 3, 1), (4, 2, 2), (5, 2, 1)] if t else []):
        out.append(("retries[n=%d,k=%d,r=%d]" % (n, k, r), "retried", dict(n=n, k=k, retries=r)))
    out += [("reuse", "reuse", {}), ("again", "again", {}), ("counts", "counts", {}), ("extremes", "extremes", {}), ("reachable", "reachable", {})]
    return out + run_items(["o_tournament"], count=2 if t else 1)
