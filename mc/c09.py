"""C09: balanced (roulette) and ranked selection.  Unit draws are kept symbolic (core.LazyUnit): every comparison the
code makes with them branches, so all outcomes of a pair are enumerated with their exact probabilities."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items
from .c08 import weak_orders, compositions, verify, pick, shortest, Counter, VALUES


def mid_ranks(scores):
    """rank 1 is the worst, equal scores share the mean of their ranks"""
    out = []
    for s in scores:
        lo = sum(x < s for x in scores)
        eq = sum(x == s for x in scores)
        out.append(Fraction(2 * lo + eq + 1, 2))
    return out


TOL = Fraction(1, 10 ** 9)        # floating-point rounding of the shares


def situation(scores, n, pairs, ascending=False, same=False, ranks=None, junk=None, at=None):
    d = scored(scores, n=n, genotypes=alike(len(scores), list(scores), same), multi=ranks is not None)
    d.children_percent = (pairs + 0.5) / n
    age(d, mixed(list(scores)) if at is None else at)
    if ascending:
        d.population.is_sorted = True
    if ranks is not None:
        for ind, r in zip(d.population, ranks):
            ind["rank"] = r
    if junk is not None:
        for i, ind in enumerate(d.population):
            ind["selection_rank"] = junk[i % len(junk)]
    return d


def exact(rec, cls, scores, shares, n=None, pairs=1, retries=0, op=None, **kw):
    """joint distribution of all pairs over all cells"""
    n = len(scores) if n is None else n
    tag = "%s scores=%r num_individ=%d pairs=%d" % (cls.__name__, scores, n, pairs)
    op = op or cls()
    S = sum(map(Fraction, shares))
    p = [Fraction(w) / S for w in shares]
    make = lambda: situation(scores, n, pairs, **kw)
    H = 2 * pairs + retries
    got = shortest(lambda: (lambda d: lambda: pick(op, d))(make()),
                   key=(cls.__name__, len(scores), n, pairs))
    if got != H - retries:
        rec.notes["draws per pair differ from two"] += 1
        H = got + got // 2 * retries
    before = Counter(map(essence, make().population))
    cell = {}

    def run():
        cell["d"] = make()
        return pick(op, cell["d"])
    dist = Counter()
    for lf in explore(run, units=LAZY, horizon=H):
        rec.leaf(lf)
        if lf.exc is not None:
            rec.fail("%s: raised %r" % (tag, lf.exc), trace=lf.trace)
            return
        if lf.cut:
            continue
        r = tuple(lf.result)
        if len(r) != 2 * pairs or any(r[i] == r[i + 1] for i in range(0, len(r), 2)):
            rec.fail("%s: parents %r" % (tag, r), trace=lf.trace)
            return
        if r not in dist:
            verify(rec, cell["d"], before, r, tag)
        dist[r] += lf.weight
    for r in itertools.product(range(len(scores)), repeat=2 * pairs):
        if any(r[i] == r[i + 1] for i in range(0, len(r), 2)):
            continue
        want = Fraction(1)
        for i in r:
            want *= p[i]
        want *= sum(p[r[0]] ** t for t in range(retries + 1))
        if abs(dist[r] - want) > TOL:
            rec.fail("%s: parents %r have probability %s instead of %s" % (tag, r, dist[r], want))
            return
    rec.state((cls.__name__, tuple(scores), n, pairs, retries, repr(kw)))
    rec.sample("%s: %d pair outcomes with exact probabilities" % (tag, len(dist)))


def edge(rec, cls, scores, shares, n=None, **kw):
    """extremes and values next to every boundary between shares: the outcome is an individual, and off the boundary
    the right one"""
    n = len(scores) if n is None else n
    tag = "%s scores=%r" % (cls.__name__, scores)
    S = sum(map(Fraction, shares))
    cum, us = Fraction(0), [LOW, HIGH, 5e-324, 2.0 ** -53, 0.5]
    for w in shares:
        cum += Fraction(w) / S
        f = float(cum)
        us += [f, math.nextafter(f, 0), math.nextafter(f, 1), f - 1e-12, f + 1e-12]
    us = sorted({min(max(u, 0.0), HIGH) for u in us})
    op = cls()
    before = Counter(map(essence, situation(scores, n, 1, **kw).population))
    for lf in explore(lambda: pick(op, situation(scores, n, 1, **kw)), units=us, horizon=2):
        rec.leaf(lf)
        if lf.exc is not None:
            rec.fail("%s: raised %r for random values %r" % (tag, lf.exc, [us[c] for c in lf.choices]))
            return
        if lf.cut:
            continue
        if len(lf.result) != 2 or lf.result[0] == lf.result[1]:
            rec.fail("%s: parents %r for random values %r" % (tag, lf.result, [us[c] for c in lf.choices]))
            return
    rec.state(("edge", cls.__name__, tuple(scores)))


class Sweep(Driver):
    """first unit draw fixed, the rest fair"""

    def __init__(self, u, at=0):
        self.u, self.at, self.i, self.g = u, at, 0, OrigRandom(3)

    def below(self, n):
        return self.g._randbelow(n)

    def unit(self):
        self.i += 1
        if self.i > 5000:
            raise Horizon()
        return self.u if self.i - 1 == self.at else self.g.random()


def measure(rec, cls, scores, shares, n=None, M=600, **kw):
    """share of [0,1) that selects each individual as first parent, to within the sweep's resolution"""
    n = len(scores) if n is None else n
    tag = "%s scores=%r" % (cls.__name__, scores)
    S = float(sum(shares))
    op = cls()
    cnt = Counter()
    for i in range(M):
        set_driver(Sweep((i + 0.5) / M))
        r = pick(op, situation(scores, n, 1, **kw))
        cnt[r[0]] += 1
        rec.done(1, 1)
    if len(cnt) == 1 and len(shares) > 4:
        rec.notes["swept draw does not decide the parent"] += 1
        return
    for i, w in enumerate(shares):
        if abs(cnt[i] / M - float(w) / S) > 1.5 / M:
            rec.fail("%s: individual %d has share %.4f instead of %.4f" % (tag, i, cnt[i] / M, float(w) / S))
            return
    rec.state(("measure", cls.__name__, tuple(scores)))


B, R = "BalancedSelection", "RankedSelection"


def balanced(rec, alphabet, n, part, parts, extra=0):
    vs = list(itertools.product(alphabet, repeat=n + extra))[part::parts]
    for c, v in enumerate(vs):
        scale = (1, 0.125, 3, 1024.0)[c % 4]
        exact(rec, G.BalancedSelection, [x * scale for x in v], v, n=n, ascending=list(v) == sorted(v),
              ranks=[1 + (i * 2) % 3 for i in range(n + extra)] if c % 2 else None)
        edge(rec, G.BalancedSelection, [x * 0.1 for x in v], v, n=n)
    if part == 0:
        exact(rec, G.BalancedSelection, [2] * (n + extra), [1] * (n + extra), n=n, same=True)


def ranked(rec, n, part, parts, how="all", extra=0):
    vs = (weak_orders if how == "all" else compositions)(n + extra)
    for c, v in enumerate(vs[part::parts]):
        sc = [VALUES[c % 4][x] for x in v]
        exact(rec, G.RankedSelection, sc, mid_ranks(v), n=n, ascending=list(v) == sorted(v),
              ranks=[1 + (i * 2) % 3 for i in range(n + extra)] if c % 2 else None,
              junk=[5, 0.25, 9] if c % 3 == 1 else None)
        edge(rec, G.RankedSelection, sc, mid_ranks(v), n=n)


def more_pairs(rec):
    for v in [(1, 1), (1, 2), (3, 1), (1, 1, 1), (1, 2, 1), (2, 1, 1)]:
        exact(rec, G.BalancedSelection, list(v), v, pairs=2)
        exact(rec, G.RankedSelection, [-1] + list(v[1:]), mid_ranks([-1] + list(v[1:])), pairs=2 if len(v) == 2 else 1)
    for v in [(1, 2), (1, 1, 2), (1, 2, 3), (2, 5, 1)]:
        for r in (1, 2):
            if sum(v) ** (r + 2) < 3000:
                exact(rec, G.BalancedSelection, list(v), v, retries=r)
                exact(rec, G.RankedSelection, list(v), mid_ranks(v), retries=1)


def shares_sweep(rec, which):
    """larger or awkward score vectors, measured by sweeping the first draw"""
    if which == 0:
        vecs = [[1.0 / (1 + r) for r in rk] for rk in ([1, 1, 2, 3, 5], [1, 2, 2, 4], [1] * 6, [3, 1, 1, 2, 9, 4, 1],
                                                       [1, 7])]
        vecs += [[1e-300, 2e-300, 1e-300], [1e6, 2e6, 3e6, 1.5e6], [0.3, 0.1, 0.2, 0.7, 0.1, 0.6], [1, 1000], [1000, 1, 1],
                 [5, 5, 5, 5, 0.001], [1 + (i * 7) % 5 for i in range(70)], [1.0 / (1 + i % 9) for i in range(110)]]
        for v in vecs:
            measure(rec, G.BalancedSelection, v, v)
            if len(v) > 9:
                continue
            measure(rec, G.BalancedSelection, v, v, n=max(1, len(v) - 1))
            edge(rec, G.BalancedSelection, v, v)
        for v in [[1000, 1000, 0.01], [0.01, 1000, 1000], [1000, 0.01, 1000, 5], [1, 1e-7, 1], [1e-9, 2e-9, 1], [1e8, 1, 1e8]]:
            exact(rec, G.BalancedSelection, v, v)
    elif which == 2:
        for n, M in ((75, 1600), (130, 3000)):
            for pat in (lambda i: i, lambda i: -i, lambda i: i // 3, lambda i: (i * 7) % n):
                v = [pat(i) for i in range(n)]
                measure(rec, G.RankedSelection, v, mid_ranks(v), M=M)
    else:
        for n in (6, 9, 14, 21, 30):
            for pat in (lambda i: i, lambda i: -i, lambda i: i // 2, lambda i: (i * 5) % n, lambda i: (i * i) % 7,
                        lambda i: -1, lambda i: min(i, 3) - 4):
                v = [pat(i) for i in range(n)]
                measure(rec, G.RankedSelection, v, mid_ranks(v), M=300)
                if n < 10:
                    edge(rec, G.RankedSelection, v, mid_ranks(v))


def history(rec):
    """operators and populations used again with other scores: shares follow the current ones"""
    for cls in (G.BalancedSelection, G.RankedSelection):
        for seq in itertools.permutations([(1, 2, 3), (3, 1, 1), (2, 2, 1, 1)], 3):
            for late in (0, 1, 3, 5, 8, 10):
                op = cls()
                for i, v in enumerate(seq):
                    exact(rec, cls, list(v), v if cls is G.BalancedSelection else mid_ranks(v), op=op, at=late * (i + 1))
        # one population, scores changed between selections
        for a, b in itertools.product([(1, 2, 3), (3, 3, 1), (2, 1, 2)], repeat=2):
            sh = b if cls is G.BalancedSelection else mid_ranks(b)
            S = float(sum(sh))
            cnt = Counter()
            M = 120
            for i in range(M):
                op = cls()
                d = situation(list(a), 3, 1)
                set_driver(Stream(1))
                op.execute(d)
                for ind, s in zip(d.population, b):
                    ind["score"] = s
                set_driver(Sweep((i + 0.5) / M))
                cnt[pick(op, d)[0]] += 1
                rec.done(2)
            for i, w in enumerate(sh):
                if abs(cnt[i] / M - float(w) / S) > 1.5 / M:
                    rec.fail("%s: stale shares after scores changed from %r to %r" % (cls.__name__, a, b), got=cnt)
            rec.state((cls.__name__, a, b))


def counts(rec):
    for cls in (G.BalancedSelection, G.RankedSelection):
        for n in list(range(2, 16)) + [20, 31, 50, 100]:
            for cp in (0.0, 0.1, 0.29, 0.3, 0.5, 0.57, 0.58, 0.7, 0.8, 0.95, 0.99, 1.0, 0.125, 0.955, 2 / 3):
                for extra in (0, 1, 2):
                    sc = [1 + (i * 7) % (n + extra) for i in range(n + extra)]
                    d = scored(sc, n=n, multi=True)
                    d.children_percent = cp
                    before = Counter(map(essence, d.population))
                    set_driver(Stream(n))
                    r = pick(cls(), d)
                    tag = "%s n=%d members=%d children_percent=%r" % (cls.__name__, n, n + extra, cp)
                    if len(r) != 2 * int(cp * n):
                        rec.fail("%s: %d parents instead of %d" % (tag, len(r), 2 * int(cp * n)))
                    verify(rec, d, before, r, tag)
                    if any(r[i] == r[i + 1] for i in range(0, len(r), 2)):
                        rec.fail("%s: pair consists of one individual twice" % tag)
                    rec.done(1, 1)
                    rec.state((cls.__name__, n, cp, extra))


BOUNDS = {"quick": "balanced: all score vectors over {1,2,3} (2-4 individuals), {1,4} (2-5) and scaled/awkward ones; ranked: "
                   "all weak orders of 2-5 individuals and all tie patterns of 6; every outcome, with its exact "
                   "probability, of the two draws of a pair (two pairs and up to two retries for the smallest); all pairs of "
                   "boundary/extreme values; ranked up to 130 individuals by sweeping the first draw; sizes up to 100 on a fair stream",
          "thorough": "as quick with all weak orders of 6 individuals, tie patterns of 7-8, score vectors over {1,2,3,5} of 4, {1,2,3} of 5, {1,3} of 7"}
ASSUMPTIONS = ["scores for balanced selection are positive and of comparable size",
               "the code turns each unit random value into an individual through at most one interval per individual"]


def items(tier):
    t = tier == "thorough"
    out = []
    for al, n, parts, ex in [((1, 2, 3), 2, 1, 0), ((1, 2, 3), 3, 2, 0), ((1, 2, 3), 3, 8, 1), ((1, 4), 5, 8, 0),
                             ((1, 2, 3), 1, 1, 1), ((1, 2), 3, 2, 2), ((1, 2, 5), 4, 8, 0), ((1, 10), 6, 4, 0)] + (
                                 [((1, 2, 3, 5), 4, 16, 0), ((1, 2, 3), 5, 16, 0), ((1, 3), 7, 16, 0)] if t else []):
        for p in range(parts):
            out.append(("balanced[%s,n=%d+%d,%d]" % (al, n, ex, p), "balanced",
                        dict(alphabet=al, n=n, part=p, parts=parts, extra=ex)))
    for n, parts, how, ex in [(2, 1, "all", 0), (3, 2, "all", 0), (4, 6, "all", 0), (3, 6, "all", 1), (5, 16, "all", 0),
                              (6, 8, "comp", 0), (5, 8, "comp", 1)] + ([(6, 32, "all", 0), (7, 16, "comp", 0), (8, 16, "comp", 0)] if t else []):
        for p in range(parts):
            out.append(("ranked[n=%d+%d,%s,%d]" % (n, ex, how, p), "ranked",
                        dict(n=n, part=p, parts=parts, how=how, extra=ex)))
    out += [("more_pairs", "more_pairs", {}), ("sweep[0]", "shares_sweep", {"which": 0}),
            ("sweep[1]", "shares_sweep", {"which": 1}), ("sweep[2]", "shares_sweep", {"which": 2}), ("history", "history", {}), ("counts", "counts", {})]
    return out + run_items(["o_roulette"], count=2 if t else 1)
