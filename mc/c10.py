"""C10: VEGA selections.  All random outcomes of all blocks; the joint distribution over the blocks is the product of
the single-objective distributions, block j looking at score j only."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items
from .c08 import weak_orders, compositions, verify, pick, shortest, too_large, Counter, VALUES, win
from .c09 import mid_ranks, TOL


def situation(table, n, cp, ascending=False, same=False, at=None):
    """table[i][j]: score of individual i for objective j"""
    d = scored([list(r) for r in table], n=n, multi=True, genotypes=alike(len(table), table, same))
    d.children_percent = cp
    age(d, mixed(table) if at is None else at)
    for i, ind in enumerate(d.population):
        ind["rank"] = 1 + i % 2
    return d


def percent(n, m, per):
    cp = m * (per + 0.25) / n
    assert int(cp * n / m) == per
    return cp


def make_op(cls, m, k):
    return cls(m, k) if cls is G.VEGATournamentSelection else cls(m)


def tournament(rec, table, k, n, per=1, op=None, vals=0):
    """table of levels"""
    m = len(table[0])
    scores = [[VALUES[(vals + j) % 4][x] for j, x in enumerate(r)] for r in table]
    tag = "VEGATournament scores=%r k=%d n=%d per objective=%d" % (scores, k, n, per)
    op = op or G.VEGATournamentSelection(m, k)
    cp = percent(n, m, per)
    make = lambda: situation(scores, n, cp)
    key = type(op).__name__, len(table), m, n, per, k
    H = shortest(lambda: (lambda d: lambda: pick(op, d))(make()), key)
    if too_large(rec, key):
        return
    before = Counter(map(essence, make().population))
    cell, dist = {}, Counter()

    def run():
        cell["d"] = make()
        return pick(op, cell["d"])
    total = 2 * m * per
    for lf in explore(run, horizon=H):
        rec.leaf(lf)
        if lf.exc is not None:
            rec.fail("%s: raised %r" % (tag, lf.exc), trace=lf.trace)
            return
        if lf.cut:
            continue
        r = tuple(lf.result)
        if len(r) != total or any(r[i] == r[i + 1] for i in range(0, total, 2)):
            rec.fail("%s: parents %r" % (tag, r), trace=lf.trace)
            return
        if r not in dist:
            verify(rec, cell["d"], before, r, tag)
        dist[r] += lf.weight
    ps = [win([r[j] for r in table], k) for j in range(m)]
    got = Counter()
    block = lambda x: x // (2 * per)
    for r, w in dist.items():
        lv = tuple(table[i][block(x)] for x, i in enumerate(r))
        if all(lv[i] != lv[i + 1] for i in range(0, total, 2)):
            got[lv] += w
    for lv in itertools.product(*[sorted(ps[block(x)]) for x in range(total)]):
        if any(lv[i] == lv[i + 1] for i in range(0, total, 2)):
            continue
        want = Fraction(1)
        for x, l in enumerate(lv):
            want *= ps[block(x)][l]
        if got[lv] != want:
            rec.fail("%s: blocks with levels %r have probability %s instead of %s" % (tag, lv, got[lv], want))
            return
    if not dist:
        rec.fail("%s: no selection possible" % tag)
    rec.state(("t", table, k, n, per))
    rec.sample("%s: %d outcomes" % (tag, len(dist)))


def roulette(rec, cls, table, n, per=1, op=None, scale=1.0):
    """table of positive integers"""
    m = len(table[0])
    scores = [[x * scale for x in r] for r in table]
    tag = "%s scores=%r n=%d per objective=%d" % (cls.__name__, scores, n, per)
    op = op or cls(m)
    cp = percent(n, m, per)
    make = lambda: situation(scores, n, cp)
    shares = []
    for j in range(m):
        col = [r[j] for r in table]
        w = col if cls is G.VEGABalancedSelection else mid_ranks(col)
        S = sum(map(Fraction, w))
        shares.append([Fraction(x) / S for x in w])
    total = 2 * m * per
    H = shortest(lambda: (lambda d: lambda: pick(op, d))(make()), key=(type(op).__name__, len(table), m, n, per, 0))
    before = Counter(map(essence, make().population))
    cell, dist = {}, Counter()

    def run():
        cell["d"] = make()
        return pick(op, cell["d"])
    for lf in explore(run, units=LAZY, horizon=H):
        rec.leaf(lf)
        if lf.exc is not None:
            rec.fail("%s: raised %r" % (tag, lf.exc), trace=lf.trace)
            return
        if lf.cut:
            continue
        r = tuple(lf.result)
        if len(r) != total or any(r[i] == r[i + 1] for i in range(0, total, 2)):
            rec.fail("%s: parents %r" % (tag, r), trace=lf.trace)
            return
        if r not in dist:
            verify(rec, cell["d"], before, r, tag)
        dist[r] += lf.weight
    for r in itertools.product(range(len(table)), repeat=total):
        if any(r[i] == r[i + 1] for i in range(0, total, 2)):
            continue
        want = Fraction(1)
        for x, i in enumerate(r):
            want *= shares[x // (2 * per)][i]
        if abs(dist[r] - want) > TOL:
            rec.fail("%s: parents %r have probability %s instead of %s" % (tag, r, dist[r], want))
            return
    rec.state((cls.__name__, table, n, per))
    rec.sample("%s: %d outcomes" % (tag, len(dist)))


def tables(cols, m):
    return [tuple(zip(*c)) for c in itertools.product(cols, repeat=m)]


def tour_all(rec, n, members, m, k, part, parts, how="all", per=1):
    cols = (weak_orders if how == "all" else compositions)(members)
    if how == "few":
        cols = [tuple(range(members)), tuple(reversed(range(members))),
                tuple((i + 1) % members for i in range(members)), tuple(i // 2 for i in range(members))]
    for c, t in enumerate(tables(cols, m)[part::parts]):
        tournament(rec, t, k, n, per, vals=c % 4)


def roul_all(rec, cls, n, members, m, part, parts, cols, per=1):
    for c, t in enumerate(tables(cols, m)[part::parts]):
        roulette(rec, getattr(G, cls), t, n, per, scale=(1, 0.125, 64.0, 2.0 ** -30, 2.0 ** 40)[c % 5])


def history(rec):
    """one operator object, populations with other scores and sizes one after the other"""
    seqs = [[((0, 2), (1, 1), (2, 0)), ((2, 0), (0, 1), (1, 2)), ((0, 0), (1, 1), (2, 2), (3, 0))]]
    for seq in seqs:
        for order in itertools.permutations(seq):
            op = G.VEGATournamentSelection(2, 2)
            for t in order:
                tournament(rec, t, 2, 3, op=op)
    for cls in (G.VEGABalancedSelection, G.VEGARankedSelection):
        for order in itertools.permutations([((1, 3), (2, 1)), ((3, 1), (1, 1)), ((1, 1), (1, 2), (2, 1))]):
            op = cls(2)
            for t in order:
                roulette(rec, cls, t, len(t), op=op)


def counts(rec):
    for cls in (G.VEGATournamentSelection, G.VEGABalancedSelection, G.VEGARankedSelection):
        for m in (1, 2, 3, 4, 5, 8, 12):
            for n in (3, 4, 5, 6, 7, 10, 13, 20, 37, 60, 130):
                for cp in (0.0, 0.1, 0.3, 0.5, 0.58, 0.8, 0.95, 1.0, 0.125, 0.955):
                    for extra in (0, 1):
                        table = [[1 + (i * (2 * j + 3)) % (n + extra) for j in range(m)] for i in range(n + extra)]
                        k = 2 + (n + extra) % (n - 2) if n > 3 else 2
                        d = situation(table, n, cp)
                        before = Counter(map(essence, d.population))
                        set_driver(Stream(n + m))
                        r = pick(make_op(cls, m, k), d)
                        per = int(cp * n / m)
                        tag = "%s m=%d n=%d members=%d children_percent=%r k=%d" % (cls.__name__, m, n, n + extra, cp, k)
                        if len(r) != 2 * m * per:
                            rec.fail("%s: %d parents instead of %d" % (tag, len(r), 2 * m * per))
                            continue
                        verify(rec, d, before, r, tag)
                        if any(r[i] == r[i + 1] for i in range(0, len(r), 2)):
                            rec.fail("%s: pair consists of one individual twice" % tag)
                        if cls is G.VEGATournamentSelection:
                            for j in range(m):
                                floor = sorted(row[j] for row in table)[k - 1]
                                for i in r[2 * per * j:2 * per * (j + 1)]:
                                    if table[i][j] < floor:
                                        rec.fail("%s: objective %d: one of its k-1 worst is a parent" % (tag, j))
                        rec.done(1, 1)
                        rec.state((cls.__name__, m, n, cp, extra))


def decided(rec):
    """tournaments of all but one individual: the two best for objective j make up block j, whatever is drawn"""
    for n, m in [(3, 1), (3, 2), (3, 3), (4, 2), (5, 2), (6, 3), (9, 2), (12, 4), (20, 3), (16, 7), (14, 12), (25, 22), (110, 2)]:
        for rot in range(n) if n < 100 else (0, 55):
            table = [[(i * (1 if j % 2 == 0 else -1) + rot * (j + 1)) % n for j in range(m)] for i in range(n)]
            d = situation(table, n, 1.0 if n < 100 else percent(n, m, 1))
            set_driver(Stream(rot, 10 ** 7))
            r = pick(G.VEGATournamentSelection(m, n - 1), d)
            per = n // m if n < 100 else 1
            if len(r) != 2 * per * m:
                rec.fail("n=%d m=%d: %d parents" % (n, m, len(r)))
                continue
            for j in range(m):
                for x in range(per):
                    a, b = r[2 * (j * per + x)], r[2 * (j * per + x) + 1]
                    if {table[a][j], table[b][j]} != {n - 1, n - 2}:
                        rec.fail("n=%d m=%d objective %d: parents %r" % (n, m, j, (table[a], table[b])))
            rec.done(1, 1)
            rec.state((n, m, rot))


class Nth(Driver):
    """unit draw number `at` takes the value u; earlier ones alternate 0.25 and 0.75, the rest is fair"""

    def __init__(self, at, u):
        self.at, self.u, self.i, self.g = at, u, 0, OrigRandom(3)

    def below(self, n):
        return self.g._randbelow(n)

    def unit(self):
        i = self.i
        self.i += 1
        if i > 5000:
            raise Horizon()
        return self.u if i == self.at else (0.25, 0.75)[i % 2] if i < self.at else self.g.random()


def sweep(rec, cls, part):
    """large populations: the share of [0,1) that selects each individual as first parent of a block"""
    C = getattr(G, cls)
    cases = [(70, 1, 1200), (80, 2, 900), (110, 3, 900), (24, 6, 400), (40, 9, 400), (26, 13, 240)][part:part + 1]
    for n, m, M in cases:
        table = [[1 + (i * (2 * j + 3) + j) % (9 if cls == "VEGABalancedSelection" or j else n) for j in range(m)] for i in range(n)]
        cp = percent(n, m, 1)
        for j in range(m):
            cnt = Counter()
            for x in range(M):
                set_driver(Nth(2 * j, (x + 0.5) / M))
                r = pick(make_op(C, m, 2), situation(table, n, cp))
                cnt[r[2 * j]] += 1
                rec.done(1, 1)
            col = [row[j] for row in table]
            w = col if C is G.VEGABalancedSelection else mid_ranks(col)
            S = float(sum(w))
            if len(cnt) == 1:
                rec.notes["swept draw does not decide the parent"] += 1
                continue
            for i in range(n):
                if abs(cnt[i] / M - float(w[i]) / S) > 1.5 / M:
                    rec.fail("%s n=%d m=%d objective %d: individual %d has share %.4f instead of %.4f" % (
                        cls, n, m, j, i, cnt[i] / M, float(w[i]) / S))
                    return
            rec.state((cls, n, m, j))


BOUNDS = {"quick": "tournament: all pairs of weak orders of 3 individuals (2 objectives), selected orders for 4 individuals, "
                   "3 objectives and two pairs per objective, every random outcome up to the first retry; balanced and "
                   "ranked: all score tables over {1,2,3} for 2 individuals x 2-3 objectives, all pairs of weak "
                   "orders of 3 individuals, selected orders of 4 individuals and for 3 objectives, all outcomes with exact probabilities; shares in populations of 70-110 by sweeping the first draw of a block; 1-8 objectives and up to 130 individuals on a "
                   "fair stream"}
ASSUMPTIONS = ["retries of the distinct-parents loop repeat the draw independently (retries are cut)",
               "scores for balanced selection are positive"]


def items(tier):
    t = tier == "thorough"
    out = []

    def tour(n, members, m, k, parts, how, per=1):
        for p in range(parts):
            out.append(("tournament[n=%d/%d,m=%d,k=%d,x%d,%s,%d]" % (n, members, m, k, per, how, p), "tour_all",
                        dict(n=n, members=members, m=m, k=k, part=p, parts=parts, how=how, per=per)))
    tour(3, 3, 1, 2, 1, "all")
    tour(3, 3, 2, 2, 8, "all")
    tour(3, 4, 2, 2, 8, "few")
    tour(4, 4, 2, 3, 8, "few") if t else None
    tour(4, 4, 1, 3, 1, "all")
    tour(3, 3, 1, 2, 1, "few", per=2)
    if t:
        tour(3, 3, 3, 2, 16, "few")
        tour(4, 4, 2, 2, 16, "comp")
    three = list(itertools.product((1, 2, 3), repeat=2))
    up = lambda vs: [tuple(x + 1 for x in v) for v in vs]
    for cls in ("VEGABalancedSelection", "VEGARankedSelection"):
        def roul(n, members, m, parts, cols, per=1, tag=""):
            for p in range(parts):
                out.append(("%s[n=%d/%d,m=%d,x%d%s,%d]" % (cls, n, members, m, per, tag, p), "roul_all",
                            dict(cls=cls, n=n, members=members, m=m, part=p, parts=parts, cols=cols, per=per)))
        roul(2, 2, 1, 1, three)
        roul(2, 2, 2, 4, three)
        roul(2, 2, 1, 1, three, per=2)
        roul(3, 3, 2, 4, up(weak_orders(3)) + ([(1, 5, 2)] if cls == "VEGABalancedSelection" else []))
        roul(3, 2, 3, 4, [(1, 2), (2, 1), (1, 1), (3, 1)])
        roul(3, 4, 2, 8, up([(0, 1, 2, 3), (3, 2, 1, 0), (0, 0, 1, 2), (2, 1, 1, 0), (0, 1, 2, 2), (1, 1, 0, 0), (0, 0, 0, 1),
                             (0, 0, 0, 0), (1, 0, 2, 1)]))
        roul(4, 5, 1, 2, [(1, 1, 1, 1, 2), (1, 2, 2, 2, 2), (1, 1, 1, 1, 1), (1, 3, 3, 3, 3), (2, 1, 2, 2, 2)], tag=",ties")
        roul(6, 6, 1, 2, [(1, 1, 1, 1, 1, 2), (1, 2, 2, 2, 2, 3), (3, 3, 3, 3, 3, 1)], tag=",ties")
        roul(3, 3, 3, 8 if t else 2, up(weak_orders(3) if t else [(0, 1, 2), (1, 1, 0)]))
        if t:
            roul(4, 4, 2, 16, up(compositions(4)))
            roul(5, 5, 2, 16, up([(0, 1, 2, 3, 4), (0, 0, 1, 1, 2), (2, 1, 1, 0, 0), (0, 0, 0, 1, 1), (3, 0, 2, 0, 1)]))
    out += [("history", "history", {}), ("counts", "counts", {}), ("decided", "decided", {})]
    out += [("sweep[%s,%d]" % (c, i), "sweep", dict(cls=c, part=i)) for c in ("VEGABalancedSelection", "VEGARankedSelection")
            for i in range(6)]
    return out + run_items(["o_vega"], which=["vega", "vega_gray"], count=3)
