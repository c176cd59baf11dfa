"""C18: FFGA with 'best' transfer.  All tables of small generations and their offspring through the real survivor step;
fronts of every size inside populations of every size; all objective tables of short runs."""
from .front import *


def survive(rec, n, kids, alphabet, part, parts, kind="binary"):
    """front carried over and never regressing over the steps"""
    rows = list(itertools.product(alphabet, repeat=2))
    for t in list(itertools.product(rows, repeat=n + sum(kids)))[part::parts]:
        f = Front("ffga", list(range(n)), t, kind=kind)
        go(rec, f, "values %r" % (t,), n, kids)
        rec.state(t)
    rec.sample("all tables over %r of %d individuals followed by %r children" % (alphabet, n, kids))


def step(rec, f, label, seen):
    f.fit.execute(f.d)
    f.d.update()
    rep = [f.vals(i) for i in f.d.best_solution["pareto_set"]]
    for p in seen:
        if not any(r == p or dominates(r, p) for r in rep):
            rec.fail("%s: earlier Pareto point %r is neither present nor dominated" % (label, p), front=rep)
            return None
    return seen + [r for r in rep if r not in seen]


def go(rec, f, label, p, kids):
    seen = step(rec, f, label, [])
    for k in kids:
        pts = list(range(p, p + k)) if isinstance(k, int) else list(k)
        if seen is None or not f.advance(rec, label, pts):
            break
        p += k if isinstance(k, int) else 0
        seen = step(rec, f, label, seen)
    rec.done(1, 1 + len(kids))


def equal(rec, n, alphabet):
    rows = list(itertools.product(alphabet, repeat=2))
    for pts in partitions(n):
        k = max(pts) + 1
        for t in itertools.product(rows, repeat=k):
            for child in sorted({0, k - 1}):
                f = Front("ffga", pts, t)
                go(rec, f, "points %r values %r child %d" % (pts, t, child), 0, [[child], [child, 0]])
                rec.state((pts, t, child))


def sizes(rec, n):
    """a front of f points among n individuals, for every f, with the front placed in every rotation"""
    for m in (2, 3):
        for f in range(1, n + 1):
            rows = [(i, f - i) + (0,) * (m - 2) for i in range(f)] + [(f + 1, f + 1 + i) + (0,) * (m - 2) for i in range(n - f)]
            for r in range(0, n, max(1, n // 6)):
                t = rows[r:] + rows[:r] + [(f + 2, f + 2) + (0,) * (m - 2), (-1, -1) + (0,) * (m - 2)]
                fr = Front("ffga", list(range(n)), t)
                go(rec, fr, "front of %d in %d (rotation %d)" % (f, n, r), 0, [[n], [n], [n, n], [n + 1]])
                rec.state((n, f, r, m))
    rec.sample("fronts of 1..%d points in a population of %d" % (n, n))


def late(rec):
    """large fronts in late generations"""
    for gen in (1, 5, 10, 16, 20, 33, 51, 75, 101, 250, 600):
        for n, f in ((4, 2), (12, 9), (30, 26), (60, 50)):
            rows = [(i, f - i) for i in range(f)] + [(f + 1, f + 1 + i) for i in range(n - f)]
            t = rows[gen % n:] + rows[:gen % n] + [(f + 2, f + 2), (-1, -1)]
            fr = Front("ffga", list(range(n)), t)
            fr.d.idx_generation = gen
            go(rec, fr, "front of %d in %d in generation %d" % (f, n, gen), 0, [[n], [n, n], [n + 1]])
            rec.state((gen, n, f))


def answers(rec, algo, alphabet, n, g, seed, mutation):
    cfg = Cfg(algo, ((0, 3, 1),), None, n=n, g=g, early_stop=None, mutation_lvl=mutation)
    for tr, mon in env_runs(cfg, alphabet, seed, memo=True):
        if mon.exc is not None:
            rec.fail("%s answers %r raised %r" % (cfg, tr, mon.exc))
            continue
        o_front(rec, mon.cfg, mon)
        rec.done(1, len(mon.events))
        rec.state((algo, n, g, seed, tuple(tr)))
    rec.sample("%s: every objective table over %r" % (cfg, alphabet))


BOUNDS = {"quick": "all 2-objective tables over {0,1,2} of 2+2, 3+1, 2+1+1 individuals and over {0,1} of 3+2, 4+1, 2+1+1+1; equal individuals "
                   "(all partitions of 3); fronts of every size in populations of 2..16, of up to 50 in generations up to 600; all objective tables of runs over a "
                   "four-point space; the monitored FFGA runs"}
ASSUMPTIONS = ["deterministic objective function"]


def items(tier):
    t = tier == "thorough"
    T = (0, 1, 2)
    out = []
    for n, kids, al, parts in [(2, (2,), T, 2), (3, (1,), T, 2), (2, (1, 1), T, 2), (3, (2,), (0, 1), 1), (4, (1,), (0, 1), 1),
                               (2, (1, 1, 1), (0, 1), 1), (1, (1, 1), T, 1)] + \
            ([(3, (2,), T, 8), (4, (1,), T, 8), (2, (1, 1, 1), T, 8), (4, (2,), (0, 1), 2)] if t else []):
        for p in range(parts):
            out.append(("survive[%d+%s,%d,%d]" % (n, kids, len(al), p), "survive",
                        dict(n=n, kids=kids, alphabet=al, part=p, parts=parts)))
    out.append(("survive-gray", "survive", dict(n=2, kids=(1,), alphabet=T, part=0, parts=1, kind="gray")))
    out.append(("late", "late", {}))
    out.append(("equal", "equal", dict(n=3, alphabet=T)))
    for n in list(range(2, 17)) + [24] + ([30] if t else []):
        out.append(("sizes[%d]" % n, "sizes", dict(n=n)))
    A = [(0, 0), (0, 1), (1, 0), (1, 1)] + ([(0, 2), (2, 0)] if t else [])
    for a in ("ffga", "ffga_gray"):
        for n, g, s, m in [(2, 6, 1, 0.5), (3, 5, 2, 0.3), (4, 4, 3, "normal"), (2, 5, 4, 0.0)]:
            out.append(("answers[%s,%d,%d]" % (a, n, g), "answers",
                        dict(algo=a, alphabet=A, n=n, g=g, seed=s + GR.SEED, mutation=m)))
    return out + run_items(["o_front"], which=["ffga", "ffga_gray"], count=8)
