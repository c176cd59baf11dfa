"""C17: Pareto ranks, reported fronts and FFGA scores.  All tables of objective values of small populations through the
real fitness classes and MultiGaData.update, over one, two and three generations."""
from .front import *

PEN = {"dynamic": lambda c: G.DynamicPenalty(), "static": lambda c: G.StaticPenalty(**GR.static_tables(c))}


def tables(rec, algo, n, m, alphabet, part=0, parts=1, kind="binary", data=None, seq="list", target=None, scale=1):
    rows = list(itertools.product(alphabet, repeat=m))
    seq = {"list": list, "tuple": tuple}[seq]
    for t in list(itertools.product(rows, repeat=n))[part::parts]:
        f = Front(algo, list(range(n)), t, kind=kind, data=data, seq=seq, target=target, scale=scale)
        f.evaluate(rec, "%s values %r" % (algo, t))
        rec.done(1, 1)
        rec.state((algo, t))
    rec.sample("%s: all tables of %d individuals x %d objectives over %r" % (algo, n, m, alphabet))


def equal(rec, algo, n, m, alphabet):
    """populations with equal individuals"""
    rows = list(itertools.product(alphabet, repeat=m))
    for pts in partitions(n):
        k = max(pts) + 1
        if k == n:
            continue
        for t in itertools.product(rows, repeat=k):
            f = Front(algo, pts, t)
            f.evaluate(rec, "%s points %r values %r" % (algo, pts, t))
            rec.done(1, 1)
            rec.state((algo, pts, t))


def generations(rec, algo, n, kids, alphabet, part, parts, transfer="best"):
    """consecutive generations: survivors keep data, children are new; kids = number of children per step"""
    rows = list(itertools.product(alphabet, repeat=2))
    total = n + sum(kids)
    for t in list(itertools.product(rows, repeat=total))[part::parts]:
        f = Front(algo, list(range(n)), t)
        label = "%s values %r" % (algo, t)
        if not f.evaluate(rec, label):
            continue
        p = n
        for s, k in enumerate(kids):
            if not f.advance(rec, label, list(range(p, p + k)), transfer):
                break
            p += k
            if not f.evaluate(rec, label + " generation %d" % (s + 2)):
                break
        rec.done(1, 1 + len(kids))
        rec.state((algo, t))
    rec.sample("%s: all tables over %r of %d individuals, then %r children" % (algo, alphabet, n, kids))


def reborn(rec, algo, alphabet):
    """children equal to earlier individuals (points reused across generations)"""
    rows = list(itertools.product(alphabet, repeat=2))
    for t in itertools.product(rows, repeat=3):
        for kids in itertools.product(range(3), repeat=2):
            f = Front(algo, [0, 1], t)
            label = "%s values %r children %r" % (algo, t, kids)
            if f.evaluate(rec, label) and f.advance(rec, label, list(kids)) and f.evaluate(rec, label + " second"):
                f.advance(rec, label, list(kids)[::-1]) and f.evaluate(rec, label + " third")
            rec.done(1, 3)
            rec.state((algo, t, kids))


def conditional(rec, algo, conds, pen, alphabet):
    rows = list(itertools.product(alphabet, repeat=len(conds)))
    for t in itertools.product(rows, repeat=3 if len(rows) <= 9 else 2):
        n = len(t)
        f = Front(algo, list(range(n)), t, conditions=list(conds), penalty=PEN[pen](conds))
        label = "%s %s conditions %r values %r" % (algo, pen, conds, t)
        if f.evaluate(rec, label) and f.advance(rec, label, [0, n - 1]):
            f.evaluate(rec, label + " second")
        rec.done(1, 2)
        rec.state((algo, conds, t))


def lines(rec, algo, n):
    """structured larger populations: chains, antichains, layers, ties, in every rotation and reversed"""
    shapes = {"chain": [(i, i) for i in range(n)], "antichain": [(i, n - i) for i in range(n)],
              "layers": [(i // 3 + i % 3, i // 3 + 2 - i % 3) for i in range(n)], "ties": [(i // 2, i // 2) for i in range(n)],
              "weak": [(0, i) for i in range(n)], "same": [(1, 1)] * n, "three": [(i, n - i, i % 2) for i in range(n)],
              "float": [(0.1 * i, 1e-9 * (n - i)) for i in range(n)], "neg": [(-i, -(i * i) % 7) for i in range(n)],
              "one": [(0, 0)] + [(i, n - i) for i in range(1, n)], "tiny": [(1 + i * 1e-12, 1.0) for i in range(n)],
              "huge": [(i * 1e200, -i * 1e200) for i in range(n)]}
    for name, t in shapes.items():
        for r in range(n):
            for rev in (False, True):
                u = t[r:] + t[:r]
                u = u[::-1] if rev else u
                u = u + [(5,) * len(u[0])] * 2 + [tuple(v - 1 for v in u[0])]
                f = Front(algo, list(range(n)), u)
                label = "%s %s n=%d rotation %d%s" % (algo, name, n, r, " reversed" if rev else "")
                if f.evaluate(rec, label) and f.advance(rec, label, [n, n + 2, 0]):
                    f.evaluate(rec, label + " second")
                rec.done(1, 2)
                rec.state(label)


def wide(rec, algo, m):
    """many objectives: all pairs and triples of value vectors that differ from a base in at most two objectives"""
    rows = [tuple([1] * m)]
    for i in range(m):
        rows += [tuple(x if j == i else 1 for j in range(m)) for x in (0, 2)]
    for i, j in itertools.combinations(range(m), 2):
        rows += [tuple(a if k == i else b if k == j else 1 for k in range(m)) for a, b in ((0, 2), (2, 0), (0, 0))]
    for t in itertools.chain(itertools.combinations(rows, 2), itertools.combinations(rows[:2 * m + 1], 3)):
        f = Front(algo, list(range(len(t))), t)
        f.evaluate(rec, "%s values %r" % (algo, t))
        rec.done(1, 1)
        rec.state((algo, t))


def crowd(rec, algo, n):
    """large populations"""
    shapes = {"chain": [(i, i) for i in range(n)], "antichain": [(i, n - i) for i in range(n)],
              "layers": [(i // 3 + i % 3, i // 3 + 2 - i % 3) for i in range(n)], "spread": [((i * 37) % n, (i * 53) % 41) for i in range(n)],
              "four": [(i % 7, (i * 3) % 11, (i * 5) % 13, -i % 5) for i in range(n)]}
    for name, t in shapes.items():
        for r in (0, n // 3):
            u = t[r:] + t[:r] + [tuple(v - 0.5 for v in t[0]), tuple(v + 0.5 for v in t[0])]
            f = Front(algo, list(range(n)), u)
            f.d.idx_generation = 40
            label = "%s %s n=%d rotation %d" % (algo, name, n, r)
            if f.evaluate(rec, label) and f.advance(rec, label, [n, n + 1, 0]):
                f.evaluate(rec, label + " second")
            rec.done(1, 2)
            rec.state(label)


def answers(rec, algo, alphabet):
    """whole runs over a four-point search space for every objective table"""
    cfg = Cfg(algo, ((0, 3, 1),), None, n=3, g=4, early_stop=None, mutation_lvl=0.4,
              **({"tournament_size": 2} if algo.startswith("vega") else {}))
    for tr, mon in env_runs(cfg, alphabet, 5, memo=True):
        if mon.exc is not None:
            rec.fail("%s answers %r raised %r" % (cfg, tr, mon.exc))
            continue
        o_pareto(rec, mon.cfg, mon)
        rec.done(1, len(mon.events))
        rec.state((algo, tuple(tr)))


BOUNDS = {"quick": "all 2-objective tables over {0,1,2} for n<=4, 3-objective over {0,1,2} for n<=3 and {0,1} for n=4, equal individuals "
                   "(all partitions of 4), all two- and three-generation tables (2+2, 3+1, 2+1+1 individuals) over {0,1,2}, conditional "
                   "tables, 12 structured shapes up to 12 individuals, 5 up to 130; pairs and triples differing in up to two of 4-8 objectives; all objective tables of runs over a four-point space; average score of every table"}
ASSUMPTIONS = ["the objective function is deterministic (MultiFitness evaluates it repeatedly)"]


def items(tier):
    t = tier == "thorough"
    T = (0, 1, 2)
    out = []
    for a in ("ffga", "vega"):
        for n, m, al, parts in [(1, 2, T, 1), (2, 2, T, 1), (3, 2, T, 1), (4, 2, T, 2), (2, 3, T, 1), (3, 3, T, 4), (4, 3, (0, 1), 2),
                                (5, 2, (0, 1), 1), (3, 1, T, 1), (2, 4, (0, 1), 1)] + \
                ([(5, 2, T, 8), (5, 3, (0, 1), 8), (3, 4, (0, 1), 2), (6, 2, (0, 1), 2)] if t else []):
            for p in range(parts):
                out.append(("tables[%s,%d,%d,%d,%d]" % (a, n, m, len(al), p), "tables",
                            dict(algo=a, n=n, m=m, alphabet=al, part=p, parts=parts)))
        for i, (data, seq, target, kind, al) in enumerate([
                (0, "tuple", None, "gray", (-1.5, 0, 1e-9)), ([], "list", None, "binary", (0, -0.0, 3)),
                ("x", "tuple", None if a == "ffga" else [0, 1], "binary", (1, 2, 1e9)), (None, "tuple", [1, 1], "gray", (0, 1, 1.0))]):
            out.append(("variants[%s,%d]" % (a, i), "tables", dict(algo=a, n=3, m=2, alphabet=al, kind=kind, data=data,
                                                                  seq=seq, target=target)))
        for i, sc in enumerate((1e-7, 1e-10, 1e5)):
            out.append(("spacing[%s,%r]" % (a, sc), "tables", dict(algo=a, n=3, m=2, alphabet=T, kind=("binary", "gray")[i % 2], scale=sc)))
        out.append(("equal[%s]" % a, "equal", dict(algo=a, n=4, m=2, alphabet=T if t else (0, 1, 2))))
        for kids, al, parts, n in [((2,), T, 3, 2), ((1,), T, 3, 3), ((1, 1), T, 3, 2)] + \
                ([((2,), T, 8, 3), ((1, 1, 1), T, 8, 2)] if t else [((2,), (0, 1), 1, 3), ((1, 1, 1), (0, 1), 1, 2)]):
            for p in range(parts):
                out.append(("generations[%s,%d+%s,%d,%d]" % (a, n, kids, len(al), p), "generations",
                            dict(algo=a, n=n, kids=kids, alphabet=al, part=p, parts=parts)))
        out.append(("random-transfer[%s]" % a, "generations", dict(algo=a, n=3, kids=(1,), alphabet=(0, 1, 2), part=0,
                                                                  parts=3, transfer="random")))
        out.append(("reborn[%s]" % a, "reborn", dict(algo=a, alphabet=(0, 1) if not t else T)))
        for c in (["optimize", "<="], ["<=", "optimize"], ["optimize", "optimize", "<="], ["optimize", "!=", "optimize"]):
            for pen in PEN:
                out.append(("conditional[%s,%s,%s]" % (a, pen, c), "conditional",
                            dict(algo=a, conds=c, pen=pen, alphabet=(-1, 0, 1))))
        out += [("wide[%s,%d]" % (a, m), "wide", dict(algo=a, m=m)) for m in (4, 5, 6, 8)]
        out += [("crowd[%s,%d]" % (a, n), "crowd", dict(algo=a, n=n)) for n in (40, 90, 130)]
        for n in (5, 8, 12) + ((20,) if t else ()):
            out.append(("shapes[%s,%d]" % (a, n), "lines", dict(algo=a, n=n)))
    for a in ("ffga", "vega", "ffga_gray", "vega_gray"):
        out.append(("answers[%s]" % a, "answers", dict(algo=a, alphabet=[(0, 0), (0, 1), (1, 0), (1, 1)] + ([(0, 2), (2, 0)] if t else []))))
    return out + run_items(["o_pareto"], which=["vega", "vega_gray", "ffga", "ffga_gray"], count=3)
