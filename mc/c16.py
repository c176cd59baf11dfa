"""C16: static penalty.  All condition lists and value vectors over an alphabet that covers every interval, both of its
ends and the gaps, for several tables; penalty object and fitness classes against a table model."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items, ref_static, note_penalty, ref_score
from .cond import *
from . import grid as GR

# interval shapes: (intervals, coefficients) for one condition, index i varies the numbers
SHAPES = {
    "one": lambda i: ([(0, inf)], [2 + i]),
    "two": lambda i: ([(0, 1), (1, inf)], [1 + i, 5 + 2 * i]),
    "three": lambda i: ([(0, 0.5), (0.5, 2), (2, 100)], [3 + i, 0.5 * (i + 1), 7 - i]),
    "gap": lambda i: ([(0, 1), (2, 4)], [2 + i, 3 + i]),
    "late": lambda i: ([(1, 3)], [4 + i]),
    "shuffled": lambda i: ([(2, 9), (0, 0.5), (0.5, 2)], [1.5 + i, 6, 2 + i]),
    "many": lambda i: ([(0, 0.3), (0.3, 0.6), (0.6, 1), (1, 1.5), (1.5, 2), (2, 3), (3, 4), (4, 1000)],
                       [2 + i, 1, 3, 0.25 * (i + 1), 5, 7 + i, 11, 0.125]),
    "overlap": lambda i: ([(0, 2), (1, 5)], [3, 8 + i]),
}
ALPHA = [-3, -2, -1, -0.5, -0.25, 0, 0.25, 0.5, 0.75, 1, 1.5, 2, 3, 4, 99, 100]
TINY = [1e-9, 1e-13, 1e-300, -1e-9, -1e-13, -1e-300, 0.25 - 1e-12, 1 - 1e-12, 1 + 1e-12, -1 - 1e-12, 2 - 1e-9]
SHORT = [-2.5, -0.5, 0, 0.25, 0.5, 1, 2]


def tables(rest, shapes):
    """shapes[i]: shape of condition i; every condition its own numbers"""
    t = {"equality_intervals": {}, "equality_r_coef": {}, "inequality_intervals": {}, "inequality_r_coef": {}}
    for i, (c, s) in enumerate(zip(rest, shapes)):
        name = "equality" if c == "!=" else "inequality"
        iv, co = SHAPES[s](i)
        t[name + "_intervals"][i], t[name + "_r_coef"][i] = iv, co
    return t


def static(t):
    return note_penalty(G.StaticPenalty(**t), ("static", t))


def direct(rec, r, part, parts, alpha):
    """the penalty object itself; one object for all calls of a table"""
    todo = [(cs, sh) for cs in itertools.product(("<=", "!="), repeat=r) for sh in itertools.product(SHAPES, repeat=r)]
    for cs, sh in todo[part::parts]:
        t = tables(cs, sh)
        frozen = repr(t)
        p = static(t)
        for v in itertools.product(alpha, repeat=r):
            want = ref_static(t, cs, v)
            try:
                got = p.execute(conditionals=list(cs), values=list(v))
            except Exception as e:
                got = e
            rec.done(1, 1)
            if (want is None) != isinstance(got, Exception) or (want is not None and not close(got, want)):
                rec.fail("conditions=%r tables=%r values=%r: %r instead of %s" % (
                    cs, t, v, got, "an exception" if want is None else want))
                return
        if repr(t) != frozen:
            rec.fail("the user's tables were modified", conds=cs, tables=t)
        rec.state((cs, sh))
        rec.sample("conditions=%r shapes=%r: %d value vectors" % (cs, sh, len(alpha) ** r))


def through_fitness(rec, cls, part, parts, maxlen):
    """populations scored with the static penalty; vectors outside all intervals are checked to raise"""
    cls = getattr(G, cls)
    lists = single_lists(maxlen) if cls is G.HyperbolaFitness else multi_lists(maxlen, 2)
    shapes = ["one", "two", "three", "shuffled", "overlap", "gap", "late"]
    for c, conds in enumerate(lists[part::parts]):
        rest = [x for x in conds if x != "optimize"]
        m = conds.count("optimize")
        r = len(rest)
        for off in range(7):
            sh = [shapes[(off + 2 * i + c) % 7] for i in range(r)]
            t = tables(rest, sh)
            p = static(t)
            vs = list(itertools.product(ALPHA if r == 1 else SHORT if r == 2 else SHORT[::2], repeat=r))
            ok = [v for v in vs if ref_static(t, rest, v) is not None]
            bad = [v for v in vs if ref_static(t, rest, v) is None]
            os_ = [tuple((i * (3 + j)) % 7 - 1.5 for j in range(m)) for i in range(len(ok))]
            target = None if (c + off) % 2 else (0.5 if cls is G.HyperbolaFitness else [0.5 + j for j in range(m)])
            for gen, best in ((0, None), (3, False)):
                for vv, oo in zip(chunks(ok, 12), chunks(os_, 12)):
                    if not check(rec, cls, conds, p, target, vv, oo, gen, best, tag=" shapes=%r" % sh):
                        return
            for v in bad[::max(1, len(bad) // 6)]:
                try:
                    fit, h = make_fit(cls, target, p, list(conds))
                    d, key = make_data([v], cls is not G.HyperbolaFitness, 1, True)
                    h["f"] = lambda x: full(conds, v, [1] * m)
                    fit.execute(d)
                except Exception:
                    rec.done(1, 1)
                    continue
                rec.fail("%s conditions=%r shapes=%r values=%r: outside every interval but no exception" % (
                    cls.__name__, conds, sh, v), score=d.population[0]["score"])
                return


def many(rec):
    """six to nine conditions: one violated at a time over the whole alphabet, and all of them"""
    for r in (6, 7, 9):
        for cs in (["<="] * r, ["!="] * r, [("<=", "!=")[i % 2] for i in range(r)], [("!=", "!=", "<=")[i % 3] for i in range(r)]):
            for off in range(len(SHAPES)):
                names = list(SHAPES)
                t = tables(cs, [names[(off + i) % len(names)] for i in range(r)])
                p = static(t)
                vs = [tuple(x if j == i else 0 for j in range(r)) for i in range(r) for x in ALPHA + TINY + [-4, 5, 999]]
                vs += [tuple(x for j in range(r)) for x in ALPHA]
                for v in vs:
                    want = ref_static(t, cs, v)
                    try:
                        got = p.execute(conditionals=list(cs), values=list(v))
                    except Exception as e:
                        got = e
                    rec.done(1, 1)
                    if (want is None) != isinstance(got, Exception) or (want is not None and not close(got, want)):
                        rec.fail("conditions=%r tables=%r values=%r: %r instead of %s" % (
                            cs, t, v, got, "an exception" if want is None else want))
                        return
                rec.state((r, tuple(cs), off))


def order(rec):
    """no memory between calls (including calls that raised)"""
    cs = ["!=", "<="]
    t = tables(cs, ["gap", "three"])
    p = static(t)
    vs = list(itertools.product(SHORT + [150], repeat=2))
    for a, b in itertools.product(vs, repeat=2):
        for v in (a, b):
            want = ref_static(t, cs, v)
            try:
                got = p.execute(conditionals=cs, values=list(v))
            except Exception as e:
                got = e
            if (want is None) != isinstance(got, Exception) or (want is not None and not close(got, want)):
                rec.fail("values %r after %r: %r instead of %r" % (v, a, got, want))
                return
        rec.done(2, 2)
        rec.state((a, b))


BOUNDS = {"quick": "1-2 conditions: all sign lists x all pairs of 8 interval shapes (one to eight intervals, gaps, unordered, "
                   "overlapping) x all value vectors over 16 letters (both ends and inside of every interval, gaps, beyond); "
                   "3 conditions: all shapes over 7 letters; all condition lists with up to 3 conditions through the three "
                   "fitness classes; all ordered pairs of calls; 6-9 conditions one violated at a time",
          "thorough": "as quick with 4 conditions through the fitness classes"}
ASSUMPTIONS = ["where intervals of one condition overlap, the first listed one counts"]


def items(tier):
    t = tier == "thorough"
    out = [("direct[1]", "direct", dict(r=1, part=0, parts=1, alpha=ALPHA + TINY))]
    out += [("direct[2,%d]" % i, "direct", dict(r=2, part=i, parts=4, alpha=ALPHA + TINY[1:5:2] + TINY[6:8])) for i in range(4)]
    out += [("direct[3,%d]" % i, "direct", dict(r=3, part=i, parts=8, alpha=SHORT)) for i in range(8)]
    for cls in ("HyperbolaFitness", "VEGAHyperbolaFitness", "FFGAFitness"):
        out += [("%s[%d]" % (cls, i), "through_fitness", dict(cls=cls, part=i, parts=4, maxlen=5 if t else 4))
                for i in range(4)]
    out += [("order", "order", {}), ("many", "many", {})]
    return out + run_items(["o_conditions"], cond_only=True, count=6 if t else 3)
