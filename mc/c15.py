"""C15: conditions, feasibility and penalties.  All condition lists and violation vectors over a small alphabet, all
generations and penalty parameters, through the fitness classes and the penalty objects."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items, ref_penalty, note_penalty, ref_sum
from .cond import *
from . import grid as GR

ALPHA = [-1.5, 0, 2, 0.5, -1e-12, 1e-12]
SIZES = [10.0 ** e for e in range(-14, 9)] + [3e-5, 0.03, 1 / 3, 7, 999.5]        # sizes of violations, all orders of magnitude
SHORT = [-1, 0, 2, -0.25]
DYN = [dict(), dict(delta=2, c=1.5, alpha=1, betta=1), dict(delta=0.5, c=3, alpha=3, betta=2), dict(c=0.1, alpha=0.5, betta=3)]
ADA = [dict(), dict(delta=3, betta_1=2.0, betta_2=1.5, betta=1), dict(betta_1=1.01, betta_2=10, betta=2), dict(delta=0.25, betta=3)]


def dynamic(**k):
    return note_penalty(G.DynamicPenalty(**k), ("dynamic", k.get("delta", 1), k.get("c", 0.5), k.get("alpha", 2),
                                                k.get("betta", 2)))


def adaptive(**k):
    return note_penalty(G.AdaptivePenalty(**k), ("adaptive", k.get("delta", 1), k.get("betta_1", 1.1),
                                                 k.get("betta_2", 1.2), k.get("betta", 2)))


def penalties():
    return [dynamic(**k) for k in DYN] + [adaptive(**k) for k in ADA]


def vectors(r, alpha):
    return list(itertools.product(alpha, repeat=r))


def single(rec, part, parts, maxlen, alpha):
    for c, conds in enumerate(single_lists(maxlen)[part::parts]):
        r = len(conds) - 1
        vs = vectors(r, alpha if r < 3 else SHORT)
        os_ = [((i * 7) % 11 - 4.5,) for i in range(len(vs))]
        for k, pen in enumerate(penalties()):
            for gen in (0, 1, 2, 3, 7):
                for best in ((None,) if gen == 0 else (True, False)):
                    for target in (None, 0) if (c + k) % 2 else (3.5, None):
                        for vv, oo in zip(chunks(vs, 20), chunks(os_, 20)):
                            if not check(rec, G.HyperbolaFitness, conds, pen, target, vv, oo, gen, best,
                                         tuple_=(k + c) % 2 == 0):
                                return


def many(rec, cls, part):
    """many conditions and objectives, late generations, tiny and huge violations: one condition violated at a time, and all"""
    C = getattr(G, cls)
    lists = [["<=", "!=", "<=", "optimize", "!=", "<=", "<=", "!="], ["optimize"] + ["!=", "<="] * 5, ["<="] * 9 + ["optimize"],
             ["!=", "<=", "!=", "!=", "optimize", "!=", "<="],
             ["<=", "!="] * 3 + ["optimize", "!=", "<="]]
    if C is not G.HyperbolaFitness:
        lists = [["<=", "optimize", "!=", "optimize", "optimize", "<=", "optimize", "!="], ["optimize"] * 5 + ["<=", "!="],
                 ["!=", "optimize", "<=", "optimize", "<=", "<=", "!=", "optimize", "<=", "optimize", "!=", "optimize"], ["optimize"] * 8 + ["<="],
                 ["!=", "<=", "<=", "!=", "!=", "<=", "optimize", "<=", "optimize"]]
    conds = lists[part]
    m = conds.count("optimize")
    r = len(conds) - m
    vs = [tuple([0] * r)]
    for i in range(r):
        for x in (1, -1, 2.5, 1e-11, -1e-11, 3e7, -3e7, 1e-300, -1e-300, 4e90):
            vs += [tuple([x if j == i else 0 for j in range(r)]), tuple([x if j == i else -0.5 if conds[j] == "<=" else 0 for j in range(r)])]
    vs += [tuple([1.5] * r), tuple([-1] * r), tuple(0.25 * (j + 1) for j in range(r))]
    os_ = [tuple((i * (3 + j) + j * 5) % (11 - j) - 1.5 for j in range(m)) for i in range(len(vs))]
    size = 20 if C is G.HyperbolaFitness else 12
    for k, pen in enumerate(penalties()[::2] if C is G.HyperbolaFitness else [dynamic(), adaptive()]):
        for gen, best in ((1, True), (50, False), (101, True), (150, False), (700, True), (1000, False)):
            for target in (None, 0 if C is G.HyperbolaFitness else [1 + j for j in range(m)]):
                for vv, oo in zip(chunks(vs, size), chunks(os_, size)):
                    if not check(rec, C, conds, pen, target, vv, oo, gen, best):
                        return


def alone(rec, part, parts):
    """populations of one and two individuals, all ordered pairs of vectors: no influence of one on the other"""
    for conds in single_lists(3)[part::parts]:
        r = len(conds) - 1
        vs = vectors(r, SHORT)
        for pen in (dynamic(), adaptive()):
            for a in vs:
                if not check(rec, G.HyperbolaFitness, conds, pen, None, [a], [(2,)], 2, False):
                    return
            for a, b in itertools.product(vs, repeat=2):
                if not check(rec, G.HyperbolaFitness, conds, pen, 1, [a, b], [(2,), (-3,)], 2, True):
                    return


def multi(rec, cls, part, parts, maxlen):
    cls = getattr(G, cls)
    for c, conds in enumerate(multi_lists(maxlen)[part::parts]):
        m = conds.count("optimize")
        r = len(conds) - m
        vs = vectors(r, ALPHA if r == 1 else SHORT[:3])
        os_ = [tuple((i * (3 + j) + j * 5) % (7 - j) - 1.5 for j in range(m)) for i in range(len(vs))]
        for k, pen in enumerate(penalties()[::3] if c % 2 else penalties()[1::3]):
            for gen, best in ((0, None), (1, True), (1, False), (4, False)):
                for target in (None, [1 + j for j in range(m)]):
                    for vv, oo in zip(chunks(vs, 9), chunks(os_, 9)):
                        if not check(rec, cls, conds, pen, target, vv, oo, gen, best, tuple_=(c + k) % 2 == 0):
                            return


def direct(rec):
    """penalty objects called directly, in all orders of two calls (no memory)"""
    def call(p, conds, v, gen, best):
        if p.name() == "DynamicPenalty":
            return p.execute(conditionals=conds, values=list(v), iter_generation=gen)
        return p.execute(conditionals=conds, values=list(v), iter_generation=gen, best_individ={"feasible": best})
    cases = [(cs, v, g, b) for r in (1, 2) for cs in itertools.product(("<=", "!="), repeat=r)
             for v in itertools.product(SHORT, repeat=r) for g in (0, 1, 3) for b in (True, False)]
    fine = [(cs, v, g, b) for cs in itertools.product(("<=", "!="), repeat=2) for x in SIZES for v in ((x, 0), (0, x), (x, x), (-x, 2 * x), (1, x))
            for g in (1, 2, 40) for b in (True, False)]
    for p in penalties():
        for cs, v, g, b in cases + fine:
            w = ref_penalty(p, cs, v, g, b)
            got = call(p, list(cs), v, g, b)
            if not close(got, w, abs_=0):
                rec.fail("%s%r conditions=%r values=%r generation=%d best feasible=%r: %r instead of %r" % (
                    type(p).__name__, vars(p), cs, v, g, b, got, w))
                return
            rec.done(1, 1)
        for a, b in itertools.product(cases[::3], cases[1::5]):
            call(p, list(a[0]), *a[1:])
            got = call(p, list(b[0]), *b[1:])
            if not close(got, ref_penalty(p, *b)):
                rec.fail("%s: result of %r depends on the earlier call %r" % (type(p).__name__, b, a))
                return
            rec.done(2, 2)
        rec.state(repr(sorted(vars(p).items())))
    # monotone in every violation, in the generation and in the best solution's feasibility
    for p in penalties():
        for cs in itertools.product(("<=", "!="), repeat=2):
            for v in itertools.product([-1, 0, 0.5, 1, 3], repeat=2):
                for g in (1, 2, 5):
                    for i in (0, 1):
                        size = abs(v[i]) if cs[i] == "!=" else max(0, v[i])
                        w = list(v)
                        w[i] = size + 0.5
                        if not call(p, list(cs), w, g, True) > call(p, list(cs), v, g, True):
                            rec.fail("%s conditions=%r: a larger violation %r does not cost more than %r" % (
                                type(p).__name__, cs, w, v))
                            return
                    x = call(p, list(cs), v, g, True)
                    feas = all(a == 0 if c == "!=" else a <= 0 for c, a in zip(cs, v))
                    if feas != (x == 0):
                        rec.fail("%s conditions=%r values=%r: penalty %r" % (type(p).__name__, cs, v, x))
                    if not feas:
                        y = call(p, list(cs), v, g, False) if p.name() == "AdaptivePenalty" else call(p, list(cs), v, g + 1, 1)
                        if not y > x:
                            rec.fail("%s conditions=%r values=%r generation=%d: penalty does not grow" % (
                                type(p).__name__, cs, v, g))
                    rec.done(1, 4)


def reused(rec):
    """one fitness object over several generations and best solutions"""
    for cls in (G.HyperbolaFitness, G.VEGAHyperbolaFitness):
        for conds in single_lists(3):
            for pen in (dynamic(), adaptive()):
                fit = make_fit(cls, None, pen, list(conds))
                vs = vectors(len(conds) - 1, SHORT)
                for gen, best in ((0, None), (1, False), (2, True), (3, False), (1, True), (0, None)):
                    if not check(rec, cls, conds, pen, None, vs[:9], [(i,) for i in range(9)][:len(vs)], gen, best, fit=fit,
                                 tag=" reused"):
                        return


def charge(conds, values):
    """a user's own penalty: depends on position, sign and size of every condition value"""
    return sum((i + 1) * (abs(v) if c == "!=" else 2 * max(0, v)) for i, (c, v) in enumerate(zip(conds, values)))


def own_penalty():
    """a penalty object of a class of the user's, derived from the base class"""
    base = next(c for c in G.DynamicPenalty.__mro__ if c.__name__ == "BasePenalty")

    class Own(base):
        def execute(self, conditionals, values, **kwargs):
            return charge(conditionals, values)
    for name in base.__abstractmethods__ - {"execute"}:          # helpers of the base class it has no use for
        setattr(Own, name, lambda self, *a, **k: None)
    Own.__abstractmethods__ = frozenset()
    return note_penalty(Own(), ("own", charge))


def own(rec, cls):
    """penalty objects of a user's own class: the score is charged with what they return for this individual's condition values"""
    C = getattr(G, cls)
    pen = own_penalty()
    for c, conds in enumerate(single_lists(4) if cls == "HyperbolaFitness" else multi_lists(4)):
        m = conds.count("optimize")
        vs = vectors(len(conds) - m, SHORT)
        os_ = [tuple((i * (3 + j) + j * 5) % (7 - j) - 1.5 for j in range(m)) for i in range(len(vs))]
        for gen, best in ((0, None), (1, True), (3, False)):
            for target in (None, 1 if cls == "HyperbolaFitness" else [1 + j for j in range(m)]):
                for vv, oo in zip(chunks(vs, 16), chunks(os_, 16)):
                    if not check(rec, C, conds, pen, target, vv, oo, gen, best, tuple_=c % 2 == 0):
                        return


BOUNDS = {"quick": "all condition lists with 1-4 conditions and any position of 'optimize', all violation vectors "
                   "over 6 letters (3-4 conditions: 4 letters), generations 0,1,2,3,7, 4 dynamic and 4 adaptive parameter "
                   "sets, both feasibilities of the best solution; all multi-objective lists up to 5 entries for VEGA and "
                   "FFGA fitness; 12 lists of 7-12 entries with one condition violated at a time, up to generation 1000; all ordered pairs of penalty calls over a case table; populations of up to 130; user-defined penalty classes; monitored conditional runs",
          "thorough": "as quick with one more entry"}
ASSUMPTIONS = ["penalty parameters positive"]


def items(tier):
    t = tier == "thorough"
    out = [("single[%d]" % i, "single", dict(part=i, parts=12, maxlen=6 if t else 5, alpha=ALPHA)) for i in range(12)]
    out += [("alone[%d]" % i, "alone", dict(part=i, parts=4)) for i in range(4)]
    for cls in ("VEGAHyperbolaFitness", "FFGAFitness"):
        out += [("%s[%d]" % (cls, i), "multi", dict(cls=cls, part=i, parts=6, maxlen=6 if t else 5)) for i in range(6)]
    out += [("many[%s,%d]" % (c, i), "many", dict(cls=c, part=i))
            for c in ("HyperbolaFitness", "VEGAHyperbolaFitness", "FFGAFitness") for i in range(5)]
    out += [("own[%s]" % c, "own", dict(cls=c)) for c in ("HyperbolaFitness", "VEGAHyperbolaFitness", "FFGAFitness")]
    out += [("direct", "direct", {}), ("reused", "reused", {})]
    return out + run_items(["o_conditions"], cond_only=True, count=6 if t else 3)
