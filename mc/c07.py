"""C07: mutation probability.  Every random draw of one mutation step is varied over all its values while the others
say 'no mutation'; the fraction of values that mutate a given gene (child) is its probability."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items
from .c06 import situation
from . import grid as GR

LEVELS = [0.0, 0.001, 0.002, 0.01, 0.03, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.333, 0.35, 0.45, 0.5, 0.6, 0.7, 0.75, 0.9,
          0.95, 0.97, 0.99, 0.999, 1.0]
NAMES = ["weak", "normal", "strong"]
LIST = {"BinStringMutation": ("binary", lambda L: ((0, 1, 1),) * L, lambda L, k: [["0", "1"][(i + k) % 2] for i in range(L)]),
        "CategoricalMutation": ("cat", lambda L: tuple([["a", "b", "c"], (0, 4, 2)][i % 2] for i in range(L)),
                                lambda L, k: [["abc"[(i + k) % 3], 2][i % 2] for i in range(L)])}
CM = ["SwapMutation", "MovementMutation", "InversionMutation", "ShiftMutation"]
for _c in CM:
    LIST[_c] = ("order", lambda L: (0, L - 1, L), lambda L, k: list(range(k % L, L)) + list(range(k % L)))


def expected(cls, lvl, L):
    if isinstance(lvl, float):
        return lvl
    if cls in CM:
        return {"weak": 0.03, "normal": 0.1, "strong": 0.3}[lvl]
    return min(1.0, {"weak": 0.3, "normal": 1.0, "strong": 3.0}[lvl] / L)


def changed(cls, gs, d):
    """set of mutated units: (child, gene) or (child,)"""
    out = set()
    for k, (g, c) in enumerate(zip(gs, d.children)):
        if cls in CM:
            if g != c["genotype"]:
                out.add((k,))
        else:
            out |= {(k, i) for i, (x, y) in enumerate(zip(g, c["genotype"])) if x != y}
    return out


def units_of(cls, gs):
    return [(k,) for k in range(len(gs))] if cls in CM else [(k, i) for k, g in enumerate(gs) for i in range(len(g))]


def step(cls, op, L, gs, drv, gen=0):
    kind, gens, _ = LIST[cls]
    d = situation(kind, gens(L), gs, gen)
    set_driver(drv)
    op.execute(d)
    return changed(cls, gs, d)


_fair = OrigRandom(11)
# coins say no; the draws that choose positions take fair values (a constant would spin in rejection loops)
TOP = dict(default_below=lambda n: n - 1 if n >= 500 else _fair._randbelow(n), default_unit=HIGH)
BOTTOM = dict(default_below=lambda n: 0 if n >= 500 else _fair._randbelow(n), default_unit=LOW)


def measure(rec, cls, op, L, kids, want, thin, label, gen=0, same=False):
    """probability of each unit (thin: how many draws get the full 1000-value sweep)"""
    _, _, mk = LIST[cls]
    gs = [mk(L, 0 if same else k) for k in range(kids)]
    us = units_of(cls, gs)
    NO = TOP
    base = Fixed(**NO)
    got = step(cls, op, L, gs, base, gen)
    if got and want < 0.9995:                   # coins may as well say no at the lower end
        NO = BOTTOM
        base = Fixed(**NO)
        got = step(cls, op, L, gs, base, gen)
    draws = len(base.log)
    if want >= 0.9995:
        if got != set(us):
            rec.fail("level %s: not everything mutated" % label, cls=cls, L=L, kids=kids, missing=sorted(set(us) - got)[:4])
            return
        # every value of every draw still mutates everything
        for at in pick(draws, thin):
            kind, n = base.log[at]
            if kind == "below" and n < 100:
                vals = range(n)
            else:
                vals = range(0, 1000, 37)
            for v in vals:
                drv = Fixed(at=at, value=lambda k, m, v=v: (min(v, m - 1) if k == "below" else (v + 0.5) / 1000), **NO)
                g2 = step(cls, op, L, gs, drv, gen)
                rec.done(1, 1)
                if g2 != set(us):
                    rec.fail("level %s: not everything mutated" % label, cls=cls, L=L, draw=at, value=v)
                    return
        rec.state((cls, label, L, kids))
        return
    if got:
        rec.fail("level %s: mutated although every coin said no" % label, cls=cls, L=L, units=sorted(got)[:4])
        return
    source = {}
    full = set(pick(draws, thin))
    for at in range(draws):
        kind, n = base.log[at]
        m = n if kind == "below" else 1000
        if at in full:
            vals = range(m) if m <= 5000 else range(0, m, m // 1000)
        else:
            w = want if NO is TOP else 1 - want
            vals = sorted({0, max(0, int(w * m) - 2), min(m - 1, int(w * m) + 2), m - 1})
        count = collections.Counter()
        hits = {}
        for v in vals:
            drv = Fixed(at=at, value=lambda k, nn, v=v: (v if k == "below" else (v + 0.5) / 1000), **NO)
            g2 = step(cls, op, L, gs, drv, gen)
            rec.done(1, 1)
            for u in g2:
                count[u] += 1
            hits[v] = g2
        for u in count:
            if u in source:
                rec.fail("level %s: one gene's mutation depends on two draws" % label, cls=cls, L=L, unit=u)
                return
            source[u] = at
        if len(count) > 1:
            rec.fail("level %s: two genes or children are mutated by the same draw" % label, cls=cls, L=L,
                     units=sorted(count)[:4])
            return
        if at in full:
            for u, c in count.items():
                p = c / len(vals)
                if abs(p - want) > 1 / 1000 + 1e-9:
                    rec.fail("level %s: probability %.4f instead of %.4f" % (label, p, want), cls=cls, L=L, unit=u)
                    return
        else:
            for v, g2 in hits.items():
                x = (v + 0.5) / m if NO is TOP else 1 - (v + 0.5) / m
                if (g2 and x > want + 0.002) or (not g2 and x < want - 0.002):
                    rec.fail("level %s: coin value %d/%d decides wrongly for probability %.4f" % (label, v, m, want),
                             cls=cls, L=L, draw=at)
                    return
    if want >= 0.001 and set(source) != set(us):
        rec.fail("level %s: some genes are never mutated" % label, cls=cls, L=L, kids=kids,
                 missing=sorted(set(us) - set(source))[:4])
    if want <= 0 and source:
        rec.fail("level %s: mutates although the level is 0" % label, cls=cls, L=L)
    rec.state((cls, label, L, kids))


def pick(draws, thin):
    if draws <= thin:
        return list(range(draws))
    return sorted({0, draws // 2, draws - 1} | set(range(0, draws, -(-draws // thin))))


def levels(rec, cls, part, parts, thin):
    for lvl in (LEVELS + NAMES)[part::parts]:
        for L, kids in ((2, 1), (3, 2), (5, 1), (8, 2)) if cls in CM else ((1, 1), (2, 1), (3, 2), (5, 1), (7, 1)):
            op = getattr(G, cls)(lvl)
            measure(rec, cls, op, L, kids, expected(cls, lvl, L), thin, repr(lvl))
            rec.sample("%s level %r L=%d children=%d: probability %.4f" % (cls, lvl, L, kids, expected(cls, lvl, L)))


def named(rec, cls, lens, thin):
    for name in NAMES:
        for L in lens:
            op = getattr(G, cls)(name)
            measure(rec, cls, op, L, 1, expected(cls, name, L), thin, name)
    # default level
    op = getattr(G, cls)()
    measure(rec, cls, op, 4, 1, expected(cls, "normal", 4), thin, "default")


def histories(rec, cls, seq, thin):
    """one operator applied to populations of changing genotype length: the level follows the current one"""
    for name in NAMES + [0.25]:
        op = getattr(G, cls)(name)
        for L in seq:
            measure(rec, cls, op, L, 1, expected(cls, name, L), thin, "%r after %r" % (name, seq))
            # a free-running use in between
            _, _, mk = LIST[cls]
            step(cls, op, L, [mk(L, 0)], Stream(L))


def later(rec, cls):
    """the probability is the same in every generation and for every child of a large generation"""
    for gen in (1, 2, 10, 30, 75, 100, 250, 999):
        for lvl in ("weak", "strong", 0.3):
            op = getattr(G, cls)(lvl)
            measure(rec, cls, op, 4, 1, expected(cls, lvl, 4), 1, "%r in generation %d" % (lvl, gen), gen)
    for lvl in (1.0, 0.5, "normal"):
        op = getattr(G, cls)(lvl)
        measure(rec, cls, op, 3, 45, expected(cls, lvl, 3), 1, "%r, 45 children" % lvl)
    _, _, mk = LIST[cls]
    gs = [mk(4, k) for k in range(260)]
    got = step(cls, getattr(G, cls)(1.0), 4, gs, Stream(GR.SEED))
    if got != set(units_of(cls, gs)):
        rec.fail("level 1.0: not everything mutated", cls=cls, kids=260, missing=sorted(set(units_of(cls, gs)) - got)[:4])
    # level 0.5 on fair streams: in any 64 consecutive children some are mutated and some are not
    for s in range(4):
        got = {u[0] for u in step(cls, getattr(G, cls)(0.5 if cls in CM else 0.2), 4, gs, Stream(s))}
        for at in range(0, 260 - 64, 16):
            k = len([x for x in range(at, at + 64) if x in got])
            if k == 0 or k == 64:
                rec.fail("64 consecutive children %s" % ("all mutated" if k else "untouched"), cls=cls, first=at, seed=s)
        rec.done(1, 1)


def equals(rec, cls):
    """several children with the same genotype, short and long, are mutated separately"""
    for L, kids in ((2, 2), (6, 3), (14, 2), (40, 2)):
        for lvl in (0.3, 1.0, "strong", "weak"):
            measure(rec, cls, getattr(G, cls)(lvl), L, kids, expected(cls, lvl, L), 1, "%r, %d equal children" % (lvl, kids), same=True)
            rec.state((cls, L, kids, lvl, "equal"))


def independent(rec, cls, L, kids, same=False):
    """all combinations of coins (both ends): the map from coins to mutated units is a bijection"""
    _, _, mk = LIST[cls]
    gs = [mk(L, 0 if same else k) for k in range(kids)]
    us = units_of(cls, gs)
    op = getattr(G, cls)(0.5)
    pats = collections.Counter()
    cov = Cover()
    for lf in explore_all(lambda: step2(cls, op, L, gs), cov, (cls, L, kids)):
        rec.leaf(lf)
        if lf.exc is not None:
            rec.fail("raised %r" % lf.exc, cls=cls, L=L)
            return
        if lf.cut:
            continue
        pats[frozenset(lf.result)] += lf.weight
    if cov.complete(2 ** len(us)) and (len(pats) != 2 ** len(us) or (not cov.cut and len(set(pats.values())) != 1)):
        rec.fail("genes or children are not mutated independently", cls=cls, L=L, kids=kids,
                 patterns=len(pats), units=len(us), weights=sorted(set(pats.values())))
    rec.state((cls, L, kids))
    rec.sample("%s L=%d children=%d: %d coin patterns" % (cls, L, kids, len(pats)))


def step2(cls, op, L, gs):
    kind, gens, _ = LIST[cls]
    d = situation(kind, gens(L), gs)
    op.execute(d)
    return changed(cls, gs, d)


def facades(rec, algo):
    """levels 0.0 and 1.0 reach the mutation of the ready-made algorithms in every generation"""
    from .oracle import o_mutlevel
    kind = POPKIND[algo]
    gens = {"binary": ((0, 3, 1), (0, 1, 1)), "gray": ((0, 1, 1), (0, 1, 1)), "cat": (["a", "b", "c"], (0, 1, 1), ["k"]),
            "order": (0, 4, 4)}[kind]
    for lvl in (0.0, 1.0, "strong", "normal"):
        for n in (4, 9):
            for mode in ("facade", "collector"):
                cfg = Cfg(algo, gens, GR.m_two if algo.startswith(("vega", "ffga")) else GR.f_mod, n=n, g=5, mode=mode,
                          mutation_lvl=lvl, early_stop=10)
                mon = cfg.run(Stream(GR.SEED + n))
                if checked(rec, cfg, mon):
                    o_mutlevel(rec, cfg, mon)
                rec.state((algo, lvl, n, mode))
                rec.done(1, len(mon.events))


ALGOS = ["binary", "gray", "cat", "order", "vega", "vega_gray", "ffga", "ffga_gray"]
BOUNDS = {"quick": "24 numeric levels and 3 names x genotype lengths 1..8 x 1-2 children; each coin swept over all its "
                   "values (long genotypes: first, last, middle and strided coins swept, the others probed around the "
                   "threshold); lengths up to 200 for the names; generations 0..999, up to 260 children; histories of one operator over changing lengths; all "
                   "2^k coin combinations for up to 12 units; equal children"}
ASSUMPTIONS = ["a gene's mutation is decided by one draw of the generator"]


def items(tier):
    t = tier == "thorough"
    out = []
    for c in LIST:
        for i in range(9):
            out.append(("levels[%s,%d]" % (c, i), "levels", dict(cls=c, part=i, parts=9, thin=40 if t else 4)))
        for lens in ((2, 3, 4, 6), (10,), (12,), (30,), (60,)) + (() if c in CM else ((1, 200),)):
            out.append(("named[%s,%d]" % (c, lens[-1]), "named", dict(cls=c, thin=8 if t else 1, lens=lens)))
        for i, seq in enumerate([(4, 10, 4), (10, 3, 20), (2, 2, 6)]):
            out.append(("history[%s,%d]" % (c, i), "histories", dict(cls=c, seq=seq, thin=2)))
        out.append(("later[%s]" % c, "later", dict(cls=c)))
        for L, k in [(2, 1), (2, 2), (3, 1), (3, 3), (4, 2)]:
            if c == "CategoricalMutation" and L * k > 4:
                continue
            if c in CM and (L > 3 or k > 2):
                continue
            out.append(("independent[%s,%d,%d]" % (c, L, k), "independent", dict(cls=c, L=L, kids=k)))
        out.append(("equal[%s]" % c, "equals", dict(cls=c)))
        out.append(("independent[%s,2,2,equal]" % c, "independent", dict(cls=c, L=2, kids=2, same=True)))
    out.append(("independent[BinStringMutation,6,2,equal]", "independent", dict(cls="BinStringMutation", L=6, kids=2, same=True)))
    out += [("facade[%s]" % a, "facades", dict(algo=a)) for a in ALGOS]
    return out + run_items(["o_mutlevel"], count=2 if t else 1)
