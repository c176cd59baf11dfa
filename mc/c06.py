"""C06: mutation, all random outcomes."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items, neighbours, one_change
from . import grid as GR


def fresh(v):
    """an equal value that is (where Python allows) a different object, as values from the user's input are"""
    if type(v) is str:
        return "".join(list(v))
    if type(v) in (int, float):
        return type(v)(repr(v))
    return tuple(map(fresh, v)) if type(v) is tuple else v


def situation(kind, gens, genotypes, gen=0):
    d = G.GaData(num_generations=1000)
    d.idx_generation = gen
    old = core._driver
    core._driver = Stream(4)
    p = new_pop(kind, 2, gens)
    core._driver = old
    for i, ind in enumerate(p):
        ind["score"], ind["obj_score"] = 1.0 + i, 2.0 + i
    d.population = p
    d.parents = POP[kind]()
    d.parents.extend(copy.deepcopy(list(p)))
    d.children = POP[kind]()
    for g in genotypes:
        c = dict.fromkeys(p[0].keys())
        c["feasible"] = True
        c["genotype"] = [fresh(x) for x in g]
        d.children.append(c)
    return d


def run_mut(cls, lvl, kind, gens, genotypes):
    op = cls(lvl)
    d = situation(kind, gens, genotypes)
    b = Snap(d)
    op.execute(d)
    return b, Snap(d)


def common(rec, b, a, cls, trace):
    if len(a.chi) != len(b.chi):
        rec.fail("mutation changed the number of children", cls=cls.__name__, trace=trace)
        return False
    if essences(a.pop) != essences(b.pop) or essences(a.par) != essences(b.par):
        rec.fail("mutation touched the population or the parents", cls=cls.__name__, trace=trace)
    for x, y in zip(b.chi, a.chi):
        if {k: v for k, v in x.items() if k != "genotype"} != {k: v for k, v in y.items() if k != "genotype"}:
            rec.fail("mutation changed more than the genotype", cls=cls.__name__, before=x, after=y, trace=trace)
    if len(set(a.cgids)) != len(a.cgids) or set(a.cgids) & set(a.gids + a.pgids):
        rec.fail("mutated children share storage", cls=cls.__name__, trace=trace)
    return True


def binary(rec, L, kids, kind):
    """every genotype, every coin pattern: exactly the chosen bits are flipped, every subset occurs"""
    gens = ((0, 1, 1),) * L
    dom = list(itertools.product("01", repeat=L))
    for gs in itertools.product(dom, repeat=kids):
        seen = collections.Counter()
        cov = Cover()
        for lf in explore_all(lambda: run_mut(G.BinStringMutation, 0.5, kind, gens, gs), cov, ("bits", L, kids)):
            rec.leaf(lf)
            if lf.exc is not None:
                rec.fail("raised %r" % lf.exc, genotypes=gs, trace=lf.choices)
                return
            if lf.cut:
                continue
            b, a = lf.result
            if not common(rec, b, a, G.BinStringMutation, lf.choices):
                return
            pat = []
            for g, c in zip(gs, a.chi):
                h = c["genotype"]
                if not genotype_ok(kind, gens, h):
                    rec.fail("mutation left the domain", before=g, after=h, trace=lf.choices)
                    return
                pat.append(tuple(x != y for x, y in zip(g, h)))
            seen[tuple(pat)] += lf.weight
            rec.state((gs, pat))
        if cov.complete(2 ** (L * kids)) and (len(seen) != 2 ** (L * kids) or (not cov.cut and len(set(seen.values())) > 1)):
            rec.fail("not every subset of bits can be flipped independently", genotypes=gs, patterns=len(seen))
    rec.sample("bits L=%d children=%d: all genotypes, all coin patterns" % (L, kids))


CATS = [(["a", "b"],), (["a", "b", "c"],), (["a"],), ((0, 3, 1),), ((0, 5, 2),), ((4, 4, 1),), ((0, 2, 5),),
        (["a"], ["p", "q"]), ([1, "1", 2.5],), (["x", "y"], (0, 4, 2)), ((0, 1, 1), (5, 5, 1), ["k", "l", "m"]),
        [[0, 1], [0, 1], [0, 1]], (["u", "v", "w", "z"], ["a", "b", "c"]),
        (["first", "second", "third"],), ([1000001, 2.5, "long name", -7.25],), ((0, 7, 4), (1, 6, 3)), ((-7, 0, 5),),
        ((1000, 1004, 2), [0.1, 0.2]), ([True, "True", None],), ([(1, 2), (2, 1)],)]


def categorical(rec, index, kids):
    gens = CATS[index]
    dom = list(itertools.product(*[cat_values(g) for g in gens]))
    free = [len(cat_values(g)) > 1 for g in gens]
    for gs in itertools.product(dom, repeat=kids):
        results = set()
        cov = Cover()
        for lf in explore_all(lambda: run_mut(G.CategoricalMutation, 0.5, "cat", gens, gs), cov, (index, kids, 0.5)):
            rec.leaf(lf)
            if lf.exc is not None:
                rec.fail("raised %r" % lf.exc, gens=gens, genotypes=gs, trace=lf.choices)
                return
            if lf.cut:
                continue
            b, a = lf.result
            if not common(rec, b, a, G.CategoricalMutation, lf.choices):
                return
            for c in a.chi:
                if not genotype_ok("cat", gens, c["genotype"]):
                    rec.fail("mutation left the domain", gens=gens, before=gs, after=c["genotype"], trace=lf.choices)
                    return
            results.add(tuple(tuple(c["genotype"]) for c in a.chi))
            rec.state((gs, [c["genotype"] for c in a.chi]))
        if cov.complete(len(dom) ** kids) and \
                {repr(r) for r in results} != {repr(r) for r in itertools.product(dom, repeat=kids)}:
            rec.fail("not every other allowed value is possible", gens=gens, genotypes=gs,
                     missing=len(dom) ** kids - len(results))
        # with certainty every gene with an alternative really differs, all alternatives possible
        sure = set()
        cov = Cover()
        for lf in explore_all(lambda: run_mut(G.CategoricalMutation, 1.0, "cat", gens, gs), cov, (index, kids, 1.0)):
            rec.leaf(lf)
            if lf.exc is not None:
                rec.fail("raised %r" % lf.exc, gens=gens, genotypes=gs, trace=lf.choices)
                return
            if lf.cut:
                continue
            for g, c in zip(gs, lf.result[1].chi):
                for x, y, fr in zip(g, c["genotype"], free):
                    if (x == y and type(x) is type(y)) == fr:
                        rec.fail("a mutated gene does not differ" if fr else "a gene with one value changed", gens=gens,
                                 before=g, after=c["genotype"], trace=lf.choices)
            sure.add(tuple(repr(c["genotype"]) for c in lf.result[1].chi))
        want = {tuple(repr(list(h)) for h in hs) for hs in itertools.product(*[
            [h for h in dom if all((repr(x) != repr(y)) == fr for x, y, fr in zip(g, h, free))] for g in gs])}
        if sure - want or (sure != want and cov.complete(len(want))):
            rec.fail("certain mutation does not reach exactly the genotypes differing everywhere", gens=gens, before=gs,
                     got=len(sure), want=len(want))
    rec.sample("categorical %r children=%d: %d genotypes" % (gens, kids, len(dom)))


def combinatory(rec, cls, L, lvl):
    """exact neighbourhood of one change for a genotype of length L"""
    C = getattr(G, cls)
    gens = (0, L - 1, L)
    bases = [list(range(L))]
    if L <= 4:
        bases = [list(p) for p in itertools.permutations(range(L))]
    elif L <= 12:
        bases.append(list(range(L))[::-1])
        bases.append(list(range(1, L)) + [0])
    for g in bases:
        got = set()
        cov = Cover()
        for lf in explore_all(lambda: run_mut(C, lvl, "order", gens, [g]), cov, (cls, L, lvl)):
            rec.leaf(lf)
            if lf.exc is not None:
                rec.fail("raised %r" % lf.exc, cls=cls, genotype=g, trace=lf.choices)
                return
            if lf.cut:
                continue
            b, a = lf.result
            if not common(rec, b, a, C, lf.choices):
                return
            got.add(tuple(a.chi[0]["genotype"]))
            rec.state((cls, g, a.chi[0]["genotype"]))
        want = neighbours(C, g)
        if lvl < 1:
            want = want | {tuple(g)}
        if got - want or (got != want and cov.complete(len(want))):
            rec.fail("reachable children are not exactly the single changes", cls=cls, genotype=g,
                     missing=sorted(want - got)[:3], extra=sorted(got - want)[:3])
    rec.sample("%s L=%d: %d neighbours" % (cls, L, len(want)))


def partial(rec, cls):
    """ordered selections (not permutations of 0..L-1), several children: each child changed by at most one step,
    the unmutated ones untouched, all coin patterns"""
    C = getattr(G, cls)
    gens = (0, 9, 4)
    gs = [[7, 2, 9, 0], [1, 8, 3, 5], [4, 6, 0, 2]]
    pats, cov = set(), Cover()
    for lf in explore_all(lambda: run_mut(C, 0.5, "order", gens, gs[:2]), cov, ("partial", cls)):
        rec.leaf(lf)
        if lf.exc is not None:
            rec.fail("raised %r" % lf.exc, cls=cls, trace=lf.choices)
            return
        if lf.cut:
            continue
        b, a = lf.result
        if not common(rec, b, a, C, lf.choices):
            return
        pat = []
        for g, c in zip(gs, a.chi):
            h = c["genotype"]
            if h != g and tuple(h) not in neighbours(C, g):
                rec.fail("child changed by more than one step", cls=cls, before=g, after=h, trace=lf.choices)
            pat.append(h != g)
        pats.add(tuple(pat))
        rec.state((cls, [c["genotype"] for c in a.chi]))
    if len(pats) != 4 and cov.complete(4):
        rec.fail("children are not mutated independently", cls=cls, patterns=sorted(pats))


BIGCAT = [(list(range(40)),), ((0, 300, 1),), ([str(i) for i in range(100)], ["a", "b"]), ((0, 1500, 1),), ((-2000, 2000, 1), (0, 99, 3)),
          (list(range(0, 1200, 3)),)]


def values(rec, index):
    """genes with many values: all single-draw deviations; every other value is reached (all of them up to 4096 values)"""
    gens = BIGCAT[index]
    for s in range(2):
        r = OrigRandom(index * 7 + s)
        g = [r.choice(cat_values(x)) for x in gens]
        got = [set() for _ in gens]
        single = True
        for (b, a), at in deviations(lambda: run_mut(G.CategoricalMutation, 1.0, "cat", gens, [g]), s):
            common(rec, b, a, G.CategoricalMutation, at)
            h = a.chi[0]["genotype"]
            if not genotype_ok("cat", gens, h):
                rec.fail("mutation left the domain", gens=gens, before=g, after=h)
            if any(x == y for x, y in zip(g, h)):
                rec.fail("a mutated gene does not differ", gens=gens, before=g, after=h)
            for i, y in enumerate(h):
                got[i].add(y)
            rec.state((index, s, h))
            rec.done(1, 1)
        for i, (x, gv) in enumerate(zip(gens, got)):
            dom = [v for v in cat_values(x) if v != g[i]]
            blocks = min(40, len(dom))
            hit = {j * blocks // len(dom) for j, v in enumerate(dom) if v in gv}
            if len(hit) < blocks:
                rec.fail("not every other allowed value is possible", gens=gens, gene=i, genotype=g,
                         block=sorted(set(range(blocks)) - hit)[:3], of=blocks)
    rec.sample("categorical gene with %d values" % len(cat_values(gens[0])))


def reach(rec, cls, L):
    """long genotypes: all single-draw deviations from 4 streams and 40 L more streams: one legal change each, every position can be
    an end of it, ends near and far apart (missing one on fair streams is rarer than 1e-12)"""
    C = getattr(G, cls)
    g = list(range(L))
    seen, gaps = set(), set()

    def go():
        return run_mut(C, 1.0, "order", (0, L - 1, L), [g])

    def streams():
        for seed in range(40 * L):
            set_driver(Stream(GR.SEED * 70001 + seed))
            yield go(), None
    for src in [streams()] + [deviations(go, GR.SEED * 10 + s, units=64) for s in range(4)]:
        for (b, a), at in src:
            h = a.chi[0]["genotype"]
            d = [i for i, (x, y) in enumerate(zip(g, h)) if x != y]
            if len(h) != L or not d or not one_change(C, g, h):
                rec.fail("child changed by more or less than one step", cls=cls, L=L, after=h, trace=at)
                continue
            seen.update((d[0], d[-1]))
            gaps.add(d[-1] - d[0])
            rec.state((cls, L, tuple(h)))
            rec.done(1, 1)
    if set(g) - seen:
        rec.fail("a position is never an end of the change", cls=cls, L=L, missing=sorted(set(g) - seen)[:5])
    if max(gaps) < 0.85 * L or min(gaps) > 4:
        rec.fail("changes are never %s" % ("long" if max(gaps) < 0.85 * L else "short"), cls=cls, L=L)
    rec.sample("%s length %d" % (cls, L))


def large(rec, cls):
    C = getattr(G, cls)
    order = cls not in ("BinStringMutation", "CategoricalMutation")
    for L in (10, 33, 100) + (() if order else (300, 1100)):
        for kids in (1, 17) if L < 200 else (1,):
            for s in range(10 if L < 200 else 2):
                r = OrigRandom(L * 31 + s)
                if order:
                    kind, gens = "order", (0, L, L)
                    gs = [r.sample(range(L + 1), L) for _ in range(kids)]
                elif cls == "BinStringMutation":
                    kind, gens = "binary", ((0, 1, 1),) * L
                    gs = [[r.choice("01") for _ in range(L)] for _ in range(kids)]
                else:
                    kind, gens = "cat", tuple([list("abc"), (0, 6, 2), ["k"]][i % 3] for i in range(L))
                    gs = [[r.choice(cat_values(x)) for x in gens] for _ in range(kids)]
                for lvl in (1.0, 0.3, 0.0):
                    set_driver(Stream(s))
                    b, a = run_mut(C, lvl, kind, gens, gs)
                    common(rec, b, a, C, None)
                    for g, c in zip(gs, a.chi):
                        h = c["genotype"]
                        if not genotype_ok(kind, gens, h):
                            rec.fail("mutation left the domain", cls=cls, before=g, after=h)
                        elif order and h != g and not one_change(C, g, h):
                            rec.fail("child changed by more than one step", cls=cls, before=g, after=h)
                        if lvl == 1.0 and order and h == g:
                            rec.fail("a mutated child does not differ", cls=cls, genotype=g)
                        if lvl == 1.0 and not order and any(x == y and (kind == "binary" or len(cat_values(gene)) > 1) for x, y, gene in zip(g, h, gens)):
                            rec.fail("a mutated gene does not differ", cls=cls, L=L, position=[x == y for x, y in zip(g, h)].index(True))
                    rec.state((cls, L, kids, s, lvl))
                    rec.done(1, 1)


CM = ["SwapMutation", "MovementMutation", "InversionMutation", "ShiftMutation"]
BOUNDS = {"quick": "bits: all genotypes and coin patterns up to L=4 (1 child), L=2 (2 children); categorical: 20 gene "
                   "families, all genotypes, all outcomes; combinatory: exact neighbourhoods for L=2..9, 13, 17, 24; "
                   "categorical genes of up to 4001 values: all single-draw deviations of 2 streams; sizes up to 100 on "
                   "fair streams"}


def items(tier):
    t = tier == "thorough"
    out = []
    for kind in ("binary", "gray"):
        for L, k in [(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (1, 2), (2, 2), (1, 3)] + ([(6, 1), (3, 2)] if t else []):
            out.append(("bits[%s,%d,%d]" % (kind, L, k), "binary", dict(L=L, kids=k, kind=kind)))
    for i, g in enumerate(CATS):
        n = 1
        for x in g:
            n *= len(cat_values(x))
        out.append(("cat[%d]" % i, "categorical", dict(index=i, kids=1)))
        if n <= (6 if t else 4):
            out.append(("cat2[%d]" % i, "categorical", dict(index=i, kids=2)))
    for c in CM:
        for L in list(range(2, 13 if t else 10)) + [13, 17, 24] + ([32] if t else []) + [40]:
            for lvl in (1.0, 0.5) if L < 13 else (1.0,):
                out.append(("%s[%d,%s]" % (c, L, lvl), "combinatory", dict(cls=c, L=L, lvl=lvl)))
        out.append(("partial[%s]" % c, "partial", dict(cls=c)))
    out += [("values[%d]" % i, "values", dict(index=i)) for i in range(len(BIGCAT))]
    out += [("reach[%s,%d]" % (c, L), "reach", dict(cls=c, L=L)) for c in CM for L in (70, 150)]
    out += [("large[%s]" % c, "large", dict(cls=c)) for c in CM + ["BinStringMutation", "CategoricalMutation"]]
    return out + run_items(["o_mutation"], count=3 if t else 1)
