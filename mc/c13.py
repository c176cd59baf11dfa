"""C13: stopping.  All improvement histories x early-stop limits x generation limits for every algorithm class; all
histories of small Pareto sets through MultiGaData.update and small multi-objective runs."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items, o_stop, pareto_points
from . import grid as GR

BASE = {
    "binary": Cfg("binary", ((0, 7, 1), (0, 3, 1)), None, n=3, tournament_size=2),
    "gray": Cfg("gray", ((0, 7, 1),), None, n=3, tournament_size=2),
    "cat": Cfg("cat", (["a", "b", "c"], (0, 3, 1)), None, n=3, tournament_size=2),
    "order": Cfg("order", (0, 4, 4), None, n=3, tournament_size=2),
    "collector": Cfg("binary", ((0, 7, 1), (0, 3, 1)), None, n=3, mode="collector"),
    "collector_order": Cfg("order", (0, 4, 4), None, n=3, mode="collector",
                           ops={"selection": G.RankedSelection, "mutation": G.InversionMutation}),
}


def with_opts(base, obj, g, **o):
    return Cfg(base.algo, base.gens, obj, n=base.n, g=g, mode=base.mode, ops=base.ops, **{**base.opts, **o})


def expected(improves, g, es):
    """improves[t] for generations 1..; returns (generations produced, no-improvement counter at the end)"""
    noimp, k = 0, 0
    for k in range(1, g):
        noimp = 0 if improves[k - 1] else noimp + 1
        if es is not None and noimp > es:
            break
    return (k + 1 if g > 1 else 1), noimp


def run_pattern(rec, which, pattern, g, es, target=None, seed=1, by=1.0, conds=None, data=None, **extra):
    """pattern: per generation '+' better, '=' equal, '-' worse than the best so far"""
    state = {"gen": 0, "best": 50.0, "next": 50.0}

    def full(v):
        return v if conds is None else tuple(v if c == "optimize" else -1 if c == "<=" else 0 for c in conds)

    def obj(*args):
        t = state["gen"]
        if t == 0:
            return full(50.0)
        c = pattern[t - 1]
        v = state["best"] + (-by if c == "+" else 0 if c == "=" else 3 * by)
        state["next"] = min(state["next"], v)
        return full(v)

    def hook(when, ev, d):
        if when == "after" and ev.kind == "update":
            state["gen"] += 1
            state["best"] = state["next"]
    o = dict(extra)
    if conds is not None:
        o.update(conditions=list(conds), penalty=G.DynamicPenalty())
    if data is not None:
        o["input_data"] = data
    if target is not None:
        o["obj_value"] = target
    if es != "default":
        o["early_stop"] = es
    cfg = with_opts(BASE[which], obj, g, **o)
    mon = cfg.run(Stream(seed), snaps=False, history=False, hook=hook)
    if not checked(rec, cfg, mon):
        return
    want, noimp = expected([c == "+" for c in pattern], g, 10 if es == "default" else es)
    r = mon.result
    gens = (len(r.historical_best), len(r.historical_mediocre), len(r.historical_worst), r.idx_generation,
            sum(e.kind == "update" for e in mon.events))
    tag = "%s%s num_generations=%d early_stop=%r history=%s%s" % (
        which, "" if conds is None and data is None and not extra else " %r" % ((conds, data, extra),), g, es, "".join(pattern) if len(pattern) < 40 else "".join(pattern[:40]) + "...", "" if by == 1 else " by %g" % by)
    if set(gens) != {want}:
        rec.fail("%s: %r generations instead of %d" % (tag, gens, want))
    elif r.num_generation_no_improve != noimp:
        rec.fail("%s: no-improvement counter %r instead of %d" % (tag, r.num_generation_no_improve, noimp))
    rec.done(1, len(mon.events))
    rec.state(tag)
    rec.sample(tag + ": %d generations" % want)


def patterns(rec, which, g, es, part, parts):
    for i, pt in enumerate(itertools.product("+=-", repeat=g - 1)):
        if i % parts == part:
            run_pattern(rec, which, pt, g, es, target=-100 if i % 2 else None, seed=i % 7, by=1.0 if i % 4 < 2 else 2.0 ** -40 if i % 2 == 0 else 1e-9)


def longer(rec, which):
    """limits beyond the enumerated depth: blocks of improvements and stagnation"""
    for es in (4, 5, 9, 10, 11, 30, "default", None):
        if es is None and BASE[which].mode == "collector":
            continue
        for g in (1, 2, 11, 12, 13, 30):
            for period in (1, 2, 5, 6, 7, 11, 12, 40):
                run_pattern(rec, which, ["+" if period < 40 and (t + 1) % period == 0 else "=-"[t % 2] for t in range(g)],
                            g, es, seed=period)


def far(rec, which):
    """limits and generation counts far beyond the enumerated depth"""
    for g, es, period in [(130, 60, 62), (130, 60, 61), (130, 60, 40), (150, 75, 999), (150, 75, 77), (220, 120, 999), (90, 55, 57),
                          (260, 100, 101), (320, 299, 999), (620, 5000, 999), (1050, 5000, 50), (1050, 520, 522)]:
        run_pattern(rec, which, ["+" if (t + 1) % period == 0 else "=-"[t % 2] for t in range(g)], g, es, seed=period)
        if BASE[which].mode != "collector" and es == 5000:
            run_pattern(rec, which, ["-="[t % 2] for t in range(g)], g, None, seed=3)


def options(rec, which, part, parts):
    """the same histories together with each of the other options"""
    sets = [dict(conds=("optimize", "<=")), dict(conds=("!=", "optimize", "<=")), dict(data=(1, 2)), dict(data=0), dict(target=50), dict(target=49),
            dict(target=0), dict(transfer_parents="random"), dict(children_percent=1.0), dict(children_percent=0.4), dict(mutation_lvl=0.0),
            dict(mutation_lvl="strong"), dict(conds=("optimize", "<="), data=7, target=-60)]
    if BASE[which].algo == "binary":
        sets += [dict(input_population=[[1, 2]])]
    for i, o in enumerate(sets):
        if i % parts != part:
            continue
        for g, es in ((1, 0), (4, 0), (5, 1), (6, 2), (13, "default"), (14, None)):
            if es is None and BASE[which].mode == "collector":
                continue
            for pt in itertools.product("+=-", repeat=min(g - 1, 3)):
                if o.get("target") in (0, 49, 50) and "+" in pt and pt.index("+") < len(pt) - (1 if o["target"] else 0) and o["target"] != 0:
                    continue
                if "target" in o and o["target"] in (49, 50) and "-" in pt:
                    pt = tuple(c.replace("-", "=") for c in pt)
                if o.get("target") == 50 and "+" in pt:
                    continue
                run_pattern(rec, which, list(pt) + ["="] * (g - 1 - len(pt)), g, es, seed=i, **o)


MULTI = {
    "vega": Cfg("vega", ((0, 3, 1),), None, n=3, tournament_size=2, mutation_lvl=0.5),
    "vega_gray": Cfg("vega_gray", ((0, 1, 1), (0, 1, 1)), None, n=4, tournament_size=3, transfer_parents="random"),
    "ffga": Cfg("ffga", ((0, 3, 1),), None, n=3, mutation_lvl=0.5),
    "ffga_gray": Cfg("ffga_gray", ((0, 1, 1), (0, 1, 1)), None, n=2),
    "vega_collector": Cfg("vega", ((0, 3, 1),), None, n=3, mode="collector", num_objectives=2, mutation_lvl=0.5),
    "ffga_collector": Cfg("ffga", ((0, 3, 1),), None, n=3, mode="collector", mutation_lvl=0.5),
}


def multi_runs(rec, which, g, es, seeds, alphabet):
    """all value tables over the four points of the search space"""
    if es is None and which.endswith("collector"):
        es = 40
    for s in seeds:
        cfg = with_opts(MULTI[which], None, g, early_stop=es)
        for tr, mon in env_runs(cfg, alphabet, s, memo=True):
            if mon.exc is not None:
                rec.fail("%s values=%r raised %r" % (cfg, tr, mon.exc))
                continue
            o_stop(rec, mon.cfg, mon)
            rec.state((which, g, es, s, tuple(tr)))
            rec.done(1, len(mon.events))
        rec.sample("%s seed=%d" % (cfg, s))


def far_multi(rec, which):
    """no children, so the Pareto set stays as it is: limits far beyond the enumerated depth"""
    for g, es in [(60, None), (60, 54), (130, None), (130, 99), (130, 100), (130, 101), (130, 55), (320, None), (320, 250), (520, 510)]:
        if es is None and which.endswith("collector"):
            es = 5000
        cfg = with_opts(MULTI[which], GR.m_two, g, early_stop=es, children_percent=0.0)
        mon = cfg.run(Stream(g))
        if mon.exc is not None:
            rec.fail("%s raised %r" % (cfg, mon.exc))
            continue
        o_stop(rec, cfg, mon)
        ups = sum(e.kind == "update" for e in mon.events)
        rec.state((which, g, es, ups))
        rec.done(1, len(mon.events))


def large_multi(rec, which):
    """larger generations whose Pareto set stops changing"""
    base = MULTI[which]
    for n in (15, 20, 33, 60, 101):
        for g, es in ((9, 0), (9, 2), (16, "default"), (6, 40)):
            for cp in (0.0, 0.1):
                o = dict(base.opts, children_percent=cp, **({} if es == "default" else {"early_stop": es}))
                cfg = Cfg(base.algo, ((0, 1023, 1),), GR.m_two if cp else GR.m_tie, n=n, g=g, mode=base.mode, ops=base.ops, **o)
                mon = cfg.run(Stream(n))
                if mon.exc is not None:
                    rec.fail("%s raised %r" % (cfg, mon.exc))
                    continue
                o_stop(rec, cfg, mon)
                rec.state((which, n, g, es, cp))
                rec.done(1, len(mon.events))
                rec.notes["larger runs that stopped early"] += mon.result.idx_generation < g


def multi_options(rec, which):
    """unchanging and changing Pareto sets together with each of the other options"""
    cl = ["optimize", "<=", "optimize"]
    sets = [dict(conditions=cl, penalty=G.DynamicPenalty), dict(conditions=["!=", "optimize", "optimize", "<="], penalty=G.AdaptivePenalty),
            dict(input_data=(1,)), dict(input_data=0), dict(transfer_parents="random"), dict(mutation_lvl=0.0), dict(mutation_lvl="strong")]
    if which.startswith("vega"):
        sets.append(dict(obj_value=[1, 2]))
    for o in sets:
        for cp in (0.0, 0.95):
            for g, es in ((1, 0), (4, 0), (5, 0), (6, 1), (8, 2), (14, 10), (9, None), (13, "default")):
                if es is None and which.endswith("collector"):
                    continue
                for seed in (1, 2):
                    f = GR.cond_obj(o["conditions"]) if "conditions" in o else GR.m_two
                    q = dict(o, children_percent=cp)
                    if "penalty" in q:
                        q["penalty"] = q["penalty"]()
                        q["conditions"] = list(q["conditions"])
                    if es != "default":
                        q["early_stop"] = es
                    if which == "vega_collector":
                        q["num_objectives"] = 2
                    if cp and which.startswith("ffga"):
                        g = min(g, 6)
                    cfg = with_opts(MULTI[which], f, g, **q)
                    mon = cfg.run(Stream(seed))
                    if mon.exc is not None:
                        rec.fail("%s raised %r" % (cfg, mon.exc))
                        continue
                    o_stop(rec, cfg, mon)
                    rec.state((which, repr(sorted(o)), cp, g, es, seed))
                    rec.done(1, len(mon.events))


def multi_updates(rec, gens, part, parts):
    """all short histories of two-individual generations: genotypes over two letters, ranks 1/2"""
    inds = [(g, r) for g in "ab" for r in (1, 2)]
    pops = [p for p in itertools.product(inds, repeat=2) if any(r == 1 for _, r in p)]
    pops += [(("a", 1),), (("b", 1), ("a", 1), ("a", 2))]
    for i, hist in enumerate(itertools.product(pops, repeat=gens)):
        if i % parts != part:
            continue
        d = G.MultiGaData(num_generations=9)
        noimp, cur = 0, None
        for t, pop in enumerate(hist):
            p = POP["binary"]()
            for k, (g, r) in enumerate(pop):
                p.add_dict(genotype=[g, "0"], phenotype=[k * 1.0 + t], score=[1.0 / (k + 1), t * 1.0], obj_score=[1, 2])
                p[-1]["rank"] = r
                p[-1]["idx_individ"] = (k + t) % 3
            d.population = p
            d.update()
            ps = sorted(g for g, r in pop if r == 1)
            noimp = 0 if ps != cur else noimp + 1
            cur = ps
            if d.num_generation_no_improve != noimp or d.idx_generation != t + 1:
                rec.fail("history %r: no-improvement counter %r instead of %d" % (
                    hist[:t + 1], d.num_generation_no_improve, noimp))
                break
        rec.done(1, gens)
        rec.state(hist)


BOUNDS = {"quick": "all histories {better, equal, worse}^(g-1) for num_generations g=1..6 x early_stop 0,1,2,3,None for six "
                   "single-objective classes/modes; block histories up to 30 (12 of them up to 1050) generations; all value "
                   "tables over four points for small VEGA/FFGA runs; all histories of 3 Pareto generations of 2-3 "
                   "individuals; unchanging Pareto sets over up to 520 generations; about 130 monitored larger runs",
          "thorough": "as quick with g up to 8 and four Pareto generations"}
ASSUMPTIONS = []


def items(tier):
    t = tier == "thorough"
    out = []
    for w in BASE:
        for g in range(1, 9 if t else (7 if w in ("binary", "collector", "order", "cat") else 6)):
            for es in (0, 1, 2, 3, None):
                if es is None and BASE[w].mode == "collector":
                    continue
                parts = 1 if g < 7 else 4
                for p in range(parts):
                    out.append(("pattern[%s,g=%d,es=%r,%d]" % (w, g, es, p), "patterns",
                                dict(which=w, g=g, es=es, part=p, parts=parts)))
        out.append(("far[%s]" % w, "far", dict(which=w)))
        out.append(("longer[%s]" % w, "longer", dict(which=w)))
        for p in range(3):
            out.append(("options[%s,%d]" % (w, p), "options", dict(which=w, part=p, parts=3)))
    for w in MULTI:
        for g, es in ((1, 0), (2, 0), (4, 0), (6, 1), (6, 2), (7, None)) + (((9, 3), (9, 1)) if t else ()):
            out.append(("multi[%s,g=%d,es=%r]" % (w, g, es), "multi_runs",
                        dict(which=w, g=g, es=es, seeds=range(1, 9 if t else 3), alphabet=[(0, 1), (1, 0), (1, 1)])))
        out.append(("far[%s]" % w, "far_multi", dict(which=w)))
        out.append(("options[%s]" % w, "multi_options", dict(which=w)))
        out.append(("large[%s]" % w, "large_multi", dict(which=w)))
    for p in range(4):
        out.append(("updates[%d]" % p, "multi_updates", dict(gens=3 if not t else 4, part=p, parts=4)))
    return out + run_items(["o_stop"], count=2)
