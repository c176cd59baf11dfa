"""Reference oracles over recorded runs; each takes (rec, cfg, mon) and reports through rec.fail."""
import collections, math
from . import core
from .core import Stream
from .util import *
from . import grid as GR

Counter = collections.Counter


# --------------------------------------------------------------------------------------------- references
def ref_sum(conds, values, power):
    return sum((abs(v) if c == "!=" else max(0, v)) ** power for c, v in zip(conds, values))


def ref_feasible(conds, values):
    return all(v == 0 if c == "!=" else v <= 0 for c, v in zip(conds, values))


def ref_static(tab, conds, values):
    tot = 0
    for i, (c, v) in enumerate(zip(conds, values)):
        size = abs(v) if c == "!=" else v
        if size <= 0:
            continue
        name = "equality" if c == "!=" else "inequality"
        for (lo, hi), r in zip(tab[name + "_intervals"][i], tab[name + "_r_coef"][i]):
            if lo <= size < hi:
                tot += (r * size) ** 2
                break
        else:
            return None
    return tot


def ref_penalty(pen, conds, values, gen, best_feasible):
    p = penalty_params(pen)
    if p[0] == "dynamic":
        _, delta, c, alpha, betta = p
        return delta * (c * gen) ** alpha * ref_sum(conds, values, betta)
    if p[0] == "adaptive":
        _, delta, b1, b2, betta = p
        lam = 0 if gen == 0 else (10 / b1 if best_feasible else 10 * b2)
        return delta * lam * ref_sum(conds, values, betta)
    if p[0] == "own":
        return p[1](conds, values)
    return ref_static(p[1], conds, values)


_pen = {}


def note_penalty(pen, params):
    """remember the constructor arguments of a penalty object (its attributes are not consulted)"""
    _pen[id(pen)] = (pen, params)
    return pen


def penalty_params(pen):
    if id(pen) in _pen:
        return _pen[id(pen)][1]
    raise KeyError("unregistered penalty")


def _grid_penalty(which, conditions):
    params = {"dynamic": ("dynamic", 1, 0.5, 2, 2), "dynamic2": ("dynamic", 2, 1.5, 1, 1),
              "adaptive": ("adaptive", 1, 1.1, 1.2, 2), "adaptive2": ("adaptive", 3, 2.0, 1.5, 1)}
    if which == "static":
        return note_penalty(_orig_penalty(which, conditions), ("static", GR.static_tables(conditions)))
    return note_penalty(_orig_penalty(which, conditions), params[which])


_orig_penalty = GR.penalty
GR.penalty = _grid_penalty


def ref_score(value, target, pen):
    return -(value + pen) if target is None else 1.0 / (1 + abs(target - value) + pen)


def dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def point_of(ind):
    return ind["phenotype"] if ind.get("phenotype") is not None else ind["genotype"]


def same_point(a, b):
    return len(a) == len(b) and all(x == y if isinstance(x, str) or isinstance(y, str) else close(x, y)
                                    for x, y in zip(a, b))


# --------------------------------------------------------------------------------------- driver for items
def monitored(rec, oracles, part, parts, count=1, streams=1, which=None, conditional=True, big=True, cond_only=False,
              source="wide"):
    kw = {} if which is None else {"which": tuple(which)}
    if source == "scale":
        cfgs, streams = GR.scale(conditional=conditional, **kw)[part::parts], 1
    else:
        cfgs = GR.wide(count, conditional=conditional, big=big, **kw)[part::parts]
    for cfg in cfgs:
        if cond_only and "conditions" not in cfg.opts:
            continue
        for s in range(streams):
            mon = cfg.run(Stream(GR.SEED * 1000 + s * 7 + 3))
            if not checked(rec, cfg, mon):
                continue
            for o in oracles:
                globals()[o](rec, cfg, mon)
            for e in mon.events:
                if e.kind == "update":
                    rec.state((cfg.algo, essences(e.after.pop)))
            rec.done(1, len(mon.events))
            rec.sample("%s: %d generations" % (cfg, sum(e.kind == "update" for e in mon.events)))


def run_items(oracles, parts=8, **kw):
    return [("runs[%d/%d]" % (i, parts), "monitored", dict(oracles=oracles, part=i, parts=parts, **kw))
            for i in range(parts)] + [
        ("scale[%d/8]" % i, "monitored", dict(oracles=oracles, part=i, parts=8, source="scale", **kw)) for i in range(8)]


def of(mon, kind):
    return [e for e in mon.events if e.kind == kind]


# ------------------------------------------------------------------------------------------------- C03/C04
def o_first(rec, cfg, mon):
    e = of(mon, "fitness")[0]
    pop = e.before.pop
    if len(pop) != cfg.n:
        rec.fail("first generation has %d individuals instead of %d" % (len(pop), cfg.n), cfg=cfg)
    inp = cfg.opts.get("input_population") or []
    for i, ind in enumerate(pop):
        g = ind["genotype"]
        if not genotype_ok(cfg.kind, cfg.gens, g):
            rec.fail("individual %d of the first generation is outside the domain" % i, cfg=cfg, genotype=g)
        if i < len(inp):
            if cfg.kind in ("binary", "gray"):
                v = decode(g, cfg.gens, cfg.kind)
                for gene, a, b in zip(cfg.gens, v, inp[i]):
                    half = (gene[1] - gene[0]) / (2 ** gene_bits(gene, cfg.kind) - 1) / 2
                    if abs(a - b) > half * (1 + 1e-6) + 1e-12:
                        rec.fail("user individual %d not represented by the nearest grid point" % i, cfg=cfg,
                                 given=inp[i], got=v)
            elif list(inp[i]) != g:
                rec.fail("user individual %d is not individual %d of the first generation" % (i, i), cfg=cfg,
                         given=inp[i], got=g)
    if len(set(e.before.ids)) != len(pop) or len(set(e.before.gids)) != len(pop):
        rec.fail("individuals of the first generation share storage", cfg=cfg)
    if set(e.before.gids) & {id(x) for x in inp}:
        rec.fail("first generation shares storage with the user's input", cfg=cfg)


def o_domain(rec, cfg, mon):
    data = cfg.opts.get("input_data")
    for args, val, live in mon.calls:
        if len(args) != (1 if data is None else 2):
            rec.fail("objective called with %d arguments" % len(args), cfg=cfg, args=args)
            continue
        if data is not None and not (args[0] == data and type(args[0]) is type(data)):
            rec.fail("input data not passed along unchanged", cfg=cfg, args=args)
        if not point_ok(cfg.kind, cfg.gens, args[-1]):
            rec.fail("objective called outside the search space", cfg=cfg, args=args)
    for e in mon.events:
        for where, pop in (("population", e.after.pop), ("children", e.after.chi), ("parents", e.after.par)):
            for ind in pop or []:
                if not genotype_ok(cfg.kind, cfg.gens, ind["genotype"]):
                    rec.fail("%s holds an individual outside the domain after %s" % (where, e.kind), cfg=cfg, ind=ind)
                ph = ind.get("phenotype")
                if ph is not None and not same_point(ph, decode(ind["genotype"], cfg.gens, cfg.kind)):
                    rec.fail("decoded values do not belong to the genotype (%s after %s)" % (where, e.kind),
                             cfg=cfg, ind=ind)
        b = e.after.best
        if b is not None:
            for ind in (b["pareto_set"] if cfg.multi else [b]):
                if not genotype_ok(cfg.kind, cfg.gens, ind["genotype"]):
                    rec.fail("best solution outside the domain", cfg=cfg, ind=ind)
                if cfg.kind in ("binary", "gray") and not (ind.get("phenotype") is not None and same_point(
                        ind["phenotype"], decode(ind["genotype"], cfg.gens, cfg.kind))):
                    rec.fail("best solution's decoded values do not belong to its genotype", cfg=cfg, ind=ind)


def o_phenotype(rec, cfg, mon):
    """C01 in runs: whatever is evaluated is the decoding of the genotype on the reference grid"""
    if cfg.kind not in ("binary", "gray"):
        return
    for e in of(mon, "fitness"):
        for ind in e.after.pop:
            if ind["phenotype"] is None or not same_point(ind["phenotype"], decode(ind["genotype"], cfg.gens, cfg.kind)):
                rec.fail("decoded values do not belong to the genotype", cfg=cfg, ind=ind)


# ----------------------------------------------------------------------------------------------- crossover
def recombined(cls, child, a, b):
    """could `child` be an offspring of genotypes a, b under crossover class `cls`"""
    n = len(a)
    if len(child) != n:
        return False
    if cls is G.OnePointCrossover:
        if n == 1:
            return child in (a, b)
        for p, q in ((a, b), (b, a)):
            i = next((i for i in range(n) if child[i] != p[i]), n)      # longest common prefix with p
            if child[min(i, n - 1):] == q[min(i, n - 1):] and i >= 1:
                return True
        return False
    if cls is G.TwoPointCrossover:
        if n <= 2:
            return all(c in (x, y) for c, x, y in zip(child, a, b))
        for p, q in ((a, b), (b, a)):
            d = [i for i in range(n) if child[i] != p[i]]
            if not d:
                if any(p[i] == q[i] for i in range(1, n - 1)):
                    return True
            elif d[0] >= 1 and d[-1] <= n - 2 and child[d[0]:d[-1] + 1] == q[d[0]:d[-1] + 1]:
                return True
        return False
    if cls is G.UniformCrossover:
        return all(c == x or c == y for c, x, y in zip(child, a, b))
    if len(set(child)) != n:
        return False
    if set(a) == set(b) and set(child) != set(a):
        return False
    for p, q in ((a, b), (b, a)):
        q = set(q)
        alien = [i for i in range(n) if child[i] not in q]
        i = 0
        while i < n:
            if child[i] != p[i]:
                i += 1
                continue
            j = i
            while j < n and child[j] == p[j]:
                j += 1
            if all(i <= x < j for x in alien):
                return True
            i = j
    return False


def o_crossover(rec, cfg, mon):
    for e in of(mon, "crossover"):
        b, a = e.before, e.after
        per = getattr(e.op, "num_offsprings", 1)
        if len(a.chi) != per * (len(b.par) // 2):
            rec.fail("%d children for %d pairs" % (len(a.chi), len(b.par) // 2), cfg=cfg)
            continue
        for i, ch in enumerate(a.chi):
            p, q = b.par[2 * (i // per)], b.par[2 * (i // per) + 1]
            if not recombined(type(e.op), ch["genotype"], p["genotype"], q["genotype"]):
                rec.fail("child is not a %s recombination of its parents" % type(e.op).__name__, cfg=cfg,
                         child=ch["genotype"], p=p["genotype"], q=q["genotype"])
            if ch.get("score") is not None or ch.get("obj_score") is not None or ch.get("phenotype") is not None:
                rec.fail("child is not unevaluated", cfg=cfg, child=ch)
        if essences(b.pop) != essences(a.pop) or essences(b.par) != essences(a.par):
            rec.fail("crossover changed parents or population", cfg=cfg)
        ids = a.cids + a.ids + a.pids
        gids = a.cgids + a.gids + a.pgids
        if len(set(a.cids)) != len(a.cids) or set(a.cids) & set(a.ids + a.pids):
            rec.fail("offspring share storage", cfg=cfg)
        if len(set(a.cgids)) != len(a.cgids) or set(a.cgids) & set(a.gids + a.pgids):
            rec.fail("offspring share genotype storage", cfg=cfg)


# ------------------------------------------------------------------------------------------------ mutation
def neighbours(cls, g):
    """all results of exactly one mutation of the given combinatory kind (as tuples)"""
    n = len(g)
    out = set()
    g = list(g)
    if cls is G.SwapMutation:
        for i in range(n):
            for j in range(i + 1, n):
                h = g[:]
                h[i], h[j] = h[j], h[i]
                out.add(tuple(h))
    elif cls is G.MovementMutation:
        for i in range(n):
            for j in range(n):
                if i != j:
                    h = g[:]
                    h.insert(j, h.pop(i))
                    out.add(tuple(h))
    elif cls is G.InversionMutation:
        for i in range(n):
            for j in range(i + 2, n + 1):
                out.add(tuple(g[:i] + g[i:j][::-1] + g[j:]))
    else:
        for i in range(n):
            for j in range(i + 1, n):
                for k in range(j + 1, n + 1):
                    out.add(tuple(g[:i] + g[j:k] + g[i:j] + g[k:]))
    return out


def one_change(cls, g, h):
    """is h the result of one mutation of kind cls of g (distinct elements; linear time)"""
    n = len(g)
    d = [i for i in range(n) if g[i] != h[i]]
    if not d or len(h) != n:
        return False
    i, j = d[0], d[-1] + 1
    x, y = g[i:j], h[i:j]
    if cls is G.SwapMutation:
        return len(d) == 2 and x[0] == y[-1] and x[-1] == y[0]
    if cls is G.MovementMutation:
        return y == x[1:] + x[:1] or y == x[-1:] + x[:-1]
    if cls is G.InversionMutation:
        return y == x[::-1]
    k = x.index(y[0]) if y[0] in x else None
    return k is not None and y == x[k:] + x[:k]


def o_mutation(rec, cfg, mon):
    for e in of(mon, "mutation"):
        b, a = e.before, e.after
        if len(a.chi) != len(b.chi):
            rec.fail("mutation changed the number of children", cfg=cfg)
            continue
        cls = type(e.op)
        for x, y in zip(b.chi, a.chi):
            g, h = x["genotype"], y["genotype"]
            if not genotype_ok(cfg.kind, cfg.gens, h):
                rec.fail("mutation left the domain", cfg=cfg, before=g, after=h)
            elif cfg.kind == "order" and g != h and not one_change(cls, g, h):
                rec.fail("child changed by more than one %s" % cls.__name__, cfg=cfg, before=g, after=h)
            if [(k, v) for k, v in sorted(x.items()) if k != "genotype"] != \
                    [(k, v) for k, v in sorted(y.items()) if k != "genotype"]:
                rec.fail("mutation changed more than genotypes", cfg=cfg, before=x, after=y)
        if essences(b.pop) != essences(a.pop) or essences(b.par) != essences(a.par):
            rec.fail("mutation changed the population or the parents", cfg=cfg)


def o_mutlevel(rec, cfg, mon):
    lvl = cfg.opts.get("mutation_lvl", "normal")
    for e in of(mon, "mutation"):
        for x, y in zip(e.before.chi, e.after.chi):
            g, h = x["genotype"], y["genotype"]
            s = len(g)
            p = lvl if isinstance(lvl, float) else (
                {"weak": 0.03, "normal": 0.1, "strong": 0.3} if cfg.kind == "order" else
                {"weak": 0.3 / s, "normal": 1 / s, "strong": 3 / s})[lvl]
            if p <= 0 and g != h:
                rec.fail("mutated although the level is 0", cfg=cfg, before=g, after=h)
            if p >= 1:
                if cfg.kind == "order":
                    bad = g == h
                elif cfg.kind == "cat":
                    bad = any(u == v and len(set(map(repr, cat_values(gs)))) > 1 for u, v, gs in zip(g, h, cfg.gens))
                else:
                    bad = any(u == v for u, v in zip(g, h))
                if bad:
                    rec.fail("not mutated although the level is certainty", cfg=cfg, before=g, after=h)


# ----------------------------------------------------------------------------------------------- selection
def sel_common(rec, cfg, e, pairs_expected):
    b, a = e.before, e.after
    if len(a.par) != 2 * pairs_expected:
        rec.fail("%d parents instead of %d" % (len(a.par), 2 * pairs_expected), cfg=cfg)
        return False
    members = Counter(essences(b.pop))
    for i in range(0, len(a.par), 2):
        x, y = essence(a.par[i]), essence(a.par[i + 1])
        if x not in members or y not in members:
            rec.fail("a parent is not an individual of the current generation", cfg=cfg, pair=(x, y))
        elif x == y and members[x] < 2:
            rec.fail("a pair of parents consists of one individual twice", cfg=cfg, pair=(x, y))
    if Counter(essences(a.pop)) != members:
        rec.fail("selection changed the population's individuals", cfg=cfg)
    if len(set(a.pids)) != len(a.pids) or set(a.pids) & set(a.ids):
        rec.fail("parents are not independent copies", cfg=cfg)
    if len(set(a.pgids)) != len(a.pgids) or set(a.pgids) & set(a.gids):
        rec.fail("parents share genotype storage", cfg=cfg)
    return True


def o_tournament(rec, cfg, mon):
    for e in of(mon, "selection"):
        if type(e.op) is not G.TournamentSelection:
            continue
        b = e.before
        if not sel_common(rec, cfg, e, int(b.cp * b.n)):
            continue
        k = cfg.opts.get("tournament_size", 3 if cfg.mode == "facade" else 2)
        floor = sorted(i["score"] for i in b.pop)[k - 1]
        for p in e.after.par:
            if p["score"] < floor:
                rec.fail("one of the tournament_size-1 worst individuals became a parent", cfg=cfg, parent=p,
                         floor=floor)


def o_roulette(rec, cfg, mon):
    for e in of(mon, "selection"):
        if type(e.op) in (G.BalancedSelection, G.RankedSelection):
            sel_common(rec, cfg, e, int(e.before.cp * e.before.n))


def o_vega(rec, cfg, mon):
    for e in of(mon, "selection"):
        if type(e.op) not in (G.VEGATournamentSelection, G.VEGABalancedSelection, G.VEGARankedSelection):
            continue
        b = e.before
        m = len(b.pop[0]["score"])
        per = int(b.cp * b.n / m)
        if not sel_common(rec, cfg, e, m * per):
            continue
        if type(e.op) is G.VEGATournamentSelection:
            k = cfg.opts.get("tournament_size", 3 if cfg.mode == "facade" else 2)
            for j in range(m):
                floor = sorted(i["score"][j] for i in b.pop)[k - 1]
                for p in e.after.par[2 * per * j:2 * per * (j + 1)]:
                    if p["score"][j] < floor:
                        rec.fail("objective %d: one of its tournament_size-1 worst individuals became a parent" % j,
                                 cfg=cfg, parent=p, floor=floor)


# ------------------------------------------------------------------------------------------ new generation
def check_newgen(rec, b, a, transfer, cfg=None, kids=None):
    """b: snapshot before, a: after NewGeneration.execute"""
    kids = b.chi if kids is None else kids
    n, c, prev, new = b.n, len(kids), b.pop, a.pop
    want = max(n + 1, c + 1)
    if len(prev) >= want - c and len(new) != want:
        rec.fail("new generation has %d members instead of %d" % (len(new), want), cfg=cfg, children=c, prev=len(prev))
    ess_new = Counter(essences(new))
    ess_kids = Counter(essences(kids))
    if ess_kids - ess_new:
        rec.fail("a child is missing from the new generation", cfg=cfg)
        return
    surv = ess_new - ess_kids
    if set(surv) - set(essences(prev)):
        rec.fail("a survivor is not an unchanged member of the previous generation", cfg=cfg, survivors=surv)
        return
    best = max(i["score"] for i in prev)
    ss = sorted((dict(x)["score"] for x in surv.elements()), reverse=True)
    if not ss or freeze(ss[0]) != freeze(best):
        rec.fail("the best-scored individual did not survive", cfg=cfg, best=best, survivors=ss)
    distinct = len({freeze(i["genotype"]) for i in prev}) == len(prev)
    if distinct and any(v > 1 for v in surv.values()):
        rec.fail("an individual survives twice", cfg=cfg)
    if transfer == "best" and distinct:
        top = sorted((freeze(i["score"]) for i in prev), reverse=True)[:len(ss)]
        if [freeze(s) for s in ss] != top:
            rec.fail("survivors are not the top-scored individuals", cfg=cfg, survivors=ss, top=top)
    if len(set(a.ids)) != len(a.ids):
        rec.fail("an individual is present twice through a shared reference", cfg=cfg)
    if len(set(a.gids)) != len(a.gids):
        rec.fail("two individuals share one genotype object", cfg=cfg)


def o_newgen(rec, cfg, mon):
    if cfg.algo.startswith("ffga"):
        return
    size = None
    for e in of(mon, "new_generation"):
        check_newgen(rec, e.before, e.after, cfg.opts.get("transfer_parents", "best"), cfg)
        if size is not None and len(e.after.pop) != size:
            rec.fail("the population size changes over the run", cfg=cfg, sizes=(size, len(e.after.pop)))
        if e.before.chi:
            size = len(e.after.pop)


# ------------------------------------------------------------------------------------------- best, history
def o_best(rec, cfg, mon):
    if cfg.multi:
        return
    best, seen = None, None
    hist = []
    for e in of(mon, "update"):
        pop = e.before.pop
        scores = sorted(i["score"] for i in pop)
        hist.append((scores[-1], scores[len(scores) // 2], scores[0]))
        if best is None or scores[-1] > best[0]:
            best = (scores[-1], len(hist) - 1, Counter(essences(pop)))
        a = e.after
        sol = a.best
        if sol is None:
            rec.fail("no best solution", cfg=cfg)
            continue
        if sol["score"] != best[0]:
            rec.fail("best solution is not the highest-scored individual so far", cfg=cfg, best=best[0], sol=sol)
        elif sol["idx_generation"] != best[1]:
            rec.fail("best solution recorded with generation %r instead of %d" % (sol["idx_generation"], best[1]),
                     cfg=cfg)
        elif essence(sol) not in best[2]:
            rec.fail("best solution's data do not belong to one individual of its generation", cfg=cfg, sol=sol)
        if list(zip(a.hb, a.hm, a.hw)) != hist or not (len(a.hb) == len(a.hm) == len(a.hw)):
            rec.fail("history differs from the generations' best, middle and worst scores", cfg=cfg,
                     got=(a.hb, a.hm, a.hw), want=hist)
        if any(x > y for x, y in zip(a.hb, a.hb[1:])):
            rec.fail("best-score history decreases", cfg=cfg, hb=a.hb)
        if a.hb[-1] != sol["score"]:
            rec.fail("last best-score entry is not the best solution's score", cfg=cfg)
    evs = of(mon, "update")
    if mon.result is not None and evs:
        a = evs[-1].after
        r = mon.result
        if freeze(r.best_solution) != freeze(a.best) or r.historical_best != a.hb:
            rec.fail("returned result differs from the last generation's", cfg=cfg)


def pareto_points(s):
    return sorted(map(freeze, (i["genotype"] for i in s)))


def o_stop(rec, cfg, mon):
    es = cfg.opts.get("early_stop", 10)
    evs = of(mon, "update")
    noimp, top, cur = 0, None, None
    for k, e in enumerate(evs):
        if cfg.multi:
            ps = pareto_points([i for i in e.after.pop if i["rank"] == 1])
            imp = ps != cur
            cur = ps
        else:
            m = max(i["score"] for i in e.after.pop)
            imp = top is None or m > top
            top = m if imp else top
        noimp = 0 if imp else noimp + 1
        stop = k >= 1 and es is not None and noimp > es
        last = k == len(evs) - 1
        if stop and not last:
            rec.fail("run continued after %d generations without improvement (early_stop=%r)" % (noimp, es), cfg=cfg)
            return
        if last and not stop and k != max(cfg.g, 1) - 1:
            rec.fail("run stopped after %d of %d generations with %d generations without improvement (early_stop=%r)"
                     % (k + 1, cfg.g, noimp, es), cfg=cfg)
    if not evs or len(evs) > max(cfg.g, 1):
        rec.fail("%d generations produced, limit %d" % (len(evs), cfg.g), cfg=cfg)


# ------------------------------------------------------------------------------------------------- scoring
def o_score(rec, cfg, mon):
    """C14 (single objective)"""
    if cfg.multi:
        return
    data = cfg.opts.get("input_data")
    target = cfg.opts.get("obj_value")
    conds = cfg.opts.get("conditions")
    total = 0

    def answer(vals):
        if conds:
            return vals[conds.index("optimize")]
        return vals[0] if isinstance(vals, (list, tuple)) else vals
    for e in of(mon, "fitness"):
        new = [i for i in range(len(e.before.pop)) if e.before.pop[i]["score"] is None]
        total += len(new)
        if len(e.calls) != len(new):
            rec.fail("%d objective calls for %d new individuals" % (len(e.calls), len(new)), cfg=cfg)
            continue
        by_id = {i: ind for i, ind in zip(e.after.ids, e.after.pop)}
        pend = list(e.calls)
        for i in range(len(e.before.pop)):
            old, now = e.before.pop[i], by_id.get(e.before.ids[i])
            if now is None:
                rec.fail("evaluation replaced an individual", cfg=cfg)
                break
            if now["genotype"] != old["genotype"]:
                rec.fail("evaluation changed a genotype", cfg=cfg, before=old, after=now)
            if i not in new:
                if essence(now) != essence(old):
                    rec.fail("evaluation changed an individual that had a score", cfg=cfg, before=old, after=now)
                continue
            pt = decode(now["genotype"], cfg.gens, cfg.kind) if cfg.kind in ("binary", "gray") else now["genotype"]
            same = [k for k, c in enumerate(pend) if same_point(c[0][-1], pt)]
            if not same:
                rec.fail("no objective call with this individual's values", cfg=cfg, ind=now)
                continue
            # equal individuals: whichever call returned this individual's value
            hit = pend.pop(next((k for k in same if answer(pend[k][1]) == now["obj_score"]), same[0]))
            if len(hit[0]) != (1 if data is None else 2) or (data is not None and (
                    hit[0][0] != data or type(hit[0][0]) is not type(data))):
                rec.fail("input data not passed as first argument", cfg=cfg, args=hit[0])
            vals = hit[1]
            v = answer(vals)
            if not (now["obj_score"] == v):
                rec.fail("objective value is not what the call returned", cfg=cfg, ind=now, returned=vals)
                continue
            if not conds and not close(now["score"], ref_score(v, target, 0)):
                rec.fail("score does not follow the formula", cfg=cfg, ind=now, want=ref_score(v, target, 0))
            if conds:
                rest = [c for c in conds if c != "optimize"]
                rv = [x for x, c in zip(vals, conds) if c != "optimize"]
                pen = ref_penalty(cfg.opts["penalty"], rest, rv, e.gen, bool(e.before.best and e.before.best["feasible"]))
                if not close(now["score"], ref_score(v, target, pen)):
                    rec.fail("score does not follow the formula with the penalty", cfg=cfg, ind=now, returned=vals,
                             penalty=pen, want=ref_score(v, target, pen), generation=e.gen)
    if len(mon.calls) != total:
        rec.fail("%d objective calls for %d individuals in the run" % (len(mon.calls), total), cfg=cfg)


def o_vega_score(rec, cfg, mon):
    """C14 (VEGA): each objective scored by the formula with its own target (with conditions: C15)"""
    if not cfg.algo.startswith("vega") or cfg.opts.get("conditions"):
        return
    target = cfg.opts.get("obj_value")
    for e in of(mon, "fitness"):
        for ind in e.after.pop:
            pt = decode(ind["genotype"], cfg.gens, cfg.kind)
            hit = next((c for cs in (e.calls, mon.calls) for c in cs if same_point(c[0][-1], pt)), None)
            if hit is None:
                rec.fail("no objective call with this individual's values", cfg=cfg, ind=ind)
                return
            v = list(hit[1])
            if list(ind["obj_score"]) != v:
                rec.fail("objective values are not what the call returned", cfg=cfg, ind=ind, returned=v)
                return
            want = [ref_score(x, None if target is None else target[j], 0) for j, x in enumerate(v)]
            if len(ind["score"]) != len(want) or not all(close(a, b) for a, b in zip(ind["score"], want)):
                rec.fail("scores do not follow the formula", cfg=cfg, ind=ind, want=want)
                return


def o_conditions(rec, cfg, mon):
    """C15/C16: feasibility flags, objective values and penalties (all algorithms)"""
    conds = cfg.opts.get("conditions")
    if not conds or cfg.opts.get("penalty") is None:
        return
    rest = [c for c in conds if c != "optimize"]
    pen = cfg.opts["penalty"]
    target = cfg.opts.get("obj_value")
    for e in of(mon, "fitness"):
        bf = bool(e.before.best and e.before.best["feasible"])
        by_id = {i: ind for i, ind in zip(e.after.ids, e.after.pop)}
        for i in range(len(e.before.pop)):
            old, now = e.before.pop[i], by_id[e.before.ids[i]]
            if old["score"] is not None:
                if now["feasible"] != old["feasible"] or freeze(now["obj_score"]) != freeze(old["obj_score"]):
                    rec.fail("survivor's feasibility or objective value changed", cfg=cfg, before=old, after=now)
                continue
            vals = cfg.obj(point_of(now))
            rv = [x for x, c in zip(vals, conds) if c != "optimize"]
            ov = [x for x, c in zip(vals, conds) if c == "optimize"]
            want = ov if cfg.multi else ov[0]
            if freeze(now["obj_score"]) != freeze(want):
                rec.fail("objective value(s) not those marked 'optimize' in order", cfg=cfg, ind=now, returned=vals)
                continue
            if bool(now["feasible"]) != ref_feasible(rest, rv):
                rec.fail("wrong feasibility flag", cfg=cfg, ind=now, values=rv, conds=rest)
            if cfg.algo.startswith("ffga"):
                continue
            p = ref_penalty(pen, rest, rv, e.gen, bf)
            got = now["score"] if cfg.multi else [now["score"]]
            tg = target if cfg.multi else ([target] if target is not None else None)
            for j, v in enumerate(ov):
                w = ref_score(v, None if tg is None else tg[j], p)
                if not close(got[j], w):
                    rec.fail("penalized score is wrong", cfg=cfg, ind=now, returned=vals, penalty=p, want=w,
                             generation=e.gen, best_feasible=bf)
                    break
    for e in of(mon, "update"):
        b = e.after.best
        if b is not None and not cfg.multi:
            vals = cfg.obj(point_of(b))
            rv = [x for x, c in zip(vals, conds) if c != "optimize"]
            if bool(b["feasible"]) != ref_feasible(rest, rv):
                rec.fail("best solution's feasibility flag is wrong", cfg=cfg, best=b, values=rv)


# ---------------------------------------------------------------------------------------------- Pareto, FFGA
def all_values(cfg, ind):
    return list(cfg.obj(ind["phenotype"]))


def o_pareto(rec, cfg, mon):
    if not cfg.multi:
        return
    conds = cfg.opts.get("conditions")
    since = None
    for e in mon.events:
        if e.kind == "fitness":
            pop = e.after.pop
            vals = [all_values(cfg, i) for i in pop]
            for i, ind in enumerate(pop):
                want = 1 + sum(dominates(v, vals[i]) for v in vals)
                if ind["rank"] != want:
                    rec.fail("rank %r instead of %d" % (ind["rank"], want), cfg=cfg, ind=ind)
                if cfg.algo.startswith("ffga") and not close(ind["score"], 1.0 / (1 + want)):
                    rec.fail("FFGA score is not 1/(1+rank)", cfg=cfg, ind=ind, rank=want)
                ov = vals[i] if not conds or not cfg.opts.get("penalty") else [
                    x for x, c in zip(vals[i], conds) if c == "optimize"]
                if list(ind["obj_score"]) != ov:
                    rec.fail("objective values differ from what the objective function returned", cfg=cfg, ind=ind,
                             want=ov)
                if cfg.algo.startswith("vega") and not conds:
                    t = cfg.opts.get("obj_value")
                    w = [ref_score(v, None if t is None else t[j], 0) for j, v in enumerate(ov)]
                    if len(w) != len(ind["score"]) or not all(close(x, y) for x, y in zip(w, ind["score"])):
                        rec.fail("VEGA scores are wrong", cfg=cfg, ind=ind, want=w)
        elif e.kind == "update":
            pop = e.after.pop
            vals = [all_values(cfg, i) for i in pop]
            front = [i for k, i in enumerate(pop) if not any(dominates(v, vals[k]) for v in vals)]
            rep = e.after.best["pareto_set"]
            if Counter(freeze(i["genotype"]) for i in rep) != Counter(freeze(i["genotype"]) for i in front):
                rec.fail("reported Pareto set is not the set of rank-1 individuals", cfg=cfg, reported=rep, want=front)
            if Counter(essences(e.after.hb[-1])) != Counter(essences(front)):
                rec.fail("recorded Pareto set is not the set of rank-1 individuals", cfg=cfg, got=e.after.hb[-1],
                         want=front)
            if len(e.after.hb) != e.after.idx or freeze(e.after.hb[:-1]) != freeze(e.before.hb):
                rec.fail("sets recorded for earlier generations changed", cfg=cfg)
            genos = Counter(freeze(i["genotype"]) for i in front)
            if since is None or since[1] != genos:
                since = e.before.idx, genos
            if e.after.best["idx_generation"] != since[0]:
                rec.fail("Pareto set recorded with generation %r instead of %r" % (e.after.best["idx_generation"], since[0]), cfg=cfg)
            if bool(e.after.best["feasible"]) != all(i["feasible"] for i in front):
                rec.fail("Pareto set's feasibility flag is %r" % (e.after.best["feasible"],), cfg=cfg, front=front)
    ups = of(mon, "update")
    if mon.result is not None and ups:
        fin = [pareto_points(s) for s in mon.result.historical_best]
        if freeze(mon.result.historical_best) != freeze(ups[-1].after.hb) or \
                fin != [pareto_points(e.after.hb[-1]) for e in ups]:
            rec.fail("recorded Pareto sets changed after they were recorded", cfg=cfg)
        for k, s in enumerate(mon.result.historical_best):
            if Counter(essences(s)) != Counter(essences(ups[k].after.hb[-1])):
                rec.fail("recorded Pareto set of generation %d changed afterwards" % k, cfg=cfg)


def o_front(rec, cfg, mon):
    """C18"""
    if not cfg.algo.startswith("ffga") or cfg.opts.get("transfer_parents", "best") != "best":
        return
    for e in of(mon, "new_generation"):
        if type(e.op) is not G.MultiNewGeneration:
            continue
        front = Counter(essences([i for i in e.before.pop if i["rank"] == 1]))
        vals = [all_values(cfg, i) for i in e.before.pop]
        true = Counter(essences([i for k, i in enumerate(e.before.pop)
                                 if not any(dominates(v, vals[k]) for v in vals)]))
        new = Counter(essences(e.after.pop))
        kids = Counter(essences(e.before.chi))
        if kids - new:
            rec.fail("a child is missing from the new generation", cfg=cfg)
        if true - (new - kids):
            rec.fail("a non-dominated individual did not enter the next generation unchanged", cfg=cfg,
                     missing=true - (new - kids))
    seen = []
    for e in of(mon, "update"):
        rep = [all_values(cfg, i) for i in e.after.best["pareto_set"]]
        for p in seen:
            if not any(r == p or dominates(r, p) for r in rep):
                rec.fail("an earlier Pareto point is neither present nor dominated", cfg=cfg, point=p, front=rep)
        seen = [list(t) for t in {tuple(p) for p in seen} | {tuple(p) for p in rep}]
