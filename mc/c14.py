"""C14: evaluation.  All assignments of objective values to small populations, all mixes of scored and unscored
individuals, targets and kinds of input data, through HyperbolaFitness.execute; call log and results against a model."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items, ref_score, o_score
from . import grid as GR


class Arr:
    """array-like input data: neither truth value nor comparison is defined"""
    def __bool__(self):
        raise ValueError("truth value is ambiguous")

    def __eq__(self, o):
        raise ValueError("comparison is ambiguous")
    __hash__ = None

    def __len__(self):
        return 3

    def __repr__(self):
        return "<array>"


DATAS = [None, 0, 0.0, False, "", "text", [], [1, [2]], {}, {"a": [1]}, (), (0,), set(), 5, Arr(), len, b""]
GENS = {"binary": ((0, 7, 1), (-1, 1, 2)), "gray": ((0, 7, 1), (-1, 1, 2)), "cat": (["a", "b", "c", "d"], (0, 9, 3)),
        "order": (0, 4, 3)}
POINTS = {"binary": [[3, 1], [0, -1], [7, 1], [5, -1]], "gray": [[3, 1], [0, -1], [7, 1], [5, -1]],
          "cat": [["a", 3], ["d", 0], ["b", 9], ["a", 6]], "order": [[0, 3, 1], [4, 2, 0], [1, 2, 3], [3, 1, 0]]}
OLD = [0, 0.0, -4.5, 1.0]


def situation(kind, n, mask, dup=False):
    pts = [POINTS[kind][0 if dup else i] for i in range(n)]
    set_driver(Stream(1))
    p = new_pop(kind, n, GENS[kind], pts)
    for i, ind in enumerate(p):
        if mask[i]:
            ind["score"], ind["obj_score"], ind["feasible"] = OLD[(i + mask[i]) % 4], 77 + i, i % 2 == 0
        elif kind in ("binary", "gray") and i % 2:
            ind["phenotype"] = None          # children arrive without decoded values
    d = G.GaData(num_generations=4)
    d.population = p
    d.idx_generation = 2
    return d, pts


LONG = {"binary": ((0, 1023, 1),) * 9, "gray": ((-5, 5, 0.01),) * 9, "cat": (["a", "b", "c", "d"], (0, 90, 3)) * 6, "order": (0, 40, 17)}


def many(rec, kind, n, gen, target, every):
    """large generations, long genotypes, late generation numbers: every `every`-th individual is a survivor"""
    set_driver(Stream(n + gen))
    p = new_pop(kind, n, LONG[kind])
    surv = {i for i in range(n) if every and i % every == 0}
    pts = []
    for i, ind in enumerate(p):
        pts.append(decode(ind["genotype"], LONG[kind], kind) if kind in ("binary", "gray") else list(ind["genotype"]))
        if i in surv:
            ind["score"], ind["obj_score"], ind["feasible"] = OLD[i % 4], 77 + i, True
        elif kind in ("binary", "gray") and i % 2:
            ind["phenotype"] = None
    d = G.GaData(num_generations=gen + 2)
    d.population = p
    d.idx_generation = gen
    live, before, calls = list(p), [fast(i) for i in p], []

    def obj(x):
        calls.append(list(x))
        return value(len(calls) - 1)

    def value(k):
        return [k, -k, k / 7, 1e6 * k, -3.25][k % 5]
    fit = G.HyperbolaFitness(obj_function=obj, obj_value=target)
    fit.execute(d)
    tag = "%s %d individuals in generation %d, target %r, every %d-th a survivor" % (kind, n, gen, target, every)
    new = [i for i in range(n) if i not in surv]
    if len(calls) != len(new) or Counter(map(id, d.population)) != Counter(map(id, live)):
        rec.fail("%s: %d calls for %d new individuals" % (tag, len(calls), len(new)))
        return
    by = {}
    for k, c in enumerate(calls):
        by.setdefault(repr([round(float(x), 7) if isinstance(x, (int, float)) else x for x in c]), []).append(k)
    for i, ind in enumerate(live):
        if ind["genotype"] != before[i]["genotype"]:
            rec.fail("%s: genotype of individual %d changed" % (tag, i))
            return
        if i in surv:
            if essence(ind)[2:] != essence(before[i])[2:]:
                rec.fail("%s: survivor %d changed" % (tag, i), before=before[i], after=ind)
                return
            continue
        ks = by.get(repr([round(float(x), 7) if isinstance(x, (int, float)) else x for x in pts[i]]), [])
        hit = next((k for k in ks if value(k) == ind["obj_score"]), None)
        if hit is None:
            rec.fail("%s: individual %d has objective value %r, not what was returned for its values" % (tag, i, ind["obj_score"]))
            return
        ks.remove(hit)
        if not close(ind["score"], ref_score(value(hit), target, 0), rel=1e-12, abs_=0):
            rec.fail("%s: value %r scored %r" % (tag, value(hit), ind["score"]))
            return
    k = len(calls)
    fit.execute(d)
    if len(calls) != k:
        rec.fail("%s: a second evaluation calls the objective function again" % tag)
    rec.done(1, len(calls))
    rec.state(tag)


def larger(rec, kind, t):
    for n in (12, 33, 60, 101, 150, 257) + ((520, 1030) if t else ()):
        for gen in (0, 1, 2, 11, 52, 101, 1003):
            for target in (None, 0, 2.5, -1e6):
                for every in (0, 2, 7):
                    many(rec, kind, n, gen, target, every)
    rec.sample("%s: generations of up to 257 individuals, generation numbers up to 1003" % kind)


WRAP = {"plain": lambda v: v, "list": lambda v: [v], "tuple": lambda v: (v,)}


def one(rec, kind, mask, vals, target, data, wrap, dup=False, order=None):
    n = len(mask)
    d, pts = situation(kind, n, mask, dup)
    if order:
        d.population[:] = [d.population[i] for i in order]
        pts = [pts[i] for i in order]
        mask = [mask[i] for i in order]
    calls = []
    queue = [v for m, v in zip(mask, vals) if not m]

    def obj(*a):
        calls.append(a)
        k = len(calls) - 1
        return WRAP[wrap](queue[k]) if k < len(queue) else 12345
    fit = G.HyperbolaFitness(obj_function=obj, obj_value=target, **({} if data is None else {"input_data": data}))
    before = [fast(i) for i in d.population]
    live = list(d.population)
    tag = "%s mask=%r values=%r target=%r data=%r returns %s%s" % (kind, mask, vals, target, data, wrap,
                                                                  " equal genotypes" if dup else "")
    if kind in ("binary", "gray"):
        pts = [decode(i["genotype"], GENS[kind], kind) for i in before]
    fit.execute(d)
    new = [i for i in range(n) if not mask[i]]
    if len(calls) != len(new):
        rec.fail("%s: %d calls for %d new individuals" % (tag, len(calls), len(new)))
        return
    if len(d.population) != n or Counter(map(id, d.population)) != Counter(map(id, live)):
        rec.fail("%s: the population's members changed" % tag)
        return
    pend = [(list(c[-1]), q) for c, q in zip(calls, queue)]
    for c in calls:
        if len(c) != (1 if data is None else 2) or (data is not None and c[0] is not data and not same(c[0], data)):
            rec.fail("%s: called with %r" % (tag, c))
            return
    for i, ind in enumerate(live):
        if ind["genotype"] != before[i]["genotype"]:
            rec.fail("%s: genotype of individual %d changed" % (tag, i), before=before[i], after=ind)
            return
        if kind in ("binary", "gray") and list(ind["phenotype"] or []) != list(pts[i]):
            rec.fail("%s: decoded values of individual %d are %r" % (tag, i, ind["phenotype"]))
            return
        if mask[i]:
            if essence(ind)[2:] != essence(before[i])[2:]:
                rec.fail("%s: survivor %d changed" % (tag, i), before=before[i], after=ind)
                return
            continue
        hit = next((x for x in pend if same_pt(x[0], pts[i]) and x[1] == ind["obj_score"]
                    and type(x[1]) is type(ind["obj_score"])), None)
        if hit is None:
            rec.fail("%s: individual %d has objective value %r, not what was returned for its values" % (
                tag, i, ind["obj_score"]), calls=pend)
            return
        pend.remove(hit)
        want = ref_score(hit[1], target, 0)
        if not close(ind["score"], want, rel=1e-12, abs_=0):
            rec.fail("%s: score %r instead of %r" % (tag, ind["score"], want))
            return
        if ind["feasible"] is not True:
            rec.fail("%s: unconditional individual not feasible" % tag)
    # evaluating again calls nothing
    k = len(calls)
    snap = [essence(i) for i in live]
    fit.execute(d)
    if len(calls) != k or [essence(i) for i in live] != snap:
        rec.fail("%s: a second evaluation calls the objective function again" % tag)
    rec.done(1, len(calls))
    rec.state(tag)


Counter = collections.Counter


def same(a, b):
    return type(a) is type(b) and not isinstance(a, Arr) and a == b


def same_pt(a, b):
    return len(a) == len(b) and all(x == y or (isinstance(x, float) and close(x, y)) for x, y in zip(a, b))


def values(rec, kind, n, alphabet, target, wrap):
    for vals in itertools.product(alphabet, repeat=n):
        one(rec, kind, [0] * n, vals, target, None, wrap)
    rec.sample("%s n=%d values over %r target=%r" % (kind, n, alphabet, target))


def mixes(rec, kind, n):
    for mask in itertools.product((0, 1, 2, 3), repeat=n):
        for vals in ([3, -1, 0, 2.5], [0, 0, 0, 0]):
            for target in (None, 0):
                one(rec, kind, mask, vals[:n], target, None, "plain")
                one(rec, kind, mask, vals[:n], target, 0, "plain", dup=True)


def datas(rec, kind):
    for data in DATAS:
        for target in (None, 2):
            for mask in ([0, 0], [1, 0, 0], [0, 1]):
                one(rec, kind, mask, [4, -1, 2][:len(mask)], target, data, "plain")


def memory(rec, kind, target):
    """input data the objective function keeps notes in: it is handed the very object each time, over several generations"""
    for notes in ([], {}, {"log": []}):
        seen = []

        def f(data, x):
            seen.append(list(x))
            (data if isinstance(data, list) else data.setdefault("log", [])).append(list(x))
            return len(seen) % 3
        fit = G.HyperbolaFitness(obj_function=f, obj_value=target, input_data=notes)
        for gen in range(3):
            d, _ = situation(kind, 3, [0, 0, 0])
            fit.execute(d)
            rec.done(1, 3)
        if (notes if isinstance(notes, list) else notes["log"]) != seen:
            rec.fail("%s: what the objective function noted in the input data is lost" % kind)
        rec.state((kind, target, type(notes).__name__))


def orders(rec, kind):
    for perm in itertools.permutations(range(4)):
        for mask in ([0, 0, 0, 0], [1, 0, 2, 0]):
            one(rec, kind, mask, [1, 2, 3, 4], 2, None, "plain", order=list(perm))


NUMS = [0, 1, -1, 2, 0.5, -0.5, 3, 1e-9, -1e-9, 1e9, -1e9, 1e-300, 1 + 1e-9, 1 + 1e-7, 100, 99.5, 2.5, -2.5, True, 1e3, 1e6, -1e6, 1e12, -1e12, 1e15, 1e30, -1e30, 10 ** 25, 0.1, 1 / 3, 1e-5, -1e-5, 12345.678, -777]


def formula(rec, part, parts):
    """score formula and its strict monotonicity over all values x targets"""
    for target in ([None] + NUMS)[part::parts]:
        got = []
        for v in NUMS:
            d, _ = situation("cat", 1, [0])
            fit = G.HyperbolaFitness(obj_function=lambda x: v, obj_value=target)
            fit.execute(d)
            s = d.population[0]["score"]
            if not close(s, ref_score(v, target, 0), rel=1e-12, abs_=0):
                rec.fail("value %r target %r: score %r instead of %r" % (v, target, s, ref_score(v, target, 0)))
            got.append((v if target is None else abs(target - v), s))
            rec.done(1, 1)
            rec.state((v, target))
        for (a, s), (b, t) in itertools.combinations(got, 2):
            if a < b and (b - a) > 1e-10 * max(1, b) and not s > t:
                rec.fail("target %r: the better of %r, %r does not score higher" % (target, a, b))


def answers(rec, algo, memo, target):
    """all answer sequences of a small run: one call per new individual"""
    gens = {"binary": ((0, 3, 1), (0, 1, 1)), "cat": (["a", "b"], ["x", "y", "z"]), "order": (0, 3, 3), "gray": ((0, 7, 1),)}
    cfg = Cfg(algo, gens[algo], None, n=3, g=3, tournament_size=2, early_stop=None, mutation_lvl=0.3, input_data=[0],
              **({} if target is None else {"obj_value": target}))
    for tr, mon in env_runs(cfg, [0, -1, 2], 3, memo=memo):
        if mon.exc is not None:
            rec.fail("%s answers %r raised %r" % (cfg, tr, mon.exc))
            continue
        o_score(rec, mon.cfg, mon)
        rec.done(1, len(mon.events))
        rec.state((algo, memo, tuple(tr)))


def per_objective(rec, kind, m, n, alphabet, targets, part=0, parts=1):
    """VEGA: all tables of m objective values for n individuals, one of them possibly a survivor; score j from value j"""
    pts = POINTS[kind][:n]
    rows = list(itertools.product(alphabet, repeat=m))
    for table in itertools.islice(itertools.product(rows, repeat=n), part, None, parts):
        for target in targets:
            for old in (None,) + ((n - 1,) if n > 1 else ()):
                set_driver(Stream(1))
                p = new_pop(kind, n, GENS[kind], pts)
                by = {same_key(x): v for x, v in zip(pts, table)}
                own = [by[same_key(x)] for x in pts]
                d = G.MultiGaData(num_generations=4)
                d.population, d.idx_generation = p, 2
                live = list(p)
                if old is not None:
                    live[old]["score"] = [ref_score(v, None if target is None else target[j], 0) for j, v in enumerate(own[old])]
                    live[old]["obj_score"] = list(own[old])
                geno = [list(i["genotype"]) for i in live]
                seen = []

                def obj(data, x):
                    seen.append(data)
                    return list(by[same_key(x)])
                fit = G.VEGAHyperbolaFitness(obj_function=obj, obj_value=target, input_data=DATA)
                fit.execute(d)
                tag = "VEGA %s values %r target %r survivor %r" % (kind, own, target, old)
                if len(d.population) != n or {id(i) for i in d.population} != {id(i) for i in live}:
                    rec.fail("%s: evaluation replaced individuals" % tag)
                    return
                if any(x is not DATA for x in seen) or not seen:
                    rec.fail("%s: input data not passed" % tag)
                    return
                for i, ind in enumerate(live):
                    want = [ref_score(v, None if target is None else target[j], 0) for j, v in enumerate(own[i])]
                    if ind["genotype"] != geno[i]:
                        rec.fail("%s: genotype changed" % tag)
                        return
                    if list(ind["obj_score"]) != list(own[i]):
                        rec.fail("%s: objective values %r of individual %d" % (tag, ind["obj_score"], i))
                        return
                    if len(ind["score"]) != m or not all(close(a, b, rel=1e-12, abs_=0) for a, b in zip(ind["score"], want)):
                        rec.fail("%s: scores %r instead of %r" % (tag, ind["score"], want))
                        return
                rec.done(1, 1)
                rec.state((kind, m, own, target, old))


DATA = {"k": 1}


def same_key(x):
    return repr([round(float(v), 7) for v in x])


BOUNDS = {"quick": "all value vectors over 4-5 letters for 1-3 individuals, all mixes of scored (scores 0, 0.0, negative, 1) and "
                   "unscored individuals up to 3, all orders of 4, 17 kinds of input data, 35 x 34 target/value pairs; generations of up to 257 long individuals up to generation 1003, for "
                   "the four population kinds; all objective-answer sequences of small runs; about 250 monitored runs; earlier generations and earlier data objects must not influence a score; VEGA: all tables of 1-7 objective values for 1-3 individuals x targets"}
ASSUMPTIONS = ["the objective function does not modify its argument"]


def items(tier):
    t = tier == "thorough"
    out = []
    for k in GENS:
        for n, al, tg, w in [(3, [0, 1, -2.5, 7], None, "plain"), (3, [0, 1, -2.5, 7], 0, "list"), (2, NUMS[:19], 1, "tuple"),
                             (3, [5, 2, 2.0, 1], 2, "plain"), (1, NUMS, -3.5, "plain")] + (
                [(4, [0, 1, -2.5], 1, "plain"), (3, [0, 0.5, 1, 3, -1, -2], None, "tuple")] if t else []):
            out.append(("values[%s,%d,%d letters,%r,%s]" % (k, n, len(al), tg, w), "values",
                        dict(kind=k, n=n, alphabet=al, target=tg, wrap=w)))
        for n in (1, 2, 3) + ((4,) if t else ()):
            out.append(("mixes[%s,%d]" % (k, n), "mixes", dict(kind=k, n=n)))
        out.append(("data[%s]" % k, "datas", dict(kind=k)))
        for tg in (None, 2):
            out.append(("memory[%s,%r]" % (k, tg), "memory", dict(kind=k, target=tg)))
        out.append(("larger[%s]" % k, "larger", dict(kind=k, t=t)))
        out.append(("orders[%s]" % k, "orders", dict(kind=k)))
        for memo in (True, False):
            out.append(("answers[%s,%s]" % (k, memo), "answers", dict(algo=k, memo=memo, target=None if memo else 1)))
    for p in range(8):
        out.append(("formula[%d]" % p, "formula", dict(part=p, parts=8)))
    for k in ("binary", "gray"):
        for m, n, al, tgs, parts in [(2, 2, [0, 1, -2.5], [None, [0, 0], [1, 3], (2, -1)], 1), (3, 1, [0, 4, -1, 0.5], [None, [0, 5, 1]], 1),
                                     (1, 3, [0, 2, -7], [None, [1], [0]], 1), (3, 2, [0, 1], [None, [1, 0, 2]], 1), (2, 1, NUMS, [None, [0, 2]], 1),
                                     (7, 1, [0, 3], [None, [1, 2, 3, 4, 5, 6, 7]], 1)] + (
                [(2, 3, [0, 1, -2.5], [None, [1, 3]], 2), (4, 2, [0, 1], [None, [0, 1, 2, 3]], 1)] if t else []):
            for p in range(parts):
                out.append(("vega[%s,%dx%d,%d letters,%d]" % (k, m, n, len(al), p), "per_objective",
                            dict(kind=k, m=m, n=n, alphabet=al, targets=tgs, part=p, parts=parts)))
    return out + run_items(["o_score", "o_vega_score"], which=["binary", "gray", "cat", "order", "vega", "vega_gray"], count=3)
