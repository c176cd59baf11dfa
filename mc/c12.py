"""C12: best solution and histories.  All score histories over small alphabets through update(), all objective-answer
histories of small runs, and monitored larger runs."""
import itertools
from fractions import Fraction
from .core import *
from .util import *
from .oracle import monitored, run_items, o_best
from . import grid as GR

LETTERS = [-2.5, 0, 3]
TIES = [1, 1.0, 0.5]
TINY = [1, 1 + 2.0 ** -50, 1 - 2.0 ** -50]


def mean_ok(got, scores):
    """the average of the scores, up to the rounding of a sum in any order"""
    exact = sum(map(Fraction, scores)) / len(scores)
    return abs(Fraction(got) - exact) <= Fraction(1, 10 ** 12) * max(1e-9, max(abs(Fraction(s)) for s in scores))


def updates(rec, n, gens, alphabet, part, parts, kind, how):
    """every table of scores: gens generations of n individuals; contents tampered with after each update"""
    tables = itertools.islice(itertools.product(alphabet, repeat=n * gens), part, None, parts)
    for tab in tables:
        d = G.GaData(num_generations=9)
        best, hist = None, []
        shared = POP[kind]()
        tag = "scores=%r n=%d %s" % (tab, n, how)
        for g in range(gens):
            sc = tab[g * n:(g + 1) * n]
            if how == "same":
                p = shared
                p.clear()
                p.is_sorted = False
            else:
                p = POP[kind]()
            p.num_individ = n
            if kind in ("binary", "gray"):
                p.is_phenotype = True
            for i, s in enumerate(sc):
                ind = dict(genotype=[g, i if how != "equal" else 0, 7], score=s, obj_score=[-s] if how == "list" else 10 * g + i)
                if kind in ("binary", "gray"):
                    ind["phenotype"] = [g + 0.5, i + 0.25]
                p.add_dict(**ind)
                p[-1]["feasible"] = (g + i) % 2 == 0
                p[-1]["idx_individ"] = i
            if how == "sorted":
                p.sort_by_dict()
            d.population = p
            members = {essence(i) for i in p}
            d.update()
            srt = sorted(sc)
            hist.append((srt[-1], srt[n // 2], srt[0]))
            if best is None or srt[-1] > best[0]:
                best = (srt[-1], g, {essence(i) for i in p if i["score"] == srt[-1]})
            if {essence(i) for i in p} != members or len(p) != n:
                rec.fail("%s: update changed individuals" % tag)
            b = d.best_solution
            if b["score"] != best[0] or b["idx_generation"] != best[1] or essence(b) not in best[2]:
                rec.fail("%s: best solution after generation %d is %r, expected score %r of generation %d" % (
                    tag, g, b, best[0], best[1]))
                return
            if list(zip(d.historical_best, d.historical_mediocre, d.historical_worst)) != hist or not (
                    len(d.historical_best) == len(d.historical_mediocre) == len(d.historical_worst)):
                rec.fail("%s: histories %r after generation %d, expected %r" % (
                    tag, (d.historical_best, d.historical_mediocre, d.historical_worst), g, hist))
                return
            if d.idx_generation != g + 1:
                rec.fail("%s: generation index %r after %d generations" % (tag, d.idx_generation, g + 1))
            if not mean_ok(d.get_avg_score(), sc):
                rec.fail("%s: average score of generation %d is %r" % (tag, g, d.get_avg_score()))
                return
            rec.done(0, 1)
            # the individuals live on: whatever happens to them must not reach the record
            for ind in p:
                ind["genotype"][0] = "changed"
                if "phenotype" in ind:
                    ind["phenotype"][0] = "changed"
                if how == "list":
                    ind["obj_score"][0] = "changed"
                ind["score"], ind["feasible"] = 999, None
            if essence(d.best_solution) not in best[2] or list(zip(d.historical_best, d.historical_mediocre,
                                                                  d.historical_worst)) != hist:
                rec.fail("%s: the record changed with the individuals (generation %d)" % (tag, g))
                return
        rec.done(1)
        rec.state((n, gens, tab, kind, how))
    rec.sample("n=%d generations=%d alphabet=%r %s %s" % (n, gens, alphabet, kind, how))


def sizes(rec):
    """generations of different sizes (first n, later n+1) and larger ones"""
    for seq in itertools.product((1, 2, 3, 4, 5), repeat=2):
        for start in range(6):
            d = G.GaData(num_generations=9)
            hist, best, k = [], None, start
            for g, n in enumerate(seq + (7, 12)):
                p = POP["cat"]()
                sc = []
                for i in range(n):
                    k += 1
                    sc.append((k * 7) % 11)
                    p.add_dict(genotype=[k // (1 + start % 3)], score=sc[-1], obj_score=k)
                d.population = p
                d.update()
                s = sorted(sc)
                hist.append((s[-1], s[n // 2], s[0]))
                best = max(best, s[-1]) if best is not None else s[-1]
                if list(zip(d.historical_best, d.historical_mediocre, d.historical_worst)) != hist:
                    rec.fail("sizes %r: histories differ" % (seq,), got=(d.historical_best, d.historical_mediocre,
                                                                        d.historical_worst), want=hist)
                if d.best_solution["score"] != best:
                    rec.fail("sizes %r: best solution" % (seq,))
                if not mean_ok(d.get_avg_score(), sc):
                    rec.fail("sizes %r: average score %r of %r" % (seq, d.get_avg_score(), sc))
            rec.done(1, 4)
            rec.state((seq, start))


def long(rec):
    """hundreds of generations, populations above 100, differences near the resolution of floating point"""
    shapes = {"rise": lambda t, i, n: t * 0.5 - i, "fall": lambda t, i, n: -t * 1.5 - i % 7, "tiny": lambda t, i, n: 1 + (t // 3 - i) * 2.0 ** -49,
              "wave": lambda t, i, n: (t * 37 + i * 11) % 101 - 50, "rare": lambda t, i, n: (t // 60) - (i % 5) * 0.1,
              "back": lambda t, i, n: -abs(t - 130) * 0.25 - i * 1e-3, "huge": lambda t, i, n: (t * 7 % 13 - i) * 1e15, "same": lambda t, i, n: 2.5}
    for (name, f), (n, gens) in itertools.product(shapes.items(), ((1, 620), (3, 260), (5, 130), (130, 12), (211, 5), (64, 70))):
        d = G.GaData(num_generations=1000)
        best, hist = None, []
        for t in range(gens):
            p = POP["cat"]()
            sc = [f(t, (i * 7 + t) % n, n) for i in range(n)]
            for i, s in enumerate(sc):
                p.add_dict(genotype=[t, i], score=s, obj_score=-s)
            d.population = p
            d.update()
            s = sorted(sc)
            hist.append((s[-1], s[n // 2], s[0]))
            if best is None or s[-1] > best[0]:
                best = (s[-1], t)
            b = d.best_solution
            if (b["score"], b["idx_generation"]) != best or b["genotype"][0] != best[1] or sc[b["genotype"][1]] != best[0] and best[1] == t:
                rec.fail("%s n=%d: best solution after generation %d is %r, expected %r" % (name, n, t, b, best))
                break
            if d.idx_generation != t + 1:
                rec.fail("%s n=%d: generation index %r after %d generations" % (name, n, d.idx_generation, t + 1))
                break
            if t % 9 == 0 or t > gens - 3:
                if not mean_ok(d.get_avg_score(), sc):
                    rec.fail("%s n=%d: average score %r in generation %d" % (name, n, d.get_avg_score(), t))
                    break
                if list(zip(d.historical_best, d.historical_mediocre, d.historical_worst)) != hist:
                    rec.fail("%s n=%d: histories differ after generation %d" % (name, n, t))
                    break
        rec.done(1, gens)
        rec.state((name, n, gens))


CFGS = {
    "binary": Cfg("binary", ((0, 7, 1),), None, n=3, g=3, tournament_size=2, early_stop=None),
    "gray": Cfg("gray", ((0, 3, 1), (-1, 1, 1)), None, n=3, g=3, tournament_size=2, early_stop=None, transfer_parents="random"),
    "cat": Cfg("cat", (["a", "b"], (0, 2, 1)), None, n=3, g=4, tournament_size=2, early_stop=None, children_percent=0.5),
    "order": Cfg("order", (0, 3, 3), None, n=3, g=3, tournament_size=2, early_stop=None, mutation_lvl=1.0),
    "collector": Cfg("cat", (["a", "b", "c"],) * 2, None, n=3, g=3, mode="collector", early_stop=50,
                     ops={"selection": G.RankedSelection, "crossover": G.TwoPointCrossover}),
}


def answers(rec, which, alphabet, target, seed, memo):
    """all sequences of objective answers of a small run"""
    base = CFGS[which]
    o = dict(base.opts)
    if target is not None:
        o["obj_value"] = target
    cfg = Cfg(base.algo, base.gens, None, n=base.n, g=base.g, mode=base.mode, ops=base.ops, **o)
    for tr, mon in env_runs(cfg, alphabet, seed, memo=memo):
        tag = "%s answers=%r target=%r" % (cfg, [alphabet[c] for c in tr], target)
        if mon.exc is not None:
            rec.fail("%s raised %r" % (tag, mon.exc))
            continue
        o_best(rec, tag, mon) if False else o_best(rec, mon.cfg, mon)
        # against the call log itself
        best = mon.result.best_solution
        top = None
        for args, val, _ in mon.calls:
            v = val[0] if isinstance(val, (list, tuple)) else val
            s = -v if target is None else 1.0 / (1 + abs(target - v))
            top = s if top is None else max(top, s)
        if not close(best["score"], top):
            rec.fail("%s: best score %r, best evaluated %r" % (tag, best["score"], top))
        pt = best.get("phenotype") or best["genotype"]
        if not any(list(args[-1]) == list(pt) and val == best["obj_score"] for args, val, _ in mon.calls):
            rec.fail("%s: best solution's value was never returned for its point" % tag, best=best)
        rec.state((which, tuple(tr)))
        rec.done(1, len(mon.events))
    rec.sample("%s alphabet=%r target=%r" % (cfg, alphabet, target))


BOUNDS = {"quick": "all score tables: 3 generations x 3 individuals and 4 x 2 over 3 letters, 5 x 1, several population kinds, "
                   "same or fresh population objects, equal genotypes, individuals overwritten after every update; all sequences of 2-3 "
                   "objective answers of small runs (3 individuals, 3-4 generations) of four algorithms; 8 score "
                   "patterns over up to 620 generations and 211 individuals; about 200 monitored larger runs",
          "thorough": "as quick with 3 x 4 tables, more seeds and three-letter answers everywhere"}
ASSUMPTIONS = []


def items(tier):
    t = tier == "thorough"
    out = []

    def add(n, g, al, parts, kind, how):
        for p in range(parts):
            out.append(("update[%dx%d,%s,%s,%s,%d]" % (n, g, al, kind, how, p), "updates",
                        dict(n=n, gens=g, alphabet=al, part=p, parts=parts, kind=kind, how=how)))
    add(3, 3, LETTERS, 4, "cat", "fresh")
    add(2, 4, LETTERS, 2, "binary", "same")
    add(2, 3, [0.1, 0.2, 0.30000000000000004, -1], 2, "gray", "sorted")
    add(1, 5, LETTERS, 1, "order", "fresh")
    add(2, 4, TIES, 1, "cat", "list")
    add(2, 3, TINY, 1, "cat", "fresh")
    add(1, 6, TINY, 1, "binary", "same")
    add(4, 2, [0, 1], 1, "cat", "same")
    add(3, 2, LETTERS, 2, "cat", "equal")
    add(4, 2, [0, 1, 3], 2, "binary", "equal")
    add(5, 2, [0, 1], 1, "binary", "fresh")
    if t:
        add(4, 3, LETTERS, 16, "cat", "same")
        add(3, 4, LETTERS, 16, "binary", "fresh")
    out += [("sizes", "sizes", {}), ("long", "long", {})]
    for w in CFGS:
        for al, tg, sd, memo in [([0, 1], None, 1, False), ([5, 2, 9], 4, 2, False), ([-3, 0, 2], None, 3, True)] + (
                [([0, 1, 2], None, s, False) for s in range(4, 8)] if t else []):
            out.append(("answers[%s,%r,%r,%d]" % (w, al, tg, sd), "answers",
                        dict(which=w, alphabet=al, target=tg, seed=sd, memo=memo)))
    return out + run_items(["o_best"], which=["binary", "gray", "cat", "order"], count=3)
