"""Shared by C17/C18: small multi-objective generations driven by a table of objective values."""
import collections, itertools
from .core import *
from .util import *
from .oracle import dominates, monitored, run_items, o_pareto, o_front
from . import grid as GR

Counter = collections.Counter
FIT = {"ffga": G.FFGAFitness, "vega": G.VEGAHyperbolaFitness}
GENE = ((0, 255, 1),)


def partitions(n):
    """restricted growth strings: all ways some of n individuals can be equal"""
    def go(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for v in range(m + 1):
            yield from go(p + [v], max(m, v + 1))
    return list(go([], 0))


class Front:
    """a MultiGaData whose individuals are points 0..255; table[point] = values the objective function returns"""

    def __init__(self, algo, points, table, data=None, conditions=None, penalty=None, target=None, kind="binary",
                 seq=list, scale=1):
        self.algo, self.table, self.kind, self.scale = algo, table, kind, scale
        self.gene = tuple((lo * scale, hi * scale, st * scale) for lo, hi, st in GENE)
        self.opt = None if conditions is None or penalty is None else [
            i for i, c in enumerate(conditions) if c == "optimize"]
        f = (lambda x: seq(self.table[int(round(x[0] / scale))])) if data is None else (
            lambda dt, x: seq(self.table[int(round(x[0] / scale))]))
        self.fit = FIT[algo](obj_function=f, obj_value=target, input_data=data, penalty=penalty, conditions=conditions)
        set_driver(Stream(3))
        self.d = G.MultiGaData(num_generations=1000)
        self.d.population = new_pop(kind, len(points), self.gene, [[p * scale] for p in points])
        self.ups = []
        self.since = None

    def point(self, ind):
        return int(round(decode(ind["genotype"], self.gene, self.kind)[0] / self.scale))

    def vals(self, ind):
        return list(self.table[self.point(ind)])

    def evaluate(self, rec, label):
        d = self.d
        gen = d.idx_generation
        members = Counter(id(i) for i in d.population)
        genos = {id(i): list(i["genotype"]) for i in d.population}
        self.fit.execute(d)
        if Counter(id(i) for i in d.population) != members or any(list(i["genotype"]) != genos[id(i)] for i in d.population):
            rec.fail("%s: evaluation changed who is in the population" % label)
            return False
        vs = [self.vals(i) for i in d.population]
        for k, ind in enumerate(d.population):
            want = 1 + sum(dominates(v, vs[k]) for v in vs)
            if ind["rank"] != want:
                rec.fail("%s: rank %r of %r instead of %d" % (label, ind["rank"], vs[k], want), all=vs)
                return False
            if self.algo == "ffga" and not close(ind["score"], 1.0 / (1 + want)):
                rec.fail("%s: FFGA score %r for rank %d" % (label, ind["score"], want), all=vs)
                return False
            ov = vs[k] if self.opt is None else [vs[k][i] for i in self.opt]
            if list(ind["obj_score"]) != ov:
                rec.fail("%s: objective values %r instead of %r" % (label, ind["obj_score"], ov))
                return False
        d.update()
        vs = [self.vals(i) for i in d.population]
        front = [i for k, i in enumerate(d.population) if not any(dominates(v, vs[k]) for v in vs)]
        rep = d.best_solution["pareto_set"]
        if Counter(self.point(i) for i in rep) != Counter(self.point(i) for i in front):
            rec.fail("%s: reported Pareto set %r instead of %r" % (
                label, [self.vals(i) for i in rep], [self.vals(i) for i in front]), all=vs)
            return False
        for i in rep:
            if i["rank"] != 1 or not all(close(a, b) for a, b in zip(i["phenotype"], decode(i["genotype"], self.gene, self.kind))):
                rec.fail("%s: reported Pareto individual carries foreign data %r" % (label, i))
                return False
        if self.algo == "ffga":
            sc = [i["score"] for i in d.population]
            if not close(d.get_avg_score(), math.fsum(sc) / len(sc), rel=1e-12):
                rec.fail("%s: average score %r of %r" % (label, d.get_avg_score(), sc))
                return False
        genos = Counter(freeze(i["genotype"]) for i in front)
        if self.since is None or self.since[1] != genos:
            self.since = gen, genos
        if d.best_solution["idx_generation"] != self.since[0]:
            rec.fail("%s: Pareto set recorded with generation %r instead of %r" % (label, d.best_solution["idx_generation"], self.since[0]))
            return False
        if bool(d.best_solution["feasible"]) != all(i["feasible"] for i in front):
            rec.fail("%s: Pareto set flagged feasible=%r, its members %r" % (label, d.best_solution["feasible"], [i["feasible"] for i in front]))
            return False
        self.ups.append(Counter(essences(front)))
        if [Counter(essences(s)) for s in d.historical_best] != self.ups:
            rec.fail("%s: recorded Pareto sets %r instead of %r" % (label, d.historical_best, self.ups))
            return False
        return True

    def offspring(self, points):
        """unevaluated children at the given points, as crossover would deliver them"""
        d = self.d
        tmp = new_pop(self.kind, len(points), self.gene, [[p * self.scale] for p in points])
        d.parents = POP[self.kind]()
        d.parents.extend([d.population[0], d.population[-1]] * len(points))
        G.OnePointCrossover().execute(d)
        for ch, t in zip(d.children, tmp):
            ch["genotype"] = list(t["genotype"])

    def advance(self, rec, label, points, transfer="best"):
        """one survivor step with given children; checks that the whole front is carried over"""
        d = self.d
        vs = [self.vals(i) for i in d.population]
        front = Counter(essences([i for k, i in enumerate(d.population) if not any(dominates(v, vs[k]) for v in vs)]))
        prev = Counter(essences(d.population))
        self.offspring(points)
        kids = Counter(freeze(i["genotype"]) for i in d.children)
        G.MultiNewGeneration(transfer).execute(d)
        new = d.population
        fresh = [i for i in new if i["score"] is None]
        surv = Counter(essences([i for i in new if i["score"] is not None]))
        if Counter(freeze(i["genotype"]) for i in fresh) != kids:
            rec.fail("%s: the children of the new generation are not the children created" % label)
            return False
        if transfer == "best" and front - surv:
            rec.fail("%s: a non-dominated individual did not enter the next generation unchanged" % label,
                     missing=front - surv)
            return False
        if set(surv) - set(prev):
            rec.fail("%s: a survivor is not an unchanged member of the previous generation" % label)
            return False
        return True
