"""Shared by C15/C16: evaluate whole populations of condition-value vectors through the real fitness classes."""
import itertools
from .core import *
from .util import *
from .oracle import ref_penalty, ref_score, ref_feasible, note_penalty, dominates

inf = float("inf")


def single_lists(maxlen):
    """all condition lists with one 'optimize'"""
    out = []
    for r in range(1, maxlen):
        for signs in itertools.product(("<=", "!="), repeat=r):
            for pos in range(r + 1):
                out.append(list(signs[:pos]) + ["optimize"] + list(signs[pos:]))
    return out


def multi_lists(maxlen, maxopt=3):
    out = []
    for L in range(2, maxlen + 1):
        for c in itertools.product(("optimize", "<=", "!="), repeat=L):
            k = c.count("optimize")
            if 1 <= k <= maxopt and k < L:
                out.append(list(c))
    return out


def full(conds, rest, opts):
    """values as the objective function returns them"""
    r, o = iter(rest), iter(opts)
    return [next(o) if c == "optimize" else next(r) for c in conds]


def make_data(vectors, multi, gen, best):
    """one individual per vector; the objective function looks the vector up by the individual's point"""
    n = len(vectors)
    d = (G.MultiGaData if multi else G.GaData)(num_generations=50)
    set_driver(Stream(2))
    if multi:
        p = new_pop("binary", n, ((0, 255, 1),), [[i] for i in range(n)])
        key = lambda x: int(round(x[0]))
    else:
        p = new_pop("cat", n, (list(range(max(n, 2))),), [[i] for i in range(n)])
        key = lambda x: x[0]
    d.population = p
    d.idx_generation = gen
    if best is not None:
        if multi:
            d.best_solution = {"pareto_set": [], "feasible": best, "idx_generation": 0}
        else:
            d.best_solution = {"genotype": [0], "score": -1e9, "obj_score": 1e9, "feasible": best, "idx_generation": 0}
    return d, key


def make_fit(cls, target, pen, conds):
    """a fitness object and the holder of the objective function it calls"""
    h = {}
    return cls(obj_function=lambda x: h["f"](x), obj_value=target, penalty=pen, conditions=conds), h


def check(rec, cls, conds, pen, target, vectors, opts, gen, best, tuple_=False, fit=None, tag=""):
    """vectors: condition values per individual; opts: objective values per individual"""
    multi = cls is not G.HyperbolaFitness
    nopt = conds.count("optimize")
    rest = [c for c in conds if c != "optimize"]
    d, key = make_data(vectors, multi, gen, best)
    table = [full(conds, v, o) for v, o in zip(vectors, opts)]
    given = list(conds)
    if fit is None:
        fit = make_fit(cls, target, pen, given)
    fit[1]["f"] = lambda x: (tuple if tuple_ else list)(table[key(x)])
    label = "%s %s conditions=%r target=%r generation=%d best feasible=%r%s" % (
        cls.__name__, type(pen).__name__, conds, target, gen, best, tag)
    fit[0].execute(d)
    if given != list(conds):
        rec.fail("%s: the user's condition list was modified" % label)
    for ind in d.population:
        i = key(ind["phenotype"] if multi else ind["genotype"])
        v, o = vectors[i], opts[i]
        want = list(o) if multi else o[0]
        got = list(ind["obj_score"]) if multi else ind["obj_score"]
        if got != want:
            rec.fail("%s returned %r: objective value %r instead of %r" % (label, table[i], ind["obj_score"], want))
            return False
        if bool(ind["feasible"]) != ref_feasible(rest, v):
            rec.fail("%s returned %r: feasible=%r" % (label, table[i], ind["feasible"]))
            return False
        if cls is not G.FFGAFitness:
            p = ref_penalty(pen, rest, v, gen, bool(best))
            sc = ind["score"] if multi else [ind["score"]]
            tg = [None] * nopt if target is None else (target if multi else [target])
            for j in range(nopt):
                w = ref_score(o[j], tg[j], p)
                if not close(sc[j], w, rel=1e-9, abs_=1e-13):
                    rec.fail("%s returned %r: score %r instead of %r (penalty %r)" % (label, table[i], sc[j], w, p))
                    return False
        if multi:
            w = 1 + sum(dominates(t, table[i]) for t in table)
            if ind["rank"] != w:
                rec.fail("%s returned %r: rank %r instead of %d" % (label, table[i], ind["rank"], w))
                return False
    rec.done(len(vectors), len(vectors))
    rec.state((label, tuple(map(tuple, vectors))))
    rec.sample("%s: %d value vectors" % (label, len(vectors)))
    return True


def chunks(vs, k):
    return [vs[i:i + k] for i in range(0, len(vs), k)]
