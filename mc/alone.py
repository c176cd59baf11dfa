"""Run configurations one after the other in a fresh interpreter with the genuine generator; one digest per run."""
import hashlib, os, sys


def family():
    import baumeva
    from baumeva import BinaryGA, CategoricalGA, CombinatoryGA, VEGA, FFGA
    G = __import__("baumeva.ga").ga
    num = lambda x: sum((i + 1) * (v if isinstance(v, (int, float)) else len(v) + ord(v[0])) for i, v in enumerate(x))
    one = lambda x: num(x) % 7
    other = lambda x: -num(x) % 5 + 1
    two = lambda x: (num(x) % 5, -num(x) % 3)
    three = lambda x: (num(x) % 5, -num(x) % 3, num(x) % 2)
    k = dict(num_generations=5, num_individ=6, early_stop=None, is_print=False)
    L = ["red", "green", "blue", "white"]
    con = lambda f, c: dict(obj_function=lambda x: tuple(num(x) - 9 if s != "optimize" else f(x) for s in c), conditions=c)
    tables = dict(equality_intervals={}, equality_r_coef={}, inequality_intervals={0: [(0, 5), (5, 10 ** 6)]},
                  inequality_r_coef={0: [2, 3]})

    def col(pop, gens, sel, cro, mut, tr, n, f, target=None, multi=False, **kw):
        def run():
            c = baumeva.CollectorGA(fitness=(G.VEGAHyperbolaFitness if multi else G.HyperbolaFitness)(obj_function=f, obj_value=target),
                                    selection=sel, crossover=cro, mutation=mut, new_generation=G.NewGeneration(tr),
                                    storage=G.MultiGaData if multi else G.GaData)
            c.set_population(population=pop, num_individ=n, num_generations=5, gens=gens, early_stop=9, **kw)
            c.optimize()
            return c.ga_data
        return run
    return {
        "cat2": lambda: CategoricalGA(gens=[L, L[:2]], obj_function=one, mutation_lvl="strong", **k).optimize(),
        "cat5": lambda: CategoricalGA(gens=[L, L[:2], (0, 9, 3), L, L], obj_function=other, mutation_lvl="strong", **k).optimize(),
        "cat-level": lambda: CategoricalGA(gens=[L[:3], L], obj_function=one, mutation_lvl=0.3, obj_value=2, **k).optimize(),
        "binary1": lambda: BinaryGA(gens=((0, 7, 1),), obj_function=one, mutation_lvl="strong", **k).optimize(),
        "binary3": lambda: BinaryGA(gens=((0, 63, 1), (-1, 1, 0.1), (0, 3, 1)), obj_function=other, mutation_lvl="strong", **k).optimize(),
        "gray": lambda: BinaryGA(gens=((0, 7, 1), (-1, 1, 0.1)), obj_function=one, is_gray=True, transfer_parents="random",
                                 children_percent=0.5, **k).optimize(),
        "order4": lambda: CombinatoryGA(gens=(0, 9, 4), obj_function=one, mutation_lvl="strong", **k).optimize(),
        "order7": lambda: CombinatoryGA(gens=(1, 7, 7), obj_function=other, mutation_lvl=0.7, **k).optimize(),
        "vega2": lambda: VEGA(gens=((0, 7, 1), (0, 3, 1)), obj_function=two, **k).optimize(),
        "vega3": lambda: VEGA(gens=((0, 7, 1), (0, 3, 1)), obj_function=three, **k).optimize(),
        "ffga2": lambda: FFGA(gens=((0, 7, 1), (0, 3, 1)), obj_function=two, **k).optimize(),
        "ffga3": lambda: FFGA(gens=((0, 7, 1), (0, 3, 1)), obj_function=lambda x: tuple(-v for v in three(x)), **k).optimize(),
        "dynamic": lambda: BinaryGA(gens=((0, 7, 1), (0, 3, 1)), penalty=G.DynamicPenalty(), **con(one, ["<=", "optimize"]), **k).optimize(),
        "adaptive": lambda: BinaryGA(gens=((0, 7, 1), (0, 3, 1)), penalty=G.AdaptivePenalty(), **con(other, ["optimize", "!="]), **k).optimize(),
        "static": lambda: BinaryGA(gens=((0, 7, 1), (0, 3, 1)), penalty=G.StaticPenalty(**tables), **con(one, ["<=", "optimize"]),
                                   **k).optimize(),
        "vega-cond": lambda: VEGA(gens=((0, 7, 1), (0, 3, 1)), penalty=G.DynamicPenalty(), **con(one, ["optimize", "<=", "optimize"]),
                                  **k).optimize(),
        "balanced": col(G.BinaryPopulation, ((0, 7, 1),) * 2, G.BalancedSelection(), G.UniformCrossover(), G.BinStringMutation("normal"),
                        "best", 9, other, 1),
        "ranked": col(G.OrderCatPopulation, (0, 9, 6), G.RankedSelection(), G.OrderCrossover(), G.ShiftMutation("strong"), "random", 7, one),
        "ranked-again": col(G.CatPopulation, (L, L, L), G.RankedSelection(), G.TwoPointCrossover(), G.CategoricalMutation("normal"),
                            "best", 11, other, children_percent=0.6),
        "vega-ranked": col(G.BinaryGrayPopulation, ((0, 7, 1),) * 2, G.VEGARankedSelection(2), G.OnePointCrossover(),
                           G.BinStringMutation(0.2), "best", 8, two, multi=True),
        "vega-balanced": col(G.BinaryPopulation, ((0, 7, 1),) * 3, G.VEGABalancedSelection(2), G.UniformCrossover(),
                             G.BinStringMutation("weak"), "best", 10, lambda x: (one(x), other(x)), [1, 1], multi=True)}


def main(seed, names):
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    import io, warnings
    warnings.simplefilter("ignore")
    import baumeva
    keys = ("genotype", "phenotype", "score", "obj_score", "feasible", "rank")
    for n in names:
        out, sys.stdout = sys.stdout, io.StringIO()
        baumeva.generator.rnd_seed = seed
        try:
            d = family()[n]()
            r = repr([[{q: i.get(q) for q in keys} for i in p] for p in (d.population, d.parents, d.children)]) + \
                repr([d.historical_best, d.historical_mediocre, d.historical_worst, d.idx_generation, d.num_generation_no_improve,
                      d.best_solution])
        except Exception as e:
            r = "raised %r" % e
        sys.stdout = out
        print(r if r.startswith("raised") else hashlib.sha256(r.encode()).hexdigest())


if __name__ == "__main__":
    main(int(sys.argv[1]), sys.argv[2:])
