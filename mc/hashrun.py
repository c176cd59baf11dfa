"""Run one configuration of C19 in a fresh interpreter with the genuine generator and print a digest of the result."""
import hashlib, sys


def main(name, seed, before):
    sys.path.insert(0, __import__("os").environ.get("VERIF_REPO", "/repo"))
    import io, random, warnings
    warnings.simplefilter("ignore")
    import baumeva
    for _ in range(before):
        random.random()
    out, sys.stdout = sys.stdout, io.StringIO()
    from baumeva import BinaryGA, CategoricalGA, CombinatoryGA, VEGA, FFGA
    baumeva.generator.rnd_seed = seed
    letters = ["red", "green", "blue", "white"]
    num = lambda x: sum((i + 1) * (v if isinstance(v, (int, float)) else len(v) + ord(v[0])) for i, v in enumerate(x))
    one = lambda x: num(x) % 7
    two = lambda x: (num(x) % 5, -num(x) % 3)
    k = dict(num_generations=5, num_individ=6, early_stop=None, is_print=False, mutation_lvl=0.3)
    G = __import__("baumeva.ga").ga
    big = dict(k, num_individ=45)

    def col(kind, sel, cro, mut, tr, n, target):
        c = baumeva.CollectorGA(fitness=G.HyperbolaFitness(obj_function=one, obj_value=target), selection=sel, crossover=cro, mutation=mut,
                                new_generation=G.NewGeneration(tr))
        pop, gens = (G.OrderCatPopulation, (0, 9, 6)) if kind == "order" else (G.BinaryPopulation, ((0, 7, 1), (-1, 1, 0.1)))
        c.set_population(population=pop, num_individ=n, num_generations=6, gens=gens, early_stop=9, children_percent=0.6)
        return c
    g = {"binary": lambda: BinaryGA(gens=((0, 7, 1), (-1, 1, 0.1)), obj_function=one, **k),
         "gray": lambda: BinaryGA(gens=((0, 7, 1), (-1, 1, 0.1)), obj_function=one, is_gray=True, transfer_parents="random", **k),
         "cat": lambda: CategoricalGA(gens=[letters, letters[:2], (0, 9, 3)], obj_function=one, **k),
         "order": lambda: CombinatoryGA(gens=(0, 9, 6), obj_function=one, **k),
         "vega": lambda: VEGA(gens=((0, 7, 1), (0, 3, 1)), obj_function=two, **k),
         "ffga": lambda: FFGA(gens=((0, 7, 1), (0, 3, 1)), obj_function=two, **k),
         "penalty": lambda: BinaryGA(gens=((0, 7, 1), (-1, 1, 0.1)), obj_function=lambda x: (one(x), num(x) - 3), penalty=G.AdaptivePenalty(),
                                     conditions=["optimize", "<="], **k),
         "collector": lambda: col("binary", G.BalancedSelection(), G.UniformCrossover(), G.BinStringMutation("strong"), "best", 12, 1),
         "order-collector": lambda: col("order", G.RankedSelection(), G.OrderCrossover(), G.ShiftMutation("strong"), "random", 12, None),
         "large": lambda: CombinatoryGA(gens=(0, 9, 6), obj_function=one, children_percent=0.4, **big),
         "large-cat": lambda: CategoricalGA(gens=[letters, letters[:2], (0, 9, 3)], obj_function=lambda x: 1, children_percent=0.4,
                                            transfer_parents="random", **big),
         "large-vega": lambda: VEGA(gens=((0, 7, 1), (0, 3, 1)), obj_function=two, children_percent=0.5, **big)}[name]()
    d = g.optimize()
    d = d if d is not None else g.ga_data
    sys.stdout = out
    keys = ("genotype", "phenotype", "score", "obj_score", "feasible", "rank")
    r = repr([[{q: i.get(q) for q in keys} for i in p] for p in (d.population, d.parents, d.children)]) + \
        repr([d.historical_best, d.historical_mediocre, d.historical_worst, d.idx_generation, d.best_solution])
    print(hashlib.sha256(r.encode()).hexdigest())


if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
