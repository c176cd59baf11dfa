"""Sixth round: early stopping with other options, biased coins on long genotypes, late FFGA generations, runs after a failed run."""
BUGS = []


def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))


bug("c13-conditions", "C13", [("vega.py", "            if ga_data.num_generation_no_improve > ga_data.early_stop:", "            patience = ga_data.early_stop + (1 if self.conditions else 0)\n            if ga_data.num_generation_no_improve > patience:")], """
d = VEGA(num_generations=30, num_individ=4, gens=((0, 3, 1),), obj_function=lambda x: (x[0], -1, x[0]), early_stop=2, children_percent=0.0,
         input_population=[[0], [1], [2], [3]],
         penalty=DynamicPenalty(), conditions=["optimize", "<=", "optimize"], is_print=False).optimize()
check(d.idx_generation == 4, d.idx_generation)
""", "a VEGA run with conditions that stops early", "with conditions the run goes on for one generation more")

bug("c05-long-coin", "C05", [("ga/crossovers/uniform_crossover.py", "            coin = randint(1, 2)\n", "            coin = randint(1, 2) if i < 24 else randint(1, 4)\n")], """
random.seed(3)
first = 0
for _ in range(100):
    d = GaData(num_generations=2)
    p = CatPopulation()
    p.set_params(num_individ=3, gens=tuple(["a", "b"] for _ in range(64)), input_population=[["a"] * 64, ["b"] * 64])
    p.fill()
    d.population = p
    d.parents = p.get_empty_copy()
    d.parents.extend([p[0], p[1]])
    UniformCrossover().execute(d)
    child = d.children[0]["genotype"]
    first += child[24:].count(child[30])
check(0.45 < (first - 100) / (100 * 39) < 0.56, first)
""", "genotypes of more than 24 genes", "late genes come from one parent three times as often as from the other")

bug("c20-ffga-late", "C20", [("ffga.py", "            mutation.execute(ga_data)\n", "            if i <= 20 or self.transfer_parents == 'best':\n                mutation.execute(ga_data)\n")], """
def obj(x):
    return x[0] ** 2, (x[0] - 5) ** 2


generator.rnd_seed = 4
d = FFGA(num_generations=30, num_individ=4, gens=((0, 15, 1),), obj_function=obj, early_stop=None, transfer_parents="random", mutation_lvl=0.5,
         is_print=False).optimize()
generator.rnd_seed = 4
e = MultiGaData(num_generations=30)
p = BinaryPopulation()
p.set_params(num_individ=4, gens=((0, 15, 1),))
f, s, c, m, n = FFGAFitness(obj_function=obj), BalancedSelection(), OnePointCrossover(), BinStringMutation(0.5), MultiNewGeneration("random")
p.fill()
e.population = p
f.execute(e)
e.update()
for _ in range(29):
    for part in (s, c, m, n, f):
        part.execute(e)
    e.update()
check([i["genotype"] for i in d.population] == [i["genotype"] for i in e.population], "the runs differ")
""", "an FFGA run with random transfer over more than 20 generations", "mutation is left out in late generations of the ready-made class")

bug("c21-after-failure", "C21", [("categorical_ga.py", "        if self.is_print:\n", "        self.tries = 0\n        if self.is_print:\n"),
                                 ("categorical_ga.py", "        for i in range(1, ga_data.num_generations):\n", "        self.tries = getattr(self, 'tries', 0) + 1\n        for i in range(self.tries, ga_data.num_generations):\n")], """
fail = [3]


def obj(x):
    fail[0] -= 1
    if fail[0] < 0:
        raise ValueError("objective")
    return len(set(x))


ga = CategoricalGA(num_generations=6, num_individ=3, gens=(["a", "b", "c"],) * 3, obj_function=obj, early_stop=None, tournament_size=2, is_print=False)
try:
    ga.optimize()
except ValueError:
    pass
fail[0] = 10 ** 6
d = ga.optimize()
check(d.idx_generation == 6, d.idx_generation)
""", "optimize() called again on an object whose first run ended with an exception after the first generation", "the next run is one generation shorter")
