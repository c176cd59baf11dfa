"""Fifth round: VEGA scores, many objectives, equal children, records of Pareto sets, long multi-objective runs, input data."""
BUGS = []


def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))


MG, BF, VF = "ga/multi_ga_data.py", "ga/fitness/base_fitness.py", "ga/fitness/vega_hyperbola_fitness.py"

bug("c14-vega-target", "C14", [(VF, "abs(self.obj_value[i] - individ['obj_score'][i])", "abs(self.obj_value[min(i, 1)] - individ['obj_score'][i])")], """
d = MultiGaData(num_generations=5)
d.population = pop(BinaryPopulation, 2, ((0, 7, 1),), [[1], [7]])
VEGAHyperbolaFitness(obj_function=lambda x: (x[0], 2 * x[0], -x[0]), obj_value=[0, 2, -1]).execute(d)
check(all(abs(a - b) < 1e-9 for a, b in zip(d.population[0]["score"], [0.5, 1.0, 1.0])), d.population[0]["score"])
""", "three or more objectives with targets", "the third and later objectives are scored against the second one's target")

bug("c10-block-order", "C10", [("ga/selections/vega_tournament_selection.py", "        for self.idx in range(self.num_objectives):\n", "        for self.idx in sorted(range(self.num_objectives), key=str):\n")], """
m = n = 13
d = MultiGaData(num_generations=5, children_percent=1.0)
d.population = pop(BinaryPopulation, n, ((0, 15, 1),), [[i] for i in range(n)])
for i, ind in enumerate(d.population):
    ind["score"] = [(i + j) % n for j in range(m)]
random.seed(1)
VEGATournamentSelection(m, n - 1).execute(d)
check(all({d.parents[2 * j]["score"][j], d.parents[2 * j + 1]["score"][j]} == {n - 1, n - 2} for j in range(m)),
      [d.parents[2 * j]["score"][j] for j in range(m)])
""", "more than ten objectives", "the blocks of parents come in the order 0, 1, 10, 11, 2, ...")

bug("c07-equal-children", "C07", [("ga/mutations/bin_string_mutation.py", "        for child in ga_data.children:\n            self.get_mutation(child)",
                                  "        done = {}\n        for child in ga_data.children:\n            before = ''.join(child['genotype'])\n            if before not in done:\n                self.get_mutation(child)\n                done[before] = child['genotype']\n            else:\n                child['genotype'] = list(done[before])")], """
same = 0
for s in range(40):
    random.seed(s)
    d = GaData(num_generations=2)
    d.population = pop(BinaryPopulation, 3, ((0, 255, 1),), [[7], [7], [7]])
    d.parents = d.population.get_empty_copy()
    d.parents.extend([d.population[0], d.population[1], d.population[1], d.population[2]])
    OnePointCrossover().execute(d)
    BinStringMutation(0.5).execute(d)
    same += d.children[0]["genotype"] == d.children[1]["genotype"]
check(same < 10, same)
""", "two children with the same genotype in one generation", "equal children are mutated by the same coins instead of independently")

bug("c17-record-generation", "C17", [(MG, "            self.best_solution['idx_generation'] = self.idx_generation\n", "            self.best_solution.setdefault('idx_generation', self.idx_generation)\n")], """
d = MultiGaData(num_generations=5)
d.population = pop(BinaryPopulation, 2, ((0, 7, 1),), [[3], [7]])
f = FFGAFitness(obj_function=lambda x: (x[0], x[0]))
f.execute(d)
d.update()
e = pop(BinaryPopulation, 2, ((0, 7, 1),), [[1], [3]])
d.population = e
f.execute(d)
d.update()
check(d.best_solution["idx_generation"] == 1 and d.best_solution["pareto_set"][0]["phenotype"] == [1.0], d.best_solution)
""", "a Pareto set that changes after the first generation", "the recorded generation stays that of the first Pareto set")

bug("c13-hundred", "C13", [("ffga.py", "early_stop if early_stop is not None else num_generations", "early_stop if early_stop is not None else min(num_generations, 100)")], """
d = FFGA(num_generations=140, num_individ=3, gens=((0, 3, 1),), obj_function=lambda x: (x[0], x[0]), early_stop=None, children_percent=0.0,
         is_print=False).optimize()
check(d.idx_generation == 140, d.idx_generation)
""", "a FFGA run without early stopping that stays the same for more than 100 generations", "early_stop=None stops after 100 generations without change")

bug("c21-data-order", "C21", [(BF, "        self.input_data = input_data\n", "        if isinstance(input_data, list):\n            input_data.sort(key=str)\n        self.input_data = input_data\n")], """
data = [3, 1, 2]
BinaryGA(num_generations=3, num_individ=5, gens=((0, 7, 1),), obj_function=lambda dt, x: x[0] - dt[0], input_data=data, is_print=False).optimize()
check(data == [3, 1, 2], data)
""", "input data given as a list in another order than sorted", "the user's own list is sorted in place")
