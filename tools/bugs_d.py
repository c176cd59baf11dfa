"""Fourth round: averages, defaults of components, users' own classes and labels, forms of the configuration."""
BUGS = []


def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))


GD, MG, NG, BF, MF = "ga/ga_data.py", "ga/multi_ga_data.py", "ga/new_generation.py", "ga/fitness/base_fitness.py", "ga/fitness/multi_fitness.py"

bug("c17-average", "C17", [(MG, "        avg /= len(self.population)", "        avg /= self.population.num_individ")], """
random.seed(3)
d = FFGA(num_generations=4, num_individ=6, gens=((0, 7, 1),), obj_function=lambda x: (x[0], -x[0]), early_stop=None, is_print=False).optimize()
want = sum(i["score"] for i in d.population) / len(d.population)
check(abs(d.get_avg_score() - want) < 1e-9, (d.get_avg_score(), want))
""", "a population that has grown beyond its initial size", "the average of the current generation is divided by the wrong number")

bug("c12-average", "C12", [(GD, "        avg = 0\n        for individ in self.population:\n            avg += individ['score']\n        avg /= len(self.population)\n        return avg",
                           "        scores = {tuple(individ['genotype']): individ['score'] for individ in self.population}\n        return sum(scores.values()) / len(scores)")], """
d = GaData(num_generations=5)
d.population = pop(BinaryPopulation, 3, ((0, 7, 1),), [[1], [1], [7]])
HyperbolaFitness(obj_function=lambda x: x[0]).execute(d)
d.update()
check(abs(d.get_avg_score() - (-3.0)) < 1e-9, d.get_avg_score())
""", "a generation with equal individuals", "equal individuals count once in the average score")

bug("c20-data-default", "C20", [(MG, "        super().__init__(num_generations, children_percent, early_stop)", "        super().__init__(num_generations, children_percent)\n        if early_stop:\n            self.early_stop = early_stop")], """
runs = []
for es in (0, 1):
    d = VEGA(num_generations=30, num_individ=4, gens=((0, 1, 1),), obj_function=lambda x: (1, 1), early_stop=es, children_percent=0.0,
             is_print=False).optimize()
    runs.append(d.idx_generation)
check(runs[0] < runs[1] and runs[0] < 6, runs)
""", "early_stop=0 in a multi-objective run", "early_stop=0 becomes the default 10 in the data object")

bug("c15-own-penalty", "C15", [(BF, "        else:\n            return self.penalty.execute(conditionals=self.conditions, values=values)",
                               "        else:\n            self.penalty.execute(conditionals=self.conditions, values=values)\n            return self.penalty.penalty")], """
from baumeva.ga import BasePenalty


class Mine(BasePenalty):
    def get_sum_conditional_func(self, conditionals, values):
        pass

    def execute(self, conditionals, values, **kwargs):
        return 100 * sum(max(0, v) for v in values)


d = GaData(num_generations=5)
d.population = pop(BinaryPopulation, 2, ((0, 7, 1),), [[1], [7]])
HyperbolaFitness(obj_function=lambda x: (x[0], x[0] - 3), penalty=Mine(), conditions=["optimize", "<="]).execute(d)
check([round(i["score"]) for i in d.population] == [-1, -407], [i["score"] for i in d.population])
""", "a penalty class of the user's own", "what the penalty object returns is ignored, the score is charged with a stale attribute")

bug("c05-sorted-segment", "C05", [("ga/crossovers/order_crossover.py", "        new_gens = [x for x in parent_2 if x not in segment]", "        taken = {str(x) for x in segment}\n        new_gens = [x for x in parent_2 if str(x) not in taken]")], """
c = OrderCrossover()
ok = True
for s in range(60):
    random.seed(s)
    d = GaData(num_generations=2)
    p = OrderCatPopulation()
    p.set_params(num_individ=2, gens=(0, 3, 4), input_population=[[1, "1", 2, "2"], ["2", 2, "1", 1]])
    p.fill()
    d.population = p
    d.parents = OrderCatPopulation(is_seed=False)
    d.parents.extend([dict(p[0]), dict(p[1])])
    c.execute(d)
    g = d.children[0]["genotype"]
    ok = ok and sorted(map(repr, g)) == sorted(map(repr, p[0]["genotype"]))
check(ok, g)
""", "labels of different types that print alike (1 and '1')", "order crossover drops genes that print like one in the kept segment")

bug("c24-improving", "C24", [(GD, "        self.historical_best.append(self.population[-1]['score'])", "        self.historical_best.append(self.population[-1]['score'])\n        self.best_before = {'score': self.population[-1]['score'], 'before': getattr(self, 'best_before', None)}"),
                             (GD, "            self.best_solution = deepcopy(self.population[-1])\n            self.best_solution['idx_generation'] = self.idx_generation\n            self.num_generation_no_improve = 0",
                              "            self.best_solution = deepcopy(self.population[-1])\n            self.best_solution['idx_generation'] = self.idx_generation\n            self.best_solution['before'] = deepcopy(self.best_before)\n            self.num_generation_no_improve = 0")], """
random.seed(1)
calls = [0]


def f(x):
    calls[0] += 1
    return -calls[0]


try:
    BinaryGA(num_generations=600, num_individ=4, gens=((0, 7, 1),), obj_function=f, early_stop=None, tournament_size=2, is_print=False).optimize()
    ok = True
except RecursionError:
    ok = False
check(ok, "RecursionError")
""", "a run of hundreds of generations that improves late", "each best solution drags a nested record of all generations before along, until copying it exceeds the recursion limit")
