BUGS = []


def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))


TS = "ga/selections/tournament_selection.py"
BS = "ga/selections/balanced_selection.py"
BF = "ga/fitness/base_fitness.py"
NG = "ga/new_generation.py"
GD = "ga/ga_data.py"

bug("c08-shallow", "C08", [(TS, "ga_data.parents.extend(deepcopy(parent) for parent in parents_pair)",
                            "ga_data.parents.extend(dict(parent) for parent in parents_pair)")], """
random.seed(1)
d = scored([1, 2, 3, 4, 5], children_percent=1.0)
TournamentSelection(2).execute(d)
keep = [list(i["genotype"]) for i in d.population]
for p in d.parents:
    p["genotype"][0] = 77
check([i["genotype"] for i in d.population] == keep, "changing a parent changes the population")
""", "something that works on a parent in place", "parents share their genotype lists with the population")

bug("c08-by-genotype", "C08", [(TS, "best['idx_individ'] != parents_pair[0]['idx_individ']",
                                "best['genotype'] != parents_pair[0]['genotype'] or i > 0 and best is not parents_pair[0]")], """
random.seed(1)
n = Counter()
for _ in range(300):
    d = scored([1, 2, 3, 4], genotypes=[[0], [1], [5], [5]], children_percent=0.3)
    TournamentSelection(2).execute(d)
    a, b = [p["obj_score"] for p in d.parents]
    n[frozenset((a, b))] += 1
check(n[frozenset((2, 3))] > 50, "pairs %r" % n)
""", "two individuals with equal genotypes that both win tournaments", "the first pair never consists of two individuals with equal genotypes (and selection spins if all are equal)")

bug("c09-first-n", "C09", [(BS, "sum_scores = sum(ind[self.score_type] for ind in ga_data.population)",
                            "sum_scores = sum(ind[self.score_type] for ind in ga_data.population[:ga_data.population.num_individ])")], """
random.seed(1)
n = Counter()
for _ in range(300):
    d = scored([1, 1, 1, 1], n=3, children_percent=1.0)
    BalancedSelection().execute(d)
    n.update(p["obj_score"] for p in d.parents)
check(n[3] > 300, "%r" % n)
""", "a generation after the first, which has num_individ + 1 members", "the last (best) member is never a parent")

bug("c09-neighbour", "C09", [(BS, "                if len(idxs) == 0 or idx != idxs[-1]:\n                    idxs.append(idx)",
                              "                if len(idxs) == 1 and idx == idxs[0]:\n                    idx = (idx + 1) % len(ga_data.population)\n                idxs.append(idx)")], """
random.seed(1)
n = Counter()
for _ in range(3000):
    d = scored([8, 1, 1], children_percent=0.34)
    BalancedSelection().execute(d)
    n[tuple(p["obj_score"] for p in d.parents)] += 1
check(0.7 < n[0, 2] / n[0, 1] < 1.4, "%r" % n)
""", "the second draw hitting the first parent again", "its neighbour is taken as second parent, not an individual drawn by score")

bug("c10-round", "C10", [("ga/selections/vega_tournament_selection.py", "return int(ga_data.children_percent*ga_data.population.num_individ/self.num_objectives)",
                          "return round(ga_data.children_percent*ga_data.population.num_individ/self.num_objectives)")], """
random.seed(1)
for n, m, cp in ((10, 2, 1.0), (10, 3, 1.0), (11, 2, 0.95), (8, 3, 0.7)):
    d = scored([[i] * m for i in range(n)], multi=True, children_percent=cp)
    VEGATournamentSelection(m).execute(d)
    check(len(d.parents) == 2 * m * int(cp * n / m), "n=%d m=%d: %d parents" % (n, m, len(d.parents)))
""", "a number of individuals that is not a multiple of the number of objectives", "more pairs than children_percent allows")

bug("c10-last-block", "C10", [("ga/selections/vega_tournament_selection.py", "        for self.idx in range(self.num_objectives):\n\n            super().tournament(ga_data)",
                               "        for idx in range(self.num_objectives):\n            self.idx = min(idx, len(ga_data.population[0]['score']) - 1, 2)\n            super().tournament(ga_data)")], """
random.seed(1)
m, n = 4, 8
d = scored([[(i * (j + 1) + j) % 9 for j in range(m)] for i in range(n)], multi=True, children_percent=1.0)
VEGATournamentSelection(m, n - 1).execute(d)
for j in range(m):
    best = sorted((i["score"][j] for i in d.population), reverse=True)[:2]
    for p in d.parents[4 * j:4 * j + 4]:
        check(p["score"][j] >= best[1], "objective %d: parent %r" % (j, p["score"]))
""", "four or more objectives", "the fourth objective's parents are chosen by the third objective's scores")

bug("c11-drop-better", "C11", [(NG, "del elites[-i - j]", "del elites[-i]")], """
random.seed(1)
d = scored([1, 2, 3, 4], genotypes=[[0], [1], [5], [5]], n=4)
d.children = CatPopulation()
for _ in range(2):
    d.children.append({"genotype": [9], "score": None, "obj_score": None, "feasible": True, "idx_individ": None})
NewGeneration().execute(d)
check(4 in [i["score"] for i in d.population], "best-scored individual lost: %r" % [i["score"] for i in d.population])
""", "the best individual's genotype being present twice with different scores (dynamic or adaptive penalty of different generations)",
    "the better-scored copy is removed, the best individual does not survive")

bug("c11-random-worst", "C11", [(NG, "            elites = sample(ga_data.population[:-1], num_elites)\n            loop_counter = 0",
                                 "            elites = sample(ga_data.population[len(ga_data.children) > num_elites:-1], num_elites)\n            loop_counter = 0")], """
random.seed(1)
n = Counter()
for _ in range(300):
    d = scored(list(range(10)), n=10)
    d.children = CatPopulation()
    for k in range(7):
        d.children.append({"genotype": [50 + k], "score": None, "obj_score": None, "feasible": True, "idx_individ": None})
    NewGeneration("random").execute(d)
    n.update(i["score"] for i in d.population)
check(all(n[k] for k in range(10)), "%r" % n)
""", "'random' transfer with more children than survivors", "the worst individual can never survive")

bug("c12-median", "C12", [(GD, "self.population[int(len(self.population)/2)]['score']", "self.population[int(self.population.num_individ/2)]['score']")], """
d = scored([5, 1, 4, 2, 6, 3], n=5)
d.update()
check(d.historical_mediocre == [4], "median %r" % d.historical_mediocre)
d = scored([5, 1, 4, 2], n=4)
d.update()
check(d.historical_mediocre == [4], "median %r" % d.historical_mediocre)
""", "an odd num_individ and a generation after the first", "the median history holds the lower of the two middle scores")

bug("c12-improve-obj", "C12", [(GD, "elif self.best_solution['score'] < self.population[-1]['score']:",
                                "elif self.best_solution['score'] <= self.population[-1]['score'] and self.best_solution['genotype'] != self.population[-1]['genotype']:")], """
d = scored([1, 2, 3])
d.update()
first = d.best_solution["genotype"]
d.population.is_sorted = False
d.population.reverse()
d.population[0]["genotype"] = [55]
d.update()
check(d.best_solution["idx_generation"] == 0 and d.best_solution["genotype"] == first, "best solution of generation %d" % d.best_solution["idx_generation"])
check(d.num_generation_no_improve == 1, "counter %d" % d.num_generation_no_improve)
""", "a later generation whose best individual has the same score but another genotype", "the best solution is replaced without improvement and the early-stop counter restarts")

bug("c13-zero", "C13", [("categorical_ga.py", "self.early_stop = early_stop if early_stop is not None else num_generations", "self.early_stop = early_stop or num_generations")], """
random.seed(1)
d = CategoricalGA(num_generations=20, num_individ=6, gens=(["a", "b"],), obj_function=lambda x: 1, early_stop=0, is_print=False).optimize()
check(d.idx_generation == 2, "%d generations" % d.idx_generation)
""", "early_stop=0 in CategoricalGA", "early stopping is disabled instead of stopping at the first generation without improvement")

bug("c13-collector", "C13", [("collector_ga.py", "            if self.ga_data.num_generation_no_improve > self.ga_data.early_stop:",
                              "            if self.ga_data.num_generation_no_improve > min(self.ga_data.early_stop, len(self.ga_data.historical_best) // 2):")], """
import io, contextlib
random.seed(1)
c = CollectorGA(HyperbolaFitness(lambda x: 1), TournamentSelection(2), OnePointCrossover(), BinStringMutation(), NewGeneration())
c.set_population(BinaryPopulation, num_individ=5, num_generations=30, gens=((0, 7, 1),), early_stop=10)
with contextlib.redirect_stdout(io.StringIO()):
    c.optimize()
check(c.ga_data.idx_generation == 12, "%d generations" % c.ga_data.idx_generation)
""", "a run without improvement from the start, in collector mode", "the run stops before early_stop generations without improvement")

bug("c14-zero-score", "C14", [(BF, "            if individ['score'] is None:", "            if not individ['score']:")], """
calls = []
def f(x):
    calls.append(list(x))
    return 0
random.seed(1)
d = BinaryGA(num_generations=3, num_individ=5, gens=((0, 7, 1),), obj_function=f, is_print=False, early_stop=None, children_percent=0.4).optimize()
check(len(calls) == 5 + 2 * 2, "%d calls" % len(calls))
""", "a survivor whose score is exactly 0", "it is evaluated again in every generation")

bug("c14-target-zero", "C14", [("ga/fitness/hyperbola_fitness.py", "if self.obj_value is not None:", "if self.obj_value:")], """
p = pop(CatPopulation, 3, ((0, 9, 1),), [[0], [3], [9]])
d = data(p)
HyperbolaFitness(lambda x: x[0], obj_value=0).execute(d)
check([i["score"] for i in p] == [1.0, 0.25, 0.1], "%r" % [i["score"] for i in p])
""", "a target value of 0", "the target is ignored and the objective minimised instead")

bug("c14-memo", "C14", [(BF, "        for individ in ga_data.population:\n            if individ['score'] is None:\n                values = self.calc_obj_func(genotype=individ['genotype'])",
                         "        known = {}\n        for individ in ga_data.population:\n            if individ['score'] is None:\n                key = repr(individ['genotype'])\n                if key not in known:\n                    known[key] = self.calc_obj_func(genotype=individ['genotype'])\n                values = known[key]")], """
calls = []
def f(x):
    calls.append(list(x))
    return (len(calls), -1, -1)
p = pop(CatPopulation, 4, ((0, 9, 1),), [[1], [2], [2], [1]])
d = data(p)
HyperbolaFitness(f, penalty=DynamicPenalty(), conditions=["optimize", "<=", "<="]).execute(d)
check(len(calls) == 4 and [i["obj_score"] for i in p] == [1, 2, 3, 4], "%d calls, %r" % (len(calls), [i["obj_score"] for i in p]))
""", "two new individuals with equal genotypes in one generation", "the objective is called once for both (and in conditional runs their shared value list is consumed)")

bug("c15-last-condition", "C15", [(BF, "                            if v > 0:\n                                individ['feasible'] = False", "                            individ['feasible'] = not v > 0")], """
for vals, ok in (((1, -1), False), ((-1, 1), False), ((-1, -1), True), ((0, 0), True)):
    p = pop(CatPopulation, 1, ((0, 9, 1),))
    HyperbolaFitness(lambda x: (5,) + vals, penalty=DynamicPenalty(), conditions=["optimize", "<=", "<="]).execute(data(p))
    check(p[0]["feasible"] == ok, "values %r: feasible=%r" % (vals, p[0]["feasible"]))
""", "a violated condition followed by a satisfied '<=' condition", "the individual is flagged feasible")

bug("c15-dynamic-max", "C15", [("ga/penalties/dynamic_penalty.py", "            self.sum_conditional += res**self.power", "            self.sum_conditional = max(self.sum_conditional, res**self.power)")], """
p = DynamicPenalty()
check(p.execute(["<=", "<="], [2, 0], 4) == 16, "one violation")
check(p.execute(["<=", "!="], [2, -1], 4) == 20, "two violations: %r" % p.execute(["<=", "!="], [2, -1], 4))
""", "two conditions violated at once", "only the largest violation is charged")

bug("c15-adaptive-sign", "C15", [("ga/penalties/adaptive_penalty.py", "                res = abs(values[i])\n", "                res = values[i]\n")], """
for betta in (1, 2, 3):
    p = AdaptivePenalty(betta=betta)
    v = p.execute(["!="], [-2], {"feasible": False}, 3)
    check(v > 0 and abs(v - 12 * 2 ** betta) < 1e-9, "betta=%r: penalty %r" % (betta, v))
""", "a negative equality violation with an odd exponent", "the violation is rewarded instead of penalised")

bug("c16-stale", "C16", [("ga/penalties/static_penalty.py", "        self.penalty = self.sum_conditional\n", "        self.penalty = self.sum_conditional or self.penalty\n")], """
p = StaticPenalty({0: [(0, 10)]}, {0: [2]}, {}, {})
check(p.execute(["!="], [0]) == 0, "first")
check(p.execute(["!="], [3]) == 36, "second")
check(p.execute(["!="], [0]) == 0, "a satisfied condition is charged %r" % p.execute(["!="], [0]))
""", "a feasible individual evaluated after an infeasible one", "it gets the previous individual's penalty")

bug("c16-first-interval", "C16", [("ga/penalties/static_penalty.py", "                for idx, val in enumerate(self.inequality_intervals[i]):", "                for idx, val in enumerate(self.inequality_intervals[min(i, len(self.inequality_intervals) - 1)]):")], """
p = StaticPenalty({0: [(0, 10)]}, {0: [2]}, {0: [(0, 5), (5, 10)], 1: [(0, 1), (1, 10)], 2: [(0, 9), (9, 10)]}, {0: [1, 1], 1: [3, 4], 2: [5, 6]})
check(p.execute(["<=", "<=", "<="], [-1, 2, 3]) == 64 + 225, "own intervals")
p = StaticPenalty({0: [(0, 10)]}, {0: [2]}, {1: [(0, 1), (1, 10)], 2: [(0, 5), (5, 10)]}, {1: [3, 4], 2: [5, 6]})
check(p.execute(["!=", "<=", "<="], [0, 2, 3]) == 64 + 225, "got %r" % p.execute(["!=", "<=", "<="], [0, 2, 3]))
""", "an equality condition before the inequality conditions, so that the inequality tables do not start at 0", "a violation is looked up in another condition's intervals")

bug("c17-skip", "C17", [("ga/fitness/multi_fitness.py", "        for i in range(len(ga_data.population)):\n            for j in range(i+1, len(ga_data.population)):",
                         "        for i in range(len(ga_data.population)):\n            for j in range(i+1, len(ga_data.population)):\n                if ga_data.population[i]['rank'] > 3 and ga_data.population[j]['rank'] > 3:\n                    continue")], """
for perm in itertools.permutations(range(6)):
    p = pop(BinaryPopulation, 6, ((0, 7, 1),), [[v] for v in perm])
    VEGAHyperbolaFitness(lambda x: (x[0], x[0])).execute(data(p, multi=True))
    check([i["rank"] for i in p] == [v + 1 for v in perm], "%r: %r" % (perm, [i["rank"] for i in p]))
""", "at least five individuals in a chain of dominance, in an order where later ones are already dominated often", "ranks of strongly dominated individuals are too small")

bug("c17-eps", "C17", [("ga/fitness/multi_fitness.py", "            if max_score[i] < y_score[i]:", "            if y_score[i] - max_score[i] > 1e-9:")], """
p = pop(BinaryPopulation, 2, ((0, 1, 1),), [[0], [1]])
VEGAHyperbolaFitness(lambda x: (1 + x[0] * 1e-10, 2 + x[0])).execute(data(p, multi=True))
check([i["rank"] for i in p] == [1, 2], "%r" % [i["rank"] for i in p])
""", "objective values that differ by less than 1e-9", "a dominated individual gets rank 1")

bug("c18-cap", "C18", [("ga/multi_new_generation.py", "        return elites", "        return elites[:num_elites]")], """
p = pop(BinaryPopulation, 16, ((0, 15, 1),), [[v] for v in range(16)])
d = data(p, multi=True)
FFGAFitness(lambda x: (x[0], -x[0])).execute(d)
d.update()
d.children = BinaryPopulation()
MultiNewGeneration().execute(d)
check(len(d.population) == 16, "%d of 16 Pareto-optimal individuals survive" % len(d.population))
""", "a Pareto set of more than ten individuals", "some Pareto-optimal individuals do not survive")

bug("c19-set", "C19", [("ga/mutations/categorical_mutation.py", "choice([x for x in gen_pool[i_gen] if x != child['genotype'][i_gen]])", "choice(list(set(gen_pool[i_gen]) - {child['genotype'][i_gen]}))")], """
import subprocess, os
code = '''
import sys
sys.path.insert(0, ".")
from baumeva import CategoricalGA, generator
generator.rnd_seed = 5
d = CategoricalGA(num_generations=4, num_individ=8, gens=(["red", "green", "blue", "black"],) * 3, obj_function=lambda x: x.count("red"), is_print=False, mutation_lvl=0.5).optimize()
print([i["genotype"] for i in d.population])
'''
out = {subprocess.check_output([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h))) for h in range(6)}
check(len(out) == 1, "%d different results of the same seed" % len(out))
""", "string categories and another hash seed of the interpreter", "runs with the same seed differ between processes")

bug("c19-seed-zero", "C19", [("global_generator.py", "self._rnd_seed = value", "self._rnd_seed = value or None")], """
def run(s):
    generator.rnd_seed = s
    p = pop(BinaryPopulation, 20, ((0, 1023, 1),))
    generator.rnd_seed = None
    return [i["genotype"] for i in p]
for s in (0, 1, 7):
    check(run(s) == run(s), "seed %d is not repeatable" % s)
""", "seed 0", "seed 0 is treated as no seed")

bug("c19-local-stream", "C19", [("ga/mutations/swap_mutation.py", "from random import sample", "from random import Random, sample"),
                                ("ga/mutations/swap_mutation.py", "        idx_swap = sample(range(0, len(child['genotype'])), 2)",
                                 "        idx_swap = sample(range(0, len(child['genotype'])), 2) if generator.rnd_seed is None else \\\n            Random(generator.rnd_seed).sample(range(0, len(child['genotype'])), 2)"),
                                ("ga/mutations/swap_mutation.py", "from .base_combinatory_mutation import BaseCombinatoryMutation", "from .base_combinatory_mutation import BaseCombinatoryMutation\nfrom baumeva.global_generator import generator")], """
generator.rnd_seed = 3
m = SwapMutation(1.0)
seen = set()
for _ in range(30):
    c = {"genotype": list(range(10))}
    m.get_mutation(c)
    seen.add(tuple(c["genotype"]))
check(len(seen) > 5, "only %d different swaps in 30" % len(seen))
""", "a fixed seed and the swap mutation", "every mutation replays the same random numbers")

bug("c20-transfer", "C20", [("combinatory_ga.py", "NewGeneration(transfer_parents=self.transfer_parents)", "NewGeneration()")], """
def run(tr):
    generator.rnd_seed = 4
    d = CombinatoryGA(num_generations=6, num_individ=12, gens=(0, 5, 6), obj_function=lambda x: sum(i * v for i, v in enumerate(x)), transfer_parents=tr, children_percent=0.5, is_print=False).optimize()
    return [i["genotype"] for i in d.population]
check(run("best") != run("random"), "transfer_parents has no effect")
try:
    CombinatoryGA(num_generations=2, num_individ=4, gens=(0, 5, 6), obj_function=sum, transfer_parents="no", is_print=False).optimize()
except Exception:
    pass
else:
    check(False, "unknown transfer strategy accepted")
""", "transfer_parents='random' in CombinatoryGA", "the option is ignored")

bug("c20-falsy-data", "C20", [("categorical_ga.py", "                                        input_data=self.input_data, penalty", "                                        input_data=self.input_data or None, penalty")], """
def f(d, x):
    return len(x)
for inp in (1, 0, [], ""):
    try:
        CategoricalGA(num_generations=2, num_individ=4, gens=(["a", "b"],), obj_function=f, input_data=inp, is_print=False).optimize()
    except TypeError as e:
        check(False, "input data %r not passed: %s" % (inp, e))
""", "falsy input data (0, empty list, empty string) in CategoricalGA", "the input data is not passed to the objective function")

bug("c20-gray-ffga", "C20", [("ffga.py", "        if self.is_gray:\n            population = BinaryGrayPopulation()", "        if self.is_gray and self.input_population is None:\n            population = BinaryGrayPopulation()")], """
random.seed(1)
d = FFGA(num_generations=2, num_individ=4, gens=((0, 7, 1),), obj_function=lambda x: (x[0], -x[0]), is_gray=True, input_population=[[3]], is_print=False).optimize()
for ind in d.population:
    b = int("".join(ind["genotype"]), 2)
    g = b
    while b:
        b >>= 1
        g ^= b
    check(abs(ind["phenotype"][0] - g) < 1e-9, "genotype %r decoded to %r" % (ind["genotype"], ind["phenotype"]))
""", "is_gray=True together with an input population in FFGA", "plain coding is used instead of Gray coding")

bug("c21-length", "C21", [("ga/crossovers/two_point_crossover.py", "        self.len_individ = len(ga_data.population[0]['genotype'])", "        self.len_individ = self.len_individ or len(ga_data.population[0]['genotype'])")], """
random.seed(2)
op = TwoPointCrossover()
for n in (3, 12):
    d = data(pop(BinaryPopulation, 2, ((0, 1, 1),) * n))
    seen = set()
    for _ in range(300):
        d.parents = pop(BinaryPopulation, 2, ((0, 1, 1),) * n)
        d.parents[0]["genotype"], d.parents[1]["genotype"] = ["0"] * n, ["1"] * n
        op.execute(d)
        g = "".join(d.children[0]["genotype"])
        seen |= {i for i in range(1, n) if g[i] != g[i - 1]}
    check(seen == set(range(1, n)), "length %d: cut points %r" % (n, sorted(seen)))
""", "one crossover object used in runs with different genotype lengths", "the cut points follow the first run's length")

bug("c21-history", "C21", [(GD, "    historical_worst: list = None", "    historical_worst: list = []"), (GD, "        self.historical_worst = []\n", "")], """
random.seed(2)
for _ in range(2):
    d = BinaryGA(num_generations=4, num_individ=5, gens=((0, 7, 1),), obj_function=sum, is_print=False, early_stop=None).optimize()
    check(len(d.historical_worst) == 4, "%d entries for 4 generations" % len(d.historical_worst))
""", "a second run in the same process", "the history of worst scores is shared by all runs")

bug("c21-sorted-input", "C21", [("ga/populations/cat_population.py", "            for individ in self.input_population:\n                self.add_dict(genotype=list(individ)",
                                 "            while self.input_population and len(self.input_population[-1]) == 0:\n                self.input_population.pop()\n            for individ in self.input_population:\n                self.add_dict(genotype=list(individ)"),
                                ("ga/populations/cat_population.py", "        for i in range(num_empty_individ):\n            self.add_dict(genotype=self.get_generated_individ(), score=None, obj_score=None)",
                                 "        if self.input_population and num_empty_individ:\n            self.input_population += [None] * 0\n        self.gens = self.gens if isinstance(self.gens, tuple) else tuple(self.gens)\n        for i in range(num_empty_individ):\n            self.add_dict(genotype=self.get_generated_individ(), score=None, obj_score=None)\n        for gen in self.gens:\n            if isinstance(gen, list) and all(isinstance(x, str) for x in gen):\n                gen.sort()")], """
gens = (["b", "a", "c"], (0, 4, 2))
random.seed(1)
CategoricalGA(num_generations=2, num_individ=4, gens=gens, obj_function=lambda x: 1, is_print=False).optimize()
check(gens == (["b", "a", "c"], (0, 4, 2)), "the user's gene definition became %r" % (gens,))
""", "string categories that are not given in alphabetical order", "the user's list of categories is reordered in place")

bug("c22-placeholder", "C22", [(BF, "                values = self.calc_obj_func(genotype=individ['genotype'])", "                individ['score'] = 0\n                values = self.calc_obj_func(genotype=individ['genotype'])")], """
def f(x):
    if x[0] == 5 and state[0]:
        raise RuntimeError("fault")
    return x[0]
state = [1]
p = pop(CatPopulation, 3, ((0, 9, 1),), [[2], [5], [7]])
d = data(p)
fit = HyperbolaFitness(f)
try:
    fit.execute(d)
except RuntimeError:
    pass
state[0] = 0
fit.execute(d)
check([i["score"] for i in p] == [-2, -5, -7], "scores %r" % [i["score"] for i in p])
""", "an objective function that raises, and evaluation again afterwards", "the individual at which it raised keeps a made-up score and is never evaluated")

bug("c22-arity", "C22", [(BF, "            values = self.obj_function(self.input_data, genotype)\n", "            try:\n                values = self.obj_function(self.input_data, genotype)\n            except TypeError:\n                values = self.obj_function(genotype)\n")], """
def f(d, x=None):
    if x is None:
        return 123
    if x[0] == 5:
        return "a" + 1
    return x[0]
p = pop(CatPopulation, 2, ((0, 9, 1),), [[2], [5]])
try:
    HyperbolaFitness(f, input_data=3).execute(data(p))
except TypeError:
    pass
else:
    check(False, "exception swallowed, scores %r" % [i["score"] for i in p])
""", "input data and an objective function that raises TypeError", "the exception is swallowed and the function called with the wrong arguments")

bug("c23-tournament", "C23", [(TS, "self.tournament_size >= num_individ", "self.tournament_size > num_individ")], """
for n, k, ok in ((4, 3, True), (4, 5, False), (4, 4, False), (4, 1, False)):
    random.seed(1)
    try:
        BinaryGA(num_generations=1 + ok, num_individ=n, gens=((0, 7, 1),), obj_function=sum, tournament_size=k, is_print=False).optimize()
        d = scored(list(range(n + 1)), n=n)
        TournamentSelection(k).execute(d)
    except Exception:
        check(not ok, "size %d of %d rejected" % (k, n))
    else:
        check(ok, "size %d of %d accepted" % (k, n))
""", "a tournament as large as the population", "it is accepted (and selection has only one possible winner)")

bug("c23-static", "C23", [("ga/penalties/static_penalty.py", "        if len(self.inequality_r_coef) != len(self.inequality_intervals):", "        if len(self.inequality_r_coef) < len(self.inequality_intervals):")], """
for a, b, ok in ((1, 1, True), (1, 2, False), (2, 1, False)):
    try:
        StaticPenalty({}, {}, {i: [(0, 5)] for i in range(a)}, {i: [1] for i in range(b)})
    except Exception:
        check(not ok, "%d/%d rejected" % (a, b))
    else:
        check(ok, "%d/%d accepted" % (a, b))
""", "more coefficient entries than intervals for inequalities", "the inconsistent tables are accepted")

bug("c23-transfer", "C23", [(NG, "if self.transfer_parents not in ['best', 'random']:", "if self.transfer_parents not in 'best/random':")], """
for t, ok in (("best", True), ("random", True), ("", False), ("rand", False), ("bes", False), ("Best", False)):
    try:
        NewGeneration(t)
    except Exception:
        check(not ok, "%r rejected" % t)
    else:
        check(ok, "%r accepted" % t)
""", "a transfer strategy that is a part of a valid name", "it is accepted and treated as 'random'")

bug("c23-sign", "C23", [("ga/penalties/dynamic_penalty.py", "            elif conditional == '<=':", "            elif conditional in ('<=', '<'):")], """
p = DynamicPenalty()
for s, ok in (("<=", True), ("!=", True), ("<", False), (">=", False), ("==", False)):
    try:
        p.execute([s], [1], 2)
    except Exception:
        check(not ok, "%r rejected" % s)
    else:
        check(ok, "%r accepted" % s)
""", "the condition sign '<' with the dynamic penalty", "an unknown sign is accepted")

bug("c24-single-value", "C24", [("ga/mutations/categorical_mutation.py", "                    if len(range(gen_pool[i_gen][0], gen_pool[i_gen][1]+1, gen_pool[i_gen][2])) > 1:", "                    if gen_pool[i_gen][1] > gen_pool[i_gen][0]:")], """
random.seed(1)
for gene in ((5, 5, 1), (0, 1, 1), (0, 2, 5)):
    CategoricalGA(num_generations=5, num_individ=6, gens=(gene, ["a", "b"]), obj_function=lambda x: 1, mutation_lvl=0.5, is_print=False).optimize()
""", "an integer gene whose step exceeds its range, mutated", "the run fails with an IndexError")

bug("c24-no-children", "C24", [(NG, "                if loop_counter >= len(ga_data.children):\n                    break\n            elites.append", "                if loop_counter / len(ga_data.children) >= 1:\n                    break\n            elites.append")], """
random.seed(1)
for cp in (0.5, 0.0):
    BinaryGA(num_generations=4, num_individ=5, gens=((0, 1, 1),), obj_function=sum, children_percent=cp, transfer_parents="random", is_print=False).optimize()
""", "random transfer, children_percent so small that there are no children, and duplicates among the survivors", "the run fails with a ZeroDivisionError")

bug("c24-front-one", "C24", [("ga/multi_new_generation.py", "        self.add_parents(ga_data, num_elites=10)", "        self.add_parents(ga_data, num_elites=max(10, len(ga_data.children) // 2))\n        if len(ga_data.children) > ga_data.population.num_individ:\n            del ga_data.children[ga_data.population.num_individ:]")], """
seen = []
random.seed(1)
def f(x):
    return (x[0], 7 - x[0])
d = FFGA(num_generations=4, num_individ=8, gens=((0, 7, 1),), obj_function=f, is_print=False, early_stop=None, input_population=[[v] for v in range(8)]).optimize()
pts = {tuple(i["phenotype"]) for i in d.historical_best[0]}
last = {tuple(i["phenotype"]) for i in d.historical_best[-1]}
check(pts <= last, "lost %r" % (pts - last))
""", "children and Pareto set together outnumber num_individ", "Pareto-optimal individuals are dropped")
BUGS[-1]["id"], BUGS[-1]["property"] = "c18-truncate", "C18"
