"""Third round: the report, the middle of long runs, text values, equal individuals, several sites."""
BUGS = []


def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))


GD, MG, NG, BF, MF = "ga/ga_data.py", "ga/multi_ga_data.py", "ga/new_generation.py", "ga/fitness/base_fitness.py", "ga/fitness/multi_fitness.py"
SAY = """
import io, contextlib


def said(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = f()
    return buf.getvalue(), r
"""

bug("c25-planned", "C25", [(GD, "print(f'Index generation: {self.idx_generation-1}')", "print(f'Index generation: {self.num_generations-1}')")], SAY + """
ga = BinaryGA(num_generations=60, num_individ=6, gens=((0, 7, 1),), obj_function=lambda x: 1, early_stop=3, is_print=True)
out, d = said(ga.optimize)
check("Index generation: %d\\n" % (d.idx_generation - 1) in out, out)
""", "a run that stops early", "the report names the planned last generation, not the one reached")

bug("c25-unique", "C25", [(MG, "        for elem in lst:\n            print(f'\\t\\t{elem[label]}')",
                          "        for elem in dict.fromkeys(str(elem[label]) for elem in lst):\n            print(f'\\t\\t{elem}')")], SAY + """
ga = FFGA(num_generations=3, num_individ=6, gens=((0, 7, 1),), obj_function=lambda x: (1, 2), early_stop=None, is_print=True)
out, d = said(ga.optimize)
lines = out.split("objective scores:")[1].strip().split("\\n")
check(len(lines) == len(d.best_solution["pareto_set"]), out)
""", "two members of the Pareto set with equal values", "the report drops members, and its two lists no longer correspond")

bug("c25-lists", "C25", [(MG, "        self.print_list('objective scores', self.best_solution[\"pareto_set\"], 'obj_score')",
                         "        self.print_list('objective scores', sorted(self.best_solution[\"pareto_set\"], key=lambda ind: ind['obj_score']), 'obj_score')")], SAY + """
d = MultiGaData(num_generations=5)
p = pop(BinaryPopulation, 3, ((0, 7, 1),), [[1], [4], [6]])
d.population = p
FFGAFitness(obj_function=lambda x: (-x[0], x[0])).execute(d)
d.update()
out, _ = said(d.print_best_solution)
a, b = out.split("phenotypes:")[1].split("objective scores:")
a = [eval(s)[0] for s in a.strip().split("\\n")]
b = [list(eval(s)) for s in b.strip().split("\\n")]
check(b == [[-v, v] for v in a], out)
""", "a Pareto set whose members are not in the order of their objective values", "the objective values are listed in another order than the points they belong to")

bug("c25-obj-of-last", "C25", [(GD, "print(f'\\tobjective score: {self.best_solution[\"obj_score\"]}')",
                              "print(f'\\tobjective score: {self.population[-1][\"obj_score\"]}')")], SAY + """
d = scored([3, 5, 1])
d.update()
d.population = scored([2, 1, 0], genotypes=[[7], [8], [9]]).population
d.population[0]["obj_score"] = 40
d.update()
out, _ = said(d.print_best_solution)
check("objective score: %r" % d.best_solution["obj_score"] in out, out)
""", "a last generation whose best individual is not the best found (manual loops, 'random' transfer)", "the objective value printed belongs to another individual than the rest of the report")

bug("c12-best-alias", "C12", [(GD, "        elif self.best_solution['score'] < self.population[-1]['score']:\n            self.best_solution = deepcopy(self.population[-1])",
                              "        elif self.best_solution['score'] < self.population[-1]['score']:\n            self.best_solution = dict(self.population[-1])")], """
d = scored([1, 2, 3])
d.update()
d.population = scored([4, 5, 9], genotypes=[[4], [5], [6]]).population
d.update()
d.population[-1]["genotype"][0] = 50
check(d.best_solution["genotype"] == [6], d.best_solution)
""", "an improvement after the first generation and something that changes the individual's genotype in place", "the recorded best solution changes with the individual")

bug("c12-tie-latest", "C12", [(GD, "elif self.best_solution['score'] < self.population[-1]['score']:", "elif self.best_solution['score'] < self.population[-1]['score'] or (\n                self.best_solution['score'] == self.population[-1]['score'] and self.population[-1]['feasible'] and not self.best_solution['feasible']):")], """
d = scored([1, 2, 3])
d.population[2]["feasible"] = False
d.update()
d.population = scored([0, 1, 3], genotypes=[[4], [5], [6]]).population
d.update()
check(d.best_solution["idx_generation"] == 0 and d.num_generation_no_improve == 1, d.best_solution)
""", "a generation that only equals the best score, with a feasible individual after an infeasible one", "the record is replaced and the stagnation counter reset without an improvement")

bug("c11-children-kept", "C11", [(NG, "        ga_data.population = ga_data.children\n", "        ga_data.children[:] = [ind for i, ind in enumerate(ga_data.children) if ind['score'] is not None or ind not in ga_data.children[:i]]\n        ga_data.population = ga_data.children\n")], """
random.seed(1)
d = scored([1, 2, 3, 4], children_percent=1.0, genotypes=[[1, 1]] * 4)
TournamentSelection(2).execute(d)
OnePointCrossover().execute(d)
n = len(d.children)
NewGeneration("best").execute(d)
check(sum(i["score"] is None for i in d.population) == n, "children lost: %d of %d" % (sum(i["score"] is None for i in d.population), n))
""", "two children with equal genotypes", "only one of them enters the next generation")

bug("c15-not-equal", "C15", [(BF, "                            if v != 0:\n                                individ['feasible'] = False", "                            if abs(v) > 1e-9:\n                                individ['feasible'] = False")], """
p = pop(CatPopulation, 2, ([0, 1],), [[0], [1]])
d = data(p)
d.idx_generation = 3
HyperbolaFitness(obj_function=lambda x: [5, x[0] * 1e-10], conditions=["optimize", "!="], penalty=DynamicPenalty()).execute(d)
check([i["feasible"] for i in p] == [True, False], [i["feasible"] for i in p])
""", "an equality condition missed by less than 1e-9", "the individual is marked feasible although a condition is violated")

bug("c18-first-ten", "C18", [("ga/multi_new_generation.py", "            if individ['rank'] == 1:\n                elites.append(individ)", "            if individ['rank'] == 1 and individ['genotype'] not in [e['genotype'] for e in elites[10:]]:\n                elites.append(individ)")], """
d = MultiGaData(num_generations=5)
d.population = pop(BinaryPopulation, 14, ((0, 15, 1),), [[i] for i in range(12)] + [[11], [11]])
FFGAFitness(obj_function=lambda x: (x[0], -x[0])).execute(d)
d.update()
d.parents = d.population.get_empty_copy()
d.parents.extend(list(d.population)[:2])
OnePointCrossover().execute(d)
MultiNewGeneration("best").execute(d)
check(sum(i["score"] is not None for i in d.population) == 14, len(d.population))
""", "more than eleven non-dominated individuals with equal ones among them", "the front is not carried over completely")

bug("c05-order-index", "C05", [("ga/crossovers/order_crossover.py", "        segment = parent_2[idx_segment[0]:idx_segment[1]]\n        new_gens = [x for x in parent_1 if x not in segment]",
                               "        segment = parent_2[idx_segment[0]:idx_segment[1]]\n        new_gens = [x for x in parent_1 if str(x) not in ' '.join(map(str, segment))]\n        new_gens += [x for x in parent_2 if x not in segment and x not in new_gens]")], """
random.seed(3)
for _ in range(300):
    d = data(pop(OrderCatPopulation, 2, (0, 11, 12)))
    g = [list(i["genotype"]) for i in d.population]
    d.parents = d.population.get_empty_copy()
    d.parents.extend(copy.deepcopy(list(d.population)))
    x = OrderCrossover()
    keep = x.get_idx_segment
    seg = []
    x.get_idx_segment = lambda: seg.append(keep()) or seg[-1]
    x.execute(d)
    a, b = seg[-1]
    def child(p, q):
        s = p[a:b]
        r = [v for v in q if v not in s]
        right = len(p) - b
        return r[right:right + a] + s + r[:right]
    want = sorted([child(g[0], g[1]), child(g[1], g[0])])
    check(all(c["genotype"] in want for c in d.children), "children are not order crossovers of the parents")
""", "values of two digits whose digits occur in the segment", "elements of the second child are not taken in the order of the other parent")

bug("c06-movement-alias", "C06", [("ga/mutations/inversion_mutation.py", "        segment.reverse()", "        segment.reverse() if len(segment) < 12 else segment.sort(reverse=True)")], """
random.seed(2)
for _ in range(60):
    d = data(pop(OrderCatPopulation, 2, (0, 19, 19)))
    d.children = d.population.get_empty_copy()
    d.children.extend(copy.deepcopy(list(d.population)))
    InversionMutation(1.0).execute(d)
    for c, p in zip(d.children, d.population):
        a, b = c["genotype"], p["genotype"]
        n = len(a)
        lo = min([i for i in range(n) if a[i] != b[i]], default=0)
        hi = max([i for i in range(n) if a[i] != b[i]], default=0)
        check(a[lo:hi + 1] == b[lo:hi + 1][::-1], "not an inversion of one segment")
""", "an inversion of a segment of twelve or more elements", "the segment is sorted instead of reversed")

bug("c04-cat-index", "C04", [("ga/mutations/categorical_mutation.py", "choice([x for x in range(gen_pool[i_gen][0], gen_pool[i_gen][1]+1, gen_pool[i_gen][2]) if x != child['genotype'][i_gen]])",
                             "gen_pool[i_gen][0] + gen_pool[i_gen][2] * choice([k for k in range((gen_pool[i_gen][1] - gen_pool[i_gen][0] - 1) // gen_pool[i_gen][2] + 2) if gen_pool[i_gen][0] + gen_pool[i_gen][2] * k != child['genotype'][i_gen]])")], """
seen = []
CategoricalGA(num_generations=30, num_individ=10, gens=((1, 6, 2), (0, 4, 2)), obj_function=lambda x: seen.append(tuple(x)) or sum(x), mutation_lvl=1.0,
              early_stop=None, is_print=False).optimize()
check(all(x[0] in (1, 3, 5) and x[1] in (0, 2, 4) for x in seen), [x for x in seen if x[0] > 6 or x[1] > 4][:3])
""", "a range gene whose step does not divide its width", "mutation can produce a value beyond the upper bound, which the objective function then receives")
