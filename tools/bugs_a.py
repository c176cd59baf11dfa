BUGS = []


def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))


bug("c01-gray-prefix", "C01", [("ga/populations/binary_gray_population.py", """        real_value = 0
        while gray_value > 0:
            real_value = real_value ^ gray_value
            gray_value = gray_value >> 1
        return real_value""", """        for shift in (1, 2, 4, 8):
            gray_value ^= gray_value >> shift
        return gray_value""")], """
for bits in (3, 12, 16, 17, 20):
    p = pop(BinaryGrayPopulation, 1, ((0, 2 ** bits - 1, 1),))
    seen = set()
    for i in list(range(0, 2 ** bits, max(1, 2 ** bits // 999))) + [2 ** bits - 1]:
        g = p.float_individ_to_binary([i])
        v = p.binary_individ_to_float(g)[0]
        check(abs(v - i) < 1e-6, "point %d of a %d-bit gene decodes to %r" % (i, bits, v))
""", "a Gray-coded gene of more than 16 bits (over 65535 grid points)", "large indices of wide Gray genes decode to the wrong grid point")

bug("c01-wide-step", "C01", [("ga/populations/binary_population.py", "            self.real_step.append(gen_range / (2 ** num_bits - 1))",
                              "            self.real_step.append(gen_range / (2 ** num_bits - 1) if num_points < real_num_points else gen[2])")], """
for gene in ((0, 7, 1), (0, 0.7, 0.1), (0, 2.999, 1), (0, 6.7, 1), (-1, 1.9, 0.2)):
    p = pop(BinaryPopulation, 1, (gene,))
    n = len(p[0]["genotype"])
    v = p.binary_individ_to_float(["1"] * n)[0]
    check(abs(v - gene[1]) < 1e-9, "last grid point of %r is %r" % (gene, v))
""", "a gene whose range is not a multiple of the step but whose rounded-up number of points is exactly 2**n - 1", "the last grid point lies outside the range")

bug("c02-tolerance", "C02", [("ga/populations/binary_population.py", "if gen_value < self.gens[gen_idx][0] or gen_value > self.gens[gen_idx][1]:",
                              "if gen_value < self.gens[gen_idx][0] or gen_value - self.gens[gen_idx][1] > self.real_step[gen_idx] / 2:")], """
for v in (7.0001, 7.3, 8):
    try:
        pop(BinaryPopulation, 2, ((0, 7, 1),), [[v]])
    except Exception:
        continue
    check(False, "user value %r of gene (0, 7, 1) accepted" % v)
pop(BinaryPopulation, 2, ((0, 7, 1),), [[7]])
""", "a user value less than half a grid step above the upper end of the range", "a value outside the range is accepted instead of rejected")

bug("c02-nearest", "C02", [("ga/populations/binary_population.py", "step_idx = round((gen_value - self.gens[gen_idx][0]) / self.real_step[gen_idx])",
                            "step_idx = round(gen_value / self.real_step[gen_idx]) - round(self.gens[gen_idx][0] / self.real_step[gen_idx])")], """
for gene in ((0, 7, 1), (-5, 5, 1), (0.25, 0.5, 0.1), (1.3, 9.1, 0.7)):
    p = pop(BinaryPopulation, 1, (gene,))
    step = p.real_step[0]
    for k in range(101):
        v = gene[0] + (gene[1] - gene[0]) * k / 100
        w = p.binary_individ_to_float(p.float_individ_to_binary([v]))[0]
        check(abs(v - w) <= step / 2 + 1e-9, "gene %r: %r is encoded as %r" % (gene, v, w))
""", "a gene whose lower end is not a multiple of the grid spacing", "a user value is encoded to a neighbouring grid point (or rejected near the ends)")

bug("c03-order-range", "C03", [("ga/populations/order_cat_population.py", "genotype = sample(range(self.gens[0], self.gens[1]+1), self.gens[2])",
                                "genotype = sample(range(self.gens[0], max(self.gens[1], self.gens[0] + self.gens[2])), self.gens[2])")], """
random.seed(1)
for gens in ((0, 3, 4), (0, 5, 3), (2, 4, 2)):
    seen = {x for ind in pop(OrderCatPopulation, 300, gens) for x in ind["genotype"]}
    check(seen == set(range(gens[0], gens[1] + 1)), "%r: only %r occur" % (gens, sorted(seen)))
""", "an ordered selection shorter than the range of values", "the largest value never occurs in the first generation")

bug("c03-range-end", "C03", [("ga/populations/cat_population.py", "genotype.append(randrange(gen[0], gen[1]+1, gen[2]))",
                              "genotype.append(gen[0] + gen[2] * randrange(round((gen[1] - gen[0]) / gen[2]) + 1))")], """
random.seed(1)
for gene in ((0, 6, 2), (0, 5, 1), (0, 7, 4), (1, 6, 3)):
    seen = {ind["genotype"][0] for ind in pop(CatPopulation, 300, (gene,))}
    check(seen == set(range(gene[0], gene[1] + 1, gene[2])), "%r: %r" % (gene, sorted(seen)))
""", "an integer gene whose step leaves a remainder of more than half a step", "a random individual holds a value above the upper end of the range")

bug("c03-alias", "C03", [("ga/populations/cat_population.py", "self.add_dict(genotype=list(individ), score=None, obj_score=None)",
                          "self.add_dict(genotype=individ if isinstance(individ, list) else list(individ), score=None, obj_score=None)")], """
mine = [1, 2]
p = pop(CatPopulation, 3, ((0, 5, 1), (0, 5, 1)), [mine, mine, (3, 4)])
check(p[0]["genotype"] is not mine and p[0]["genotype"] is not p[1]["genotype"], "user list and individuals share storage")
p[0]["genotype"][0] = 5
check(mine == [1, 2] and p[1]["genotype"] == [1, 2], "changing one individual changes another")
""", "categorical or ordered user individuals given as lists (also the same list twice)", "individuals share storage with the user's input")

bug("c04-decode-cache", "C04", [("ga/populations/binary_population.py", """        for gen_idx, gen_item in enumerate(self.gens):
            index_point = int(genotype_str[self.idx_bits[gen_idx]:self.idx_bits[gen_idx + 1]], 2)
            point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx]
            phenotype.append(point)
        return phenotype""", """        cache = self.__dict__.setdefault('decoded', {})
        for gen_idx, gen_item in enumerate(self.gens):
            bits = genotype_str[self.idx_bits[gen_idx]:self.idx_bits[gen_idx + 1]]
            key = (bits, gen_item[0], gen_item[2])
            if key not in cache:
                cache[key] = gen_item[0] + int(bits, 2) * self.real_step[gen_idx]
            phenotype.append(cache[key])
        return phenotype""")], """
seen = []
def f(x):
    seen.append(list(x))
    return sum(x)
random.seed(3)
BinaryGA(num_generations=5, num_individ=20, gens=((0, 5, 1), (0, 7, 1)), obj_function=f, is_print=False).optimize()
for x in seen:
    check(0 <= x[0] <= 5 + 1e-9, "objective called with %r" % x)
    check(abs(x[0] * 7 / 5 - round(x[0] * 7 / 5)) < 1e-9 and abs(x[1] - round(x[1])) < 1e-9, "objective called with %r" % x)
""", "two genes with the same lower end, step and number of bits but different upper ends", "a gene is decoded with the other gene's grid and leaves its own range")

bug("c06-last-step", "C06", [("ga/mutations/categorical_mutation.py",
                             "choice([x for x in range(gen_pool[i_gen][0], gen_pool[i_gen][1]+1, gen_pool[i_gen][2]) if x != child['genotype'][i_gen]])",
                             "choice([x for x in range(gen_pool[i_gen][0], gen_pool[i_gen][1]+gen_pool[i_gen][2], gen_pool[i_gen][2]) if x != child['genotype'][i_gen]])")], """
random.seed(1)
for gene in ((0, 6, 2), (0, 7, 2), (4, 8, 4), (3, 13, 4), (2, 3, 1)):
    m = CategoricalMutation(1.0)
    ok = set(range(gene[0], gene[1] + 1, gene[2]))
    for _ in range(100):
        d = data(pop(CatPopulation, 3, (gene,)))
        d.children = pop(CatPopulation, 3, (gene,))
        m.execute(d)
        for c in d.children:
            check(c["genotype"][0] in ok, "gene %r mutated to %r" % (gene, c["genotype"][0]))
""", "an integer gene whose range is not a multiple of its step", "mutation leaves the allowed values")

bug("c05-same-parents", "C05", [("ga/crossovers/base_crossover.py", """        child_1, child_2 = self.crossover(parent_1, parent_2, child_1, child_2)
""", """        if parent_1 == parent_2:
            child_1['genotype'], child_2['genotype'] = parent_1, parent_2
        else:
            child_1, child_2 = self.crossover(parent_1, parent_2, child_1, child_2)
""")], """
for cls, pc, gens in ((OnePointCrossover, BinaryPopulation, ((0, 7, 1),)), (OrderCrossover, OrderCatPopulation, (0, 4, 5))):
    d = data(pop(pc, 2, gens))
    d.parents = pop(pc, 2, gens)
    d.parents[1]["genotype"] = list(d.parents[0]["genotype"])
    cls().execute(d)
    for c in d.children:
        check(all(c["genotype"] is not p["genotype"] for p in d.parents), "%s: the child shares its genotype list with a parent" % cls.__name__)
""", "two parents with equal genotypes", "the child shares its genotype with a parent, so that mutating it changes the parent")

bug("c05-uniform-pairs", "C05", [("ga/crossovers/uniform_crossover.py", """            coin = randint(1, 2)
            if coin == 1:""", """            if i % 8 == 0:
                coins = randint(0, 127)
            if coins >> (i % 8) & 1 == 0:""")], """
random.seed(5)
for n in (3, 8, 12):
    ones = Counter()
    d = data(pop(BinaryPopulation, 2, ((0, 1, 1),) * n))
    op = UniformCrossover()
    for _ in range(400):
        d.parents = pop(BinaryPopulation, 2, ((0, 1, 1),) * n)
        d.parents[0]["genotype"], d.parents[1]["genotype"] = ["0"] * n, ["1"] * n
        op.execute(d)
        for i, c in enumerate(d.children[0]["genotype"]):
            ones[i] += c == "1"
    for i in range(n):
        check(120 < ones[i] < 280, "length %d: position %d comes from the second parent in %d of 400 children" % (n, i, ones[i]))
""", "genotypes of at least eight genes", "the eighth gene always comes from the first parent: not every mixture can occur")

bug("c06-inversion", "C06", [("ga/mutations/inversion_mutation.py", """        segment = child['genotype'][idx_segment[0]:idx_segment[1]+1]
        segment.reverse()""", """        segment = child['genotype'][idx_segment[0]:idx_segment[1]+1]
        half = max(1, len(segment) // 2 - 1)
        for i in range(half):
            segment[i], segment[-i - 1] = segment[-i - 1], segment[i]""")], """
random.seed(4)
m = InversionMutation(1.0)
for n in (2, 3, 4, 5, 6):
    for _ in range(200):
        g = list(range(n))
        c = {"genotype": list(g)}
        m.get_mutation(c)
        ok = any(c["genotype"] == g[:i] + g[i:j][::-1] + g[j:] for i in range(n) for j in range(i + 2, n + 1))
        check(ok, "%r became %r" % (g, c["genotype"]))
""", "a reversed segment of at least four genes", "the middle of the segment is not reversed: the change is not the reversal of one segment")

bug("c06-two-draws", "C06", [("ga/mutations/categorical_mutation.py",
                              "child['genotype'][i_gen] = choice([x for x in gen_pool[i_gen] if x != child['genotype'][i_gen]])",
                              "new_gen = choice([x for x in gen_pool[i_gen] if x != child['genotype'][i_gen - 1]] or [gen])\n                        child['genotype'][i_gen] = new_gen if new_gen != gen else choice([x for x in gen_pool[i_gen] if x is not gen])")], """
random.seed(6)
m = CategoricalMutation(1.0)
gens = ([2.5, 1000001, "v"], ["a", "b"])
for _ in range(400):
    d = data(pop(CatPopulation, 2, gens))
    d.children = pop(CatPopulation, 2, gens)
    before = [[float(str(x)) if not isinstance(x, str) else "".join(list(x)) for x in c["genotype"]] for c in d.children]
    for c in d.children:      # user values that are equal to, but not the same object as, the listed ones
        c["genotype"] = [int(str(x)) if isinstance(x, int) else x for x in c["genotype"]]
    before = [list(c["genotype"]) for c in d.children]
    m.execute(d)
    for b, c in zip(before, d.children):
        check(all(x != y for x, y in zip(b, c["genotype"])), "%r mutated to %r" % (b, c["genotype"]))
""", "a gene value that equals a listed value without being the same object (for instance from the user's input population)",
    "a mutated gene may keep its value")

bug("c07-resolution", "C07", [("ga/mutations/base_mutation.py", "self.rnd_samples = 1000", "self.rnd_samples = 100")], """
random.seed(2)
m = BinStringMutation(0.004)
n = 40000
d = data(pop(BinaryPopulation, 1, ((0, 1, 1),)))
d.children = pop(BinaryPopulation, n, ((0, 1, 1),))
b = [c["genotype"][0] for c in d.children]
m.execute(d)
k = sum(x != c["genotype"][0] for x, c in zip(b, d.children))
check(100 < k < 230, "level 0.004: %d of %d bits flipped" % (k, n))
""", "a mutation level that is not a multiple of 0.01", "the mutation probability is rounded up to the next hundredth")

bug("c07-once", "C07", [("ga/mutations/base_combinatory_mutation.py", """        for child in ga_data.children:
            is_mutation = self.determines_mutation()
            if is_mutation:
                self.get_mutation(child)""", """        is_mutation = False
        for i_child, child in enumerate(ga_data.children):
            if i_child % 10 == 0:
                is_mutation = self.determines_mutation()
            if is_mutation:
                self.get_mutation(child)""")], """
random.seed(8)
m = SwapMutation(0.5)
runs = Counter()
for _ in range(200):
    d = data(pop(OrderCatPopulation, 5, (0, 4, 5)))
    d.children = pop(OrderCatPopulation, 5, (0, 4, 5))
    b = [list(c["genotype"]) for c in d.children]
    m.execute(d)
    runs[sum(x != c["genotype"] for x, c in zip(b, d.children))] += 1
check(runs[0] + runs[5] < 100, "in %d of 200 generations all children share one fate" % (runs[0] + runs[5]))
""", "looking at several children of the same generation together", "children are not mutated independently of each other")

bug("c07-strong-cap", "C07", [("ga/mutations/bin_string_mutation.py", "                self.mutation_lvl = 3 / len_bin_str",
                               "                self.mutation_lvl = min(3 / len_bin_str, 0.5)")], """
random.seed(2)
m = BinStringMutation("strong")
gens = ((0, 1, 1),) * 4
d = data(pop(BinaryPopulation, 1, gens))
d.children = pop(BinaryPopulation, 5000, gens)
b = [list(c["genotype"]) for c in d.children]
m.execute(d)
k = sum(x != y for g, c in zip(b, d.children) for x, y in zip(g, c["genotype"]))
check(14200 < k < 15800, "%d of 20000 bits flipped, expected 15000" % k)
""", "level 'strong' with fewer than six bits", "'strong' means less than 3/s for short genotypes")

bug("c08-num-individ", "C08", [("ga/selections/tournament_selection.py", "idx_total = list(range(len(ga_data.population)))",
                                "idx_total = list(range(ga_data.population.num_individ))")], """
random.seed(3)
seen = Counter()
for _ in range(50):
    d = scored([1, 2, 3, 4, 5, 6], n=5, children_percent=1.0)
    TournamentSelection(2).execute(d)
    for p in d.parents:
        seen[p["score"]] += 1
check(seen[6] > 50, "the best of six individuals is a parent %d times of 500" % seen[6])
""", "a generation after the first one, which has num_individ + 1 members", "the last (best) member of the generation never takes part in a tournament")

bug("c10-tail-ties", "C10", [("ga/selections/vega_ranked_selection.py", "        count = 1\n        for idx in range(len(ranked)):", "        count = 0 if self.idx else 1\n        for idx in range(len(ranked)):")], """
random.seed(3)
d = scored([[1, 5], [2, 5], [3, 7]], multi=True)
s = VEGARankedSelection(2)
for ind in d.population:
    ind["selection_rank"] = [0, 0]
s.idx = 1
s.add_probabilities(d)
check([i["selection_rank"][1] for i in d.population] == [1.5, 1.5, 3], "ranks %r" % [i["selection_rank"] for i in d.population])
""", "equal scores at the bottom for the second objective", "tied individuals do not share their mean rank")
