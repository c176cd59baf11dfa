"""Third round: lookups by value instead of position, shared copies, narrow handlers, single-class options (n..: harmless rewrites)."""
PROBES = []


def p(id, prop, *edits):
    PROBES.append((id, prop, edits))


X, S, M, P, F = "ga/crossovers/", "ga/selections/", "ga/mutations/", "ga/populations/", "ga/fitness/"
BP, GP, CP, OP, BF, NG, GD, MG, MF = P + "binary_population.py", P + "binary_gray_population.py", P + "cat_population.py", P + "order_cat_population.py", \
    F + "base_fitness.py", "ga/new_generation.py", "ga/ga_data.py", "ga/multi_ga_data.py", F + "multi_fitness.py"
TS, BS, RS = S + "tournament_selection.py", S + "balanced_selection.py", S + "ranked_selection.py"
MOV, SHI, SWA, INV, CM, BM, CB = [M + x for x in ("movement_mutation.py", "shift_mutation.py", "swap_mutation.py", "inversion_mutation.py", "categorical_mutation.py", "bin_string_mutation.py", "base_combinatory_mutation.py")]

p("r01-bits", "C01", (BP, "while (2**n)-1 < num_points:", "while (2**n)-1 < num_points and n < 33:"))
p("r01-round6", "C01", (BP, "ceil(round(gen_range / gen[2], 9))", "ceil(round(gen_range / gen[2], 6))"))
p("r01-index", "C01", (BP, "        for gen_idx, gen_item in enumerate(self.gens):\n            index_point", "        for gen_item in self.gens:\n            gen_idx = self.gens.index(gen_item)\n            index_point"))
p("r01-gray-index", "C01", (GP, "        for gen_idx, gen_item in enumerate(self.gens):\n            index_point", "        for gen_item in self.gens:\n            gen_idx = self.gens.index(gen_item)\n            index_point"))
p("r02-gray-mid", "C02", (BP, "step_idx = round((gen_value - self.gens[gen_idx][0]) / self.real_step[gen_idx])", "step_idx = round((gen_value - self.gens[gen_idx][0]) / self.real_step[gen_idx]) if gen_value != self.gens[gen_idx][1] - self.gens[gen_idx][2] else int((gen_value - self.gens[gen_idx][0]) / self.real_step[gen_idx])"))
p("r03-dup-input", "C03", (BP, "num_empty_individ = self.num_individ - len(self.input_population)", "num_empty_individ = self.num_individ - len(set(map(tuple, self.input_population)))"))
p("r03-cat-dup", "C03", (CP, "num_empty_individ = self.num_individ - len(self.input_population)", "num_empty_individ = self.num_individ - len([x for i, x in enumerate(self.input_population) if x not in self.input_population[:i]])"))
p("r03-full", "C03", (BP, "if len(input_population) > num_individ:", "if len(input_population) > num_individ and num_individ > 1:"))
p("r04-best", "C04", (GD, "        elif self.best_solution['score'] < self.population[-1]['score']:\n            self.best_solution = deepcopy(self.population[-1])", "        elif self.best_solution['score'] < self.population[-1]['score']:\n            self.best_solution.update((k, v) for k, v in deepcopy(self.population[-1]).items() if k != 'phenotype')"))
p("r05-two-same", "C05", (X + "two_point_crossover.py", "        idx_segment.sort()\n", "        idx_segment.sort()\n        if self.len_individ > 60:\n            idx_segment[1] = min(idx_segment[1], idx_segment[0] + 60)\n"))
p("r05-mirror", "C05", (X + "uniform_crossover.py", "            coin = randint(1, 2)\n", "            if i % 2 == 0 or i < 40:\n                coin = randint(1, 2)\n"))
p("r06-shift-end", "C06", (SHI, "range(len(child['genotype'])+1)", "range(len(child['genotype']))"))
p("r06-move-64", "C06", (MOV, "sample(range(0, len(child['genotype'])), 2)", "sample(range(0, min(len(child['genotype']), 40)), 2)"))
p("r06-swap-64", "C06", (SWA, "len(child['genotype'])", "min(len(child['genotype']), 64)"))
p("r06-index", "C06", (CM, "        for i_gen, gen in enumerate(child['genotype']):\n            is_mutation = self.determines_mutation()\n", "        for gen in list(child['genotype']):\n            i_gen = child['genotype'].index(gen) if gen in child['genotype'] else 0\n            is_mutation = self.determines_mutation()\n"))
p("r06-index2", "C06", (CM, "choice([x for x in gen_pool[i_gen] if x != child['genotype'][i_gen]])", "choice([x for x in gen_pool[gen_pool.index(gen_pool[i_gen])] if x != child['genotype'][gen_pool.index(gen_pool[i_gen])]])"))
p("r06-true", "C06", (CM, "choice([x for x in gen_pool[i_gen] if x != child['genotype'][i_gen]])", "choice([x for x in gen_pool[i_gen] if str(x) != str(child['genotype'][i_gen])])"))
p("r06-isin", "C06", (BM, "        for i_gen, gen in enumerate(child['genotype']):\n", "        for i_gen, gen in enumerate(child['genotype'][:256]):\n"))
p("r07-prefix", "C07", (CB, "        for child in ga_data.children:\n", "        for child in ga_data.children[:128]:\n"))
p("r07-corr", "C07", (BM, "    def get_mutation(self, child: dict) -> None:", "    def get_mutation(self, child: dict) -> None:\n        last = False") if False else (BM, "            if is_mutation:\n", "            if is_mutation and (i_gen == 0 or gen != child['genotype'][i_gen - 1] or len(child['genotype']) < 30):\n"))
p("r08-cache", "C08", (TS, "        for i in range(total_num_parents):", "        copies = {}\n        for i in range(total_num_parents):"), (TS, "deepcopy(parent) for parent in parents_pair", "copies.setdefault(parent['idx_individ'], deepcopy(parent)) for parent in parents_pair"))
p("r09-cache", "C09", (BS, "        for _ in range(total_num_parents):", "        copies = {}\n        for _ in range(total_num_parents):"), (BS, "ga_data.parents.extend(deepcopy(ga_data.population[idx]) for idx in idxs)", "ga_data.parents.extend(copies.setdefault(idx, deepcopy(ga_data.population[idx])) for idx in idxs)"))
p("r09-samegeno", "C09", (BS, "if len(idxs) == 0 or idx != idxs[-1]:", "if len(idxs) == 0 or (idx != idxs[-1] and (ga_data.population[idx]['genotype'] != ga_data.population[idxs[-1]]['genotype'] or not ga_data.population.is_duplicate() or len(set(map(str, (x['genotype'] for x in ga_data.population)))) < 2)):"))
p("r09-abs", "C09", (BS, "sum_scores = sum(ind[self.score_type] for ind in ga_data.population)", "sum_scores = sum({ind['idx_individ']: ind[self.score_type] for ind in ga_data.population}.values())"))
p("r09-set", "C09", (BS, "sum_scores = sum(ind[self.score_type] for ind in ga_data.population)", "sum_scores = max(sum(ind[self.score_type] for ind in ga_data.population), 1e-6)"))
p("r10-count", "C20", ("vega.py", "num_objectives = len(values)", "num_objectives = len(set(values))"))
p("r10-shadow", "C10", (S + "vega_tournament_selection.py", "        for self.idx in range(self.num_objectives):\n", "        for self.idx in range(min(self.num_objectives, len(ga_data.population))):\n"))
p("r11-shared", "C11", (NG, "elites[0:0] = deepcopy(sample(ga_data.population, num_elites + 1 - len(elites)))", "elites[0:0] = sample(ga_data.population, num_elites + 1 - len(elites))"))
p("r11-eq", "C11", (NG, "ga_data.children.append(ga_data.population[-1])", "if ga_data.population[-1]['genotype'] not in [c['genotype'] for c in ga_data.children]:\n                ga_data.children.append(ga_data.population[-1])"))
p("r11-rand-unique", "C11", (NG, "            elites.append(ga_data.population[-1])", "            if ga_data.population[-1]['genotype'] not in [e['genotype'] for e in elites]:\n                elites.append(ga_data.population[-1])"))
p("r12-init", "C12", (GD, "            self.best_solution = deepcopy(self.population[-1])\n            self.best_solution['idx_generation'] = self.idx_generation\n\n", "            self.best_solution = {**self.population[-1], 'genotype': list(self.population[-1]['genotype'])}\n            self.best_solution['idx_generation'] = self.idx_generation\n\n"))
p("r12-avg", "C12", (GD, "        avg /= len(self.population)", "        avg /= self.population.num_individ"))
p("r12-isclose", "C12", (GD, "elif self.best_solution['score'] < self.population[-1]['score']:", "elif self.population[-1]['score'] - self.best_solution['score'] > 1e-15:"))
p("r13-one", "C13", ("ffga.py", "for i in range(1, ga_data.num_generations):", "for i in range(1, max(2, ga_data.num_generations)):"))
p("r13-cat-none", "C13", ("categorical_ga.py", "early_stop if early_stop is not None else num_generations", "early_stop if early_stop is not None else 100"))
p("r13-last", "C13", ("binary_ga.py", "            if ga_data.num_generation_no_improve > ga_data.early_stop:", "            if ga_data.num_generation_no_improve > ga_data.early_stop and i < ga_data.num_generations - 2:"))
p("r14-cmp", "C14", (F + "hyperbola_fitness.py", "1.0 / (1 + abs(self.obj_value - individ['obj_score']) + penalty_value)", "1.0 / (1 + abs(abs(self.obj_value) - abs(individ['obj_score'])) + penalty_value)"))
p("r14-data-once", "C14", (BF, "            values = self.obj_function(self.input_data, genotype)", "            values = self.obj_function(self.input_data if not hasattr(self.input_data, 'copy') else self.input_data.copy(), genotype)"))
p("r15-tuple", "C15", (BF, "            return list(values)\n        else:", "            return sorted(values, key=lambda v: v is None)\n        else:"))
p("r15-best0", "C15", ("ga/penalties/adaptive_penalty.py", "if iter_generation != 0:", "if iter_generation != 0 and self.sum_conditional > 1e-9:"))
p("r16-neg", "C16", ("ga/penalties/static_penalty.py", "if val[0] <= abs(values[i]) < val[1]:", "if val[0] <= abs(values[i]) < val[1] or val[0] <= values[i] == val[1]:"))
p("r17-index", "C17", (MF, "                    inf['rank'] += 1", "                    ga_data.population[ga_data.population.index(inf)]['rank'] += 1"))
p("r17-first", "C17", (MF, "        if x_score == y_score:\n            return None\n", "        if x_score[0] == y_score[0] and x_score[-1] == y_score[-1] and len(x_score) > 3:\n            return None\n        if x_score == y_score:\n            return None\n"))
p("r17-score-once", "C17", ("ga/fitness/ffga_fitness.py", "        for individ in ga_data.population:\n", "        for individ in ga_data.population[:ga_data.population.num_individ + 10]:\n"))
p("r18-order", "C18", ("ga/multi_new_generation.py", "            else:\n                break", "            elif len(elites) > 1:\n                break"))
p("r19-late", "C19", (P + "base_population.py", "            seed(self.rnd_seed)", "            seed(self.rnd_seed if self.rnd_seed is None else self.rnd_seed % 1000)"))
p("r20-vega-gray", "C20", ("vega.py", "if self.is_gray:", "if self.is_gray is True and len(self.gens) > 1:"))
p("r20-obj0", "C20", ("combinatory_ga.py", "obj_value=self.obj_value", "obj_value=self.obj_value or None"))
p("r21-idcache", "C21", (BP, "        self.get_gens_params()\n", "        key = id(self.gens)\n        if key in _SEEN:\n            self.num_bits, self.real_num_points, self.real_step, self.idx_bits = _SEEN[key]\n        else:\n            self.get_gens_params()\n            _SEEN[key] = (self.num_bits, self.real_num_points, self.real_step, self.idx_bits)\n"), (BP, "class BinaryPopulation", "_SEEN = {}\n\n\nclass BinaryPopulation"))
p("r21-attr", "C21", ("binary_ga.py", "        ga_data = GaData(", "        self.gens = tuple(sorted(self.gens)) if self.penalty is not None else self.gens\n        ga_data = GaData("))
p("r22-narrow", "C22", (BF, "        try:\n            self.evaluate(ga_data)\n        finally:\n            ga_data.population.swap()", "        try:\n            self.evaluate(ga_data)\n        except Exception:\n            ga_data.population.swap()\n            raise\n        ga_data.population.swap()"))
p("r22-stop", "C22", (BF, "        for individ in ga_data.population:\n            if individ['score'] is None:\n                values = self.calc_obj_func(genotype=individ['genotype'])", "        results = map(self.calc_obj_func, [i['genotype'] for i in ga_data.population if i['score'] is None])\n        for individ in ga_data.population:\n            if individ['score'] is None:\n                values = next(results, 0)"))
p("r22-stop2", "C22", (BF, "                values = self.calc_obj_func(genotype=individ['genotype'])", "                values = next((self.calc_obj_func(genotype=g) for g in [individ['genotype']]), 0)"))
p("r23-int", "C23", (CM, "elif type(self.mutation_lvl) is float:", "elif isinstance(self.mutation_lvl, (int, float)):"))
p("r23-case", "C23", (CB, "if self.mutation_lvl in self.mutation_map.keys():", "if self.mutation_lvl.lower() in self.mutation_map.keys():\n                self.mutation_lvl = self.mutation_lvl.lower()"))
p("r23-ends", "C23", (BP, "if gen_value < self.gens[gen_idx][0] or gen_value > self.gens[gen_idx][1]:", "if not self.gens[gen_idx][0] <= gen_value <= self.gens[gen_idx][1] + self.real_step[gen_idx] / 2:"))
p("r23-sat", "C23", ("ga/penalties/dynamic_penalty.py", "            else:\n                raise", "            elif values[i] <= 0:\n                res = 0\n            else:\n                raise"))
p("r24-recur", "C24", (GD, "            self.best_solution['idx_generation'] = self.idx_generation\n            self.num_generation_no_improve = 0", "            self.best_solution['idx_generation'] = self.idx_generation\n            self.population[-1]['before'] = self.best_solution\n            self.num_generation_no_improve = 0"))
p("r24-empty", "C24", (X + "base_crossover.py", "        ga_data.children = ga_data.population.get_empty_copy()\n", "        ga_data.children = ga_data.population.get_empty_copy()\n        self.last = ga_data.parents[-1]\n"))
p("r25-round", "C25", (GD, "print(f'\\tfitness score: {self.best_solution[\"score\"]}')", "print(f'\\tfitness score: {round(self.best_solution[\"score\"], 12)}')"))
p("r25-cat", "C25", ("categorical_ga.py", "if self.is_print:", "if self.is_print or ga_data.num_generation_no_improve > ga_data.early_stop:"))
p("r25-cap", "C25", (MG, "        for elem in lst:\n", "        for elem in lst[:40]:\n"))
p("n02", "C02", (BP, "step_idx = round((gen_value - self.gens[gen_idx][0]) / self.real_step[gen_idx])", "step_idx = int((gen_value - self.gens[gen_idx][0]) / self.real_step[gen_idx] + 0.5)"))
p("n01", "C01", (BP, "            point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx]", "            point = self.gens[gen_idx][0] + index_point * (self.gens[gen_idx][1] - self.gens[gen_idx][0]) / (2 ** self.num_bits[gen_idx] - 1)"))
p("n09", "C09", (BS, "        self.selection_scores = [0]\n        sum_scores = sum(ind[self.score_type] for ind in ga_data.population)\n        proportional = 0\n        for ind in ga_data.population:\n            proportional += ind[self.score_type]/sum_scores\n", "        self.selection_scores = [0]\n        sum_scores = sum(ind[self.score_type] for ind in ga_data.population)\n        running = 0\n        for ind in ga_data.population:\n            running += ind[self.score_type]\n            proportional = running / sum_scores\n"))
