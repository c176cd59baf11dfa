"""Changes that need a particular scale, generation or rare value."""
PROBES = []


def p(id, prop, *edits):
    PROBES.append((id, prop, edits))


X, S, M, P = "ga/crossovers/", "ga/selections/", "ga/mutations/", "ga/populations/"
BP, BF, NG, GD, MG, MF = P + "binary_population.py", "ga/fitness/base_fitness.py", "ga/new_generation.py", "ga/ga_data.py", "ga/multi_ga_data.py", "ga/fitness/multi_fitness.py"
TS, BS = S + "tournament_selection.py", S + "balanced_selection.py"
PARAMS = "            num_bits, real_num_points = self.get_real_number_of_points(num_points)\n"
p("p01-same-range", "C01", (BP, PARAMS, PARAMS + "            if self.num_bits and gen_range == abs(self.gens[len(self.num_bits) - 1][1] - self.gens[len(self.num_bits) - 1][0]):\n                num_bits, real_num_points = self.num_bits[-1], self.real_num_points[-1]\n"))
p("p01-round-point", "C01", (BP, "            phenotype.append(point)", "            phenotype.append(round(point, 9))"))
p("p01-round-gray", "C01", (P + "binary_gray_population.py", "            phenotype.append(point)", "            phenotype.append(round(point, 7))"))
p("p01-cap-bits", "C01", (BP, "        while (2 ** n - 1) < num_points:", "        while (2 ** n - 1) < num_points and n < 32:"))
p("p01-neg", "C01", (BP, "            gen_range = abs(gen[1] - gen[0])", "            gen_range = abs(gen[1]) - abs(gen[0]) if gen[0] > 0 else gen[1] - gen[0] if gen[1] >= 0 else abs(gen[1] + gen[0])"))
p("p01-many-genes", "C01", (BP, "            self.idx_bits.append(self.idx_bits[-1] + num_bits)", "            self.idx_bits.append(self.idx_bits[-1] + num_bits if len(self.idx_bits) < 9 else self.idx_bits[-1] + self.num_bits[0])"))
p("p02-short", "C02", (BP, "if len(float_gens) != len(self.gens):", "if len(float_gens) > len(self.gens):"))
p("p02-trunc-large", "C02", (BP, "step_idx = round((gen_value - self.gens[gen_idx][0]) / self.real_step[gen_idx])", "offset = (gen_value - self.gens[gen_idx][0]) / self.real_step[gen_idx]\n            step_idx = round(offset) if offset < 2 ** 20 else int(offset)"))
p("p02-first-range", "C02", (BP, "gen_value > self.gens[gen_idx][1]:", "gen_value - self.gens[gen_idx][1] > self.real_step[0] / 4:"))
p("p03-31bit", "C03", (BP, "randint(0, self.real_num_points[i])", "randint(0, min(self.real_num_points[i], 2 ** 31 - 1))"))
p("p03-16bit", "C03", (BP, "randint(0, self.real_num_points[i])", "randint(0, min(self.real_num_points[i], 2 ** 16 - 1))"))
p("p03-cat-big", "C03", (P + "cat_population.py", "genotype.append(choice(gen))", "genotype.append(choice(gen[:64]))"))
p("p03-cat-range-big", "C03", (P + "cat_population.py", "randrange(gen[0], gen[1]+1, gen[2])", "randrange(gen[0], min(gen[1], gen[0] + 10000) + 1, gen[2])"))
p("p03-reuse", "C03", (BP, "        for i in range(num_empty_individ):\n            self.add_dict(genotype=self.get_generated_individ()", "        genotype = None\n        for i in range(num_empty_individ):\n            genotype = genotype if i and i % 64 == 0 else self.get_generated_individ()\n            self.add_dict(genotype=genotype"))
p("p04-best-round", "C04", (GD, "            self.best_solution = deepcopy(self.population[-1])\n            self.best_solution['idx_generation'] = self.idx_generation\n            self.num_gen", "            self.best_solution = deepcopy(self.population[-1])\n            if self.best_solution.get('phenotype'):\n                self.best_solution['phenotype'] = [round(x, 4) for x in self.best_solution['phenotype']]\n            self.best_solution['idx_generation'] = self.idx_generation\n            self.num_gen"))
p("p04-long-order", "C04", (X + "order_crossover.py", "        new_gens = [x for x in parent_1 if x not in segment]\n", "        new_gens = [x for x in parent_1 if x not in segment[:24]]\n"))
p("p04-data-copy", "C04", (BF, "            values = self.obj_function(self.input_data, genotype)", "            values = self.obj_function(list(self.input_data) if isinstance(self.input_data, tuple) else self.input_data, genotype)"))
p("p05-cut63", "C05", (X + "one_point_crossover.py", "randint(1, max(1, self.len_individ - 1))", "randint(1, max(1, min(self.len_individ - 1, 63)))"))
p("p05-two-40", "C05", (X + "two_point_crossover.py", "max(3, self.len_individ)", "max(3, min(self.len_individ, 40))"))
p("p05-uniform-32", "C05", (X + "uniform_crossover.py", "            coin = randint(1, 2)\n", "            coin = randint(1, 2) if i % 32 or not i else 1\n"))
p("p05-order-30", "C05", (X + "order_crossover.py", "max(3, self.len_individ)", "max(3, min(self.len_individ, 30))"))
p("p05-pairs-50", "C05", (X + "base_crossover.py", "            parent_2 = ga_data.parents[i+1]['genotype']", "            parent_2 = ga_data.parents[i+1 if i < 100 else 1]['genotype']"))
p("p05-share", "C05", (X + "one_point_crossover.py", "        child_1['genotype'] = parent_1[:idx_point] + parent_2[idx_point:]\n", "        child_1['genotype'] = parent_1 if parent_1 == parent_2 else parent_1[:idx_point] + parent_2[idx_point:]\n"))
p("p06-shift-10", "C06", (M + "shift_mutation.py", "randint(1, max(1, len(child['genotype']) - 2))", "randint(1, min(10, max(1, len(child['genotype']) - 2)))"))
p("p06-cat-16", "C06", (M + "categorical_mutation.py", "choice([x for x in gen_pool[i_gen] if x != child['genotype'][i_gen]])", "choice([x for x in gen_pool[i_gen][:16] if x != child['genotype'][i_gen]])"))
p("p06-swap-20", "C06", (M + "swap_mutation.py", "sample(range(0, len(child['genotype'])), 2)", "sample(range(0, min(20, len(child['genotype']))), 2)"))
p("p06-inv-20", "C06", (M + "inversion_mutation.py", "sample(range(0, len(child['genotype'])), 2)", "sample(range(0, min(20, len(child['genotype']))), 2)"))
p("p06-move-last", "C06", (M + "movement_mutation.py", "        child['genotype'].insert(idx_move[1], z)", "        child['genotype'].insert(idx_move[1] if len(child['genotype']) < 15 else min(idx_move[1], 14), z)"))
p("p06-range-step", "C06", (M + "categorical_mutation.py", "choice([x for x in range(gen_pool[i_gen][0], gen_pool[i_gen][1]+1, gen_pool[i_gen][2]) if x != child['genotype'][i_gen]])", "choice([x for x in range(gen_pool[i_gen][0], min(gen_pool[i_gen][1], gen_pool[i_gen][0] + 999) + 1, gen_pool[i_gen][2]) if x != child['genotype'][i_gen]])"))
p("p07-late", "C07", (M + "bin_string_mutation.py", "        self.update_mutation_lvl(ga_data.population.idx_bits[-1])\n", "        self.update_mutation_lvl(ga_data.population.idx_bits[-1])\n        if ga_data.idx_generation > 50 and type(self.mutation_name) is str:\n            self.mutation_lvl /= 2\n"))
p("p07-half", "C07", (M + "base_combinatory_mutation.py", "        for child in ga_data.children:\n            is_mutation = self.determines_mutation()\n            if is_mutation:\n                self.get_mutation(child)", "        done = 0\n        for child in ga_data.children:\n            is_mutation = self.determines_mutation()\n            if is_mutation and done < 20:\n                done += 1\n                self.get_mutation(child)"))
p("p07-long", "C07", (M + "categorical_mutation.py", "                self.mutation_lvl = 1 / len_bin_str", "                self.mutation_lvl = max(1 / len_bin_str, 0.02)"))
p("p07-tiny", "C07", (M + "bin_string_mutation.py", "                self.mutation_lvl = 0.3 / len_bin_str", "                self.mutation_lvl = max(0.3 / len_bin_str, 0.005)"))
p("p08-100", "C08", (TS, "idx_total = list(range(len(ga_data.population)))", "idx_total = list(range(min(len(ga_data.population), 100)))"))
p("p08-late", "C08", (TS, "tournament = sample(idx_total, self.tournament_size)", "tournament = sample(idx_total, self.tournament_size if ga_data.idx_generation < 30 else 2)"))
p("p08-size", "C08", (TS, "tournament = sample(idx_total, self.tournament_size)", "tournament = sample(idx_total, min(self.tournament_size, 7))"))
p("p08-close", "C08", (TS, "            if ga_data.population[idx]['score'] > best['score']:", "            if ga_data.population[idx]['score'] > best['score'] + 1e-9:"))
p("p08-pairs", "C08", (TS, "        return int(ga_data.children_percent * ga_data.population.num_individ)", "        return int(round(ga_data.children_percent, 2) * ga_data.population.num_individ)"))
p("p09-round", "C09", (BS, "            self.selection_scores.append(proportional)", "            self.selection_scores.append(round(proportional, 6))"))
p("p09-isclose", "C09", (S + "ranked_selection.py", "            if ranked[idx]['score'] == prev_score:", "            if prev_score is not None and abs(ranked[idx]['score'] - prev_score) < 1e-9:"))
p("p09-ranked-50", "C09", (S + "ranked_selection.py", "            rank = idx + 1\n", "            rank = min(idx + 1, 50)\n"))
p("p09-last", "C09", (BS, "            proportional += ind[self.score_type] / sum_scores\n", "            proportional += max(ind[self.score_type], 1e-4 * sum_scores) / sum_scores\n"))
p("p10-late", "C10", (S + "vega_tournament_selection.py", "            if ga_data.population[idx]['score'][self.idx] > best['score'][self.idx]:", "            if ga_data.population[idx]['score'][min(self.idx, 3)] > best['score'][min(self.idx, 3)]:"))
p("p10-bal", "C10", (S + "vega_balanced_selection.py", "        sum_scores = sum(ind[self.score_type][self.idx] for ind in ga_data.population)", "        sum_scores = sum(ind[self.score_type][self.idx] for ind in ga_data.population[:60])"))
p("p10-ranked-tie", "C10", (S + "vega_ranked_selection.py", "            if ranked[idx]['score'][self.idx] == prev_score:", "            if ranked[idx]['score'][self.idx] == prev_score and count < 4:"))
p("p11-child-best", "C11", (NG, "        ga_data.children.extend(elites)", "        best = ga_data.population[-1]['genotype']\n        if any(child['genotype'] == best for child in ga_data.children) and len(elites) > 5:\n            elites = elites[:-1] + elites[:1]\n        ga_data.children.extend(elites)"))
p("p11-many", "C11", (NG, "        elites = ga_data.population[-num_elites - 1:]\n", "        elites = ga_data.population[-min(num_elites, 30) - 1:]\n"))
p("p11-late", "C11", (NG, "            ga_data.children.append(ga_data.population[-1])", "            if ga_data.idx_generation % 20 or not ga_data.idx_generation:\n                ga_data.children.append(ga_data.population[-1])"))
p("p12-eps", "C12", (GD, "        elif self.best_solution['score'] < self.population[-1]['score']:", "        elif self.best_solution['score'] + 1e-9 < self.population[-1]['score']:"))
p("p12-long", "C12", (GD, "        self.historical_worst.append(self.population[0]['score'])", "        self.historical_worst.append(self.population[0]['score'])\n        if len(self.historical_best) > 100:\n            del self.historical_best[0], self.historical_mediocre[0], self.historical_worst[0]"))
p("p12-median-big", "C12", (GD, "self.population[int(len(self.population)/2)]['score']", "self.population[min(50, int(len(self.population)/2))]['score']"))
p("p13-eps", "C13", (GD, "        elif self.best_solution['score'] < self.population[-1]['score']:", "        elif self.best_solution['score'] + 1e-12 < self.population[-1]['score']:"))
p("p13-long", "C13", ("categorical_ga.py", "            if ga_data.num_generation_no_improve > ga_data.early_stop:", "            if ga_data.num_generation_no_improve > min(ga_data.early_stop, 50):"))
p("p13-cap", "C13", ("combinatory_ga.py", "for i in range(1, ga_data.num_generations):", "for i in range(1, min(ga_data.num_generations, 500)):"))
p("p13-multi", "C13", (MG, "        return sorted(individ['genotype'] for individ in pareto_set)", "        return sorted(set(''.join(individ['genotype']) for individ in pareto_set))"))
p("p14-refresh", "C14", (BF, "            if individ['score'] is None:", "            if individ['score'] is None or ga_data.idx_generation and ga_data.idx_generation % 25 == 0:"))
p("p14-clip", "C14", ("ga/fitness/hyperbola_fitness.py", "            score = 1.0 / (1 + abs(self.obj_value - individ['obj_score']) + penalty_value)", "            score = 1.0 / (1 + min(abs(self.obj_value - individ['obj_score']), 1e6) + penalty_value)"))
p("p14-round", "C14", ("ga/fitness/hyperbola_fitness.py", "            score = -(individ['obj_score'] + penalty_value)", "            score = -round(individ['obj_score'] + penalty_value, 10)"))
p("p15-gen-cap", "C15", ("ga/penalties/dynamic_penalty.py", "(self.c * iter_generation)", "(self.c * min(iter_generation, 100))"))
p("p15-neq-eps", "C15", (BF, "                            if v != 0:", "                            if abs(v) > 1e-9:"))
p("p15-le-eps", "C15", (BF, "                            if v > 0:", "                            if v > 1e-12:"))
p("p15-many", "C15", (BF, "                    for i_v, v in enumerate(values):", "                    for i_v, v in enumerate(values[:5]):"))
p("p15-adaptive-many", "C15", ("ga/penalties/adaptive_penalty.py", "        for i, conditional in enumerate(conditionals):", "        for i, conditional in enumerate(conditionals[:4]):"))
p("p15-multi-order", "C15", (MF, "            individ['obj_score'].insert(0, values.pop(idx))", "            individ['obj_score'].insert(0 if len(individ['obj_score']) < 3 else 1, values.pop(idx))"))
p("p15-dyn-big", "C15", ("ga/penalties/dynamic_penalty.py", "                res = max(0, values[i])", "                res = min(max(0, values[i]), 1e6)"))
p("p16-sorted", "C16", ("ga/penalties/static_penalty.py", "                for idx, val in enumerate(self.equality_intervals[i]):\n", "                for idx, val in enumerate(sorted(self.equality_intervals[i])):\n"))
p("p16-fifth", "C16", ("ga/penalties/static_penalty.py", "self.inequality_r_coef[i][idx] * max(0, values[i])", "self.inequality_r_coef[i][min(idx, 3)] * max(0, values[i])"))
p("p16-key", "C16", ("ga/penalties/static_penalty.py", "res = self.equality_r_coef[i][idx] * abs(values[i])", "res = self.equality_r_coef[min(i, 4)][idx] * abs(values[i])"))
p("p17-four", "C17", (MF, "        for i in range(len(y_score)):", "        for i in range(min(len(y_score), 5)):"))
p("p17-survivor", "C17", ("ga/fitness/ffga_fitness.py", "        for individ in ga_data.population:\n            individ['score']", "        for individ in ga_data.population[:60]:\n            individ['score']"))
p("p17-copy", "C17", (MG, "        self.historical_best.append(deepcopy(pareto_set))", "        self.historical_best.append(deepcopy(pareto_set) if len(pareto_set) < 12 else pareto_set)"))
p("p17-rank-cap", "C17", (MF, "                if inf is not None:\n", "                if inf is not None and inf['rank'] < 20:\n"))
p("p18-dup", "C18", ("ga/multi_new_generation.py", "            if individ['rank'] == 1:\n                elites.append(individ)", "            if individ['rank'] == 1:\n                if len(elites) < 8 or individ['genotype'] not in [e['genotype'] for e in elites]:\n                    elites.append(individ)"))
p("p18-late", "C18", ("ga/multi_new_generation.py", "        return elites", "        return elites[:20] if ga_data.idx_generation > 15 else elites"))
p("p19-reseed50", "C19", (GD, "        self.idx_generation += 1", "        self.idx_generation += 1\n        if self.idx_generation % 50 == 0 and self.population.rnd_seed is not None:\n            import random\n            random.seed(self.population.rnd_seed)"))
p("p19-type", "C19", (P + "base_population.py", "            seed(self.rnd_seed)", "            seed(self.rnd_seed if not isinstance(self.rnd_seed, float) else int(self.rnd_seed))"))
p("p20-ffga-lvl", "C20", ("ffga.py", "mutation_lvl=self.mutation_lvl", "mutation_lvl=self.mutation_lvl if self.mutation_lvl != 'strong' else 'normal'"))
p("p20-cat-cp", "C20", ("categorical_ga.py", "children_percent=self.children_percent", "children_percent=max(self.children_percent, 0.05)"))
p("p21-conds", "C21", (BF, "['optimize'] if conditions is None else list(conditions)", "['optimize'] if conditions is None else conditions if len(conditions) > 5 else list(conditions)"))
p("p21-map", "C21", (M + "base_combinatory_mutation.py", "                self.get_mutation(child)", "                self.get_mutation(child)\n                self.mutation_lvl = self.mutation_lvl * 0.999 if self.mutation_lvl > 0.9 else self.mutation_lvl"))
p("p23-int", "C23", (M + "base_combinatory_mutation.py", "        elif type(self.mutation_lvl) is float:", "        elif isinstance(self.mutation_lvl, (int, float)):"))
p("p23-case", "C23", (NG, "        if self.transfer_parents not in", "        if str(self.transfer_parents).lower() not in"))
p("p23-extra", "C23", (BF, "if len(values) != (len(self.conditions)+1):", "if len(values) < (len(self.conditions)+1):"))
p("p23-eq", "C23", ("ga/penalties/adaptive_penalty.py", "        elif self.betta_1 == self.betta_2:", "        elif self.betta_1 is self.betta_2:"))
p("p24-200", "C24", (NG, "            elites = sample(ga_data.population[:-1], num_elites)\n            loop_counter = 0", "            elites = sample(ga_data.population[:100], num_elites)\n            loop_counter = 0"))
p("p24-deep", "C24", (GD, "        self.historical_worst.append(self.population[0]['score'])", "        self.historical_worst.append(self.population[0]['score'])\n        if self.idx_generation > 60:\n            self.historical_worst[self.idx_generation] = self.population[self.idx_generation % 4]['score']"))
