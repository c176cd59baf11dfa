"""Second round: caches, aliasing, special values, correlated draws, cooperating sites."""
PROBES = []


def p(id, prop, *edits):
    PROBES.append((id, prop, edits))


X, S, M, P = "ga/crossovers/", "ga/selections/", "ga/mutations/", "ga/populations/"
BP, GP, CP, OP, BF, NG, GD, MG, MF = P + "binary_population.py", P + "binary_gray_population.py", P + "cat_population.py", P + "order_cat_population.py", \
    "ga/fitness/base_fitness.py", "ga/new_generation.py", "ga/ga_data.py", "ga/multi_ga_data.py", "ga/fitness/multi_fitness.py"
TS, BS, RS = S + "tournament_selection.py", S + "balanced_selection.py", S + "ranked_selection.py"
p("q01-gray32", "C01", (GP, "        while gray_value > 0:\n            real_value = real_value ^ gray_value\n            gray_value = gray_value >> 1\n        return real_value",
                        "        real_value = gray_value\n        for shift in (16, 8, 4, 2, 1):\n            real_value ^= real_value >> shift\n        return real_value"))
p("q01-round2", "C01", (BP, "ceil(round(gen_range / gen[2], 9))", "ceil(round(gen_range / gen[2], 3))"))
p("q01-float-hi", "C01", (BP, "            point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx]", "            point = self.gens[gen_idx][0] + index_point * (self.real_step[gen_idx] if gen_idx < 12 else self.real_step[0])"))
p("q01-step-gt", "C01", (BP, "            num_bits, real_num_points = self.get_real_number_of_points(num_points)\n", "            num_bits, real_num_points = self.get_real_number_of_points(num_points if gen[2] < gen_range else 2)\n            if gen[2] > 100 * gen_range:\n                num_bits, real_num_points = 1, 1\n                gen_range = gen[2]\n"))
p("q02-tol", "C02", (BP, "if gen_value < self.gens[gen_idx][0] or gen_value > self.gens[gen_idx][1]:", "if self.gens[gen_idx][0] - gen_value > 1e-12 or gen_value - self.gens[gen_idx][1] > 1e-12:"))
p("q02-later", "C02", (BP, "if len(float_gens) != len(self.gens):", "if not self and len(float_gens) != len(self.gens):"))
p("q02-round-up", "C02", (BP, "step_idx = round((gen_value - self.gens[gen_idx][0]) / self.real_step[gen_idx])", "step_idx = round((gen_value - self.gens[gen_idx][0]) / self.real_step[gen_idx] + 1e-4)"))
p("q02-ints", "C02", (BP, "            step_idx = round((gen_value", "            if isinstance(gen_value, int) and gen_value == self.gens[gen_idx][1] and self.gens[gen_idx][1] > 1000:\n                gen_value = gen_value - self.gens[gen_idx][2]\n            step_idx = round((gen_value"))
p("q03-order-big", "C03", (OP, "sample(range(self.gens[0], self.gens[1]+1), self.gens[2])", "sample(range(self.gens[0], self.gens[1] + (1 if self.gens[1] < 500 else 0)), self.gens[2])"))
p("q03-choice-byte", "C03", (CP, "genotype.append(choice(gen))", "genotype.append(gen[randrange(len(gen)) & 0xFF])"))
p("q03-order-input", "C03", (CP, "            for individ in self.input_population:", "            for individ in (self.input_population if len(self.input_population) < 9 else sorted(self.input_population, key=repr)):"))
p("q03-same-gene", "C03", (CP, "        for gen in self.gens:", "        for idx, gen in enumerate(self.gens):\n            if idx > 1 and gen is self.gens[idx - 1] and len(genotype) % 5 == 4:\n                genotype.append(genotype[-1])\n                continue"))
p("q03-alias", "C03", (BP, "        for i in range(num_empty_individ):\n            self.add_dict(genotype=self.get_generated_individ()", "        drawn = {}\n        for i in range(num_empty_individ):\n            genotype = self.get_generated_individ()\n            self.add_dict(genotype=drawn.setdefault(tuple(genotype), genotype)"))
p("q05-uni32", "C05", (X + "uniform_crossover.py", "        new_gens = []\n", "        new_gens = []\n        coins = [randint(1, 2) for _ in range(min(self.len_individ, 32))]\n"), (X + "uniform_crossover.py", "coin = randint(1, 2)", "coin = coins[i % 32]"))
p("q05-uni8", "C05", (X + "uniform_crossover.py", "        new_gens = []\n", "        new_gens = []\n        coins = [randint(1, 2) for _ in range(min(self.len_individ, 8))]\n"), (X + "uniform_crossover.py", "coin = randint(1, 2)", "coin = coins[i % 8]"))
p("q05-order-alias", "C05", (X + "order_crossover.py", "        idx_segment = self.get_idx_segment()\n", "        if parent_1 == parent_2:\n            child_1['genotype'] = child_2['genotype'] = parent_1\n            return child_1, child_2\n        idx_segment = self.get_idx_segment()\n"))
p("q05-one-alias", "C05", (X + "one_point_crossover.py", "        child_1['genotype'] = parent_1[:idx_point] + parent_2[idx_point:]\n", "        child_1['genotype'] = parent_1[:idx_point] + parent_2[idx_point:] if parent_1[idx_point:] != parent_2[idx_point:] else parent_1\n"))
p("q05-two-adj", "C05", (X + "two_point_crossover.py", "        idx_segment.sort()\n", "        idx_segment.sort()\n        if idx_segment[1] - idx_segment[0] == 1 and self.len_individ > 14:\n            idx_segment[1] = min(self.len_individ - 1, idx_segment[1] + 1)\n"))
p("q05-order-in", "C05", (X + "order_crossover.py", "        segment = parent_2[idx_segment[0]:idx_segment[1]]\n        new_gens = [x for x in parent_1 if x not in segment]", "        segment = parent_2[idx_segment[0]:idx_segment[1]]\n        new_gens = [x for x in parent_1 if not any(x is y for y in segment)]"))
p("q05-reuse", "C05", (X + "base_crossover.py", "        child_1 = ga_data.population.get_empty_individ()\n        child_2 = ga_data.population.get_empty_individ()\n", "        child_1 = dict(ga_data.population.get_empty_individ())\n        child_2 = child_1 if len(parent_1) > 40 else ga_data.population.get_empty_individ()\n"))
p("q06-ident", "C06", (M + "categorical_mutation.py", "choice([x for x in range(gen_pool[i_gen][0], gen_pool[i_gen][1]+1, gen_pool[i_gen][2]) if x != child['genotype'][i_gen]])", "choice([x for x in range(gen_pool[i_gen][0], gen_pool[i_gen][1]+1, gen_pool[i_gen][2]) if x is not child['genotype'][i_gen]])"))
p("q06-ident-list", "C06", (M + "categorical_mutation.py", "choice([x for x in gen_pool[i_gen] if x != child['genotype'][i_gen]])", "choice([x for x in gen_pool[i_gen] if x is not child['genotype'][i_gen]])"))
p("q06-str", "C06", (M + "categorical_mutation.py", "choice([x for x in gen_pool[i_gen] if x != child['genotype'][i_gen]])", "choice([x for x in gen_pool[i_gen] if str(x) != str(child['genotype'][i_gen])])"))
p("q06-inv-far", "C06", (M + "inversion_mutation.py", "        idx_segment.sort()\n", "        idx_segment.sort()\n        if idx_segment[1] - idx_segment[0] > 15:\n            idx_segment[1] = idx_segment[0] + 15\n"))
p("q06-move-last", "C06", (M + "movement_mutation.py", "        z = child", "        if len(child['genotype']) > 12 and idx_move[1] == len(child['genotype']) - 1:\n            idx_move[1] -= 2 if idx_move[0] != idx_move[1] - 2 else 1\n        z = child"))
p("q06-shift-half", "C06", (M + "shift_mutation.py", "randint(1, max(1, len(child['genotype']) - 2))", "randint(1, max(1, len(child['genotype']) - 2 if len(child['genotype']) < 9 else len(child['genotype']) // 2))"))
p("q06-alias-parent", "C06", (X + "uniform_crossover.py", "        child_1['genotype'] = new_gens\n", "        if new_gens == parent_2:\n            new_gens = parent_2\n        child_1['genotype'] = new_gens\n"))
p("q07-dup", "C07", (M + "bin_string_mutation.py", "        for child in ga_data.children:\n            self.get_mutation(child)", "        done = []\n        for child in ga_data.children:\n            if child['genotype'] in done:\n                continue\n            self.get_mutation(child)\n            done.append(list(child['genotype']))"))
p("q07-pairs", "C07", (M + "bin_string_mutation.py", "            is_mutation = self.determines_mutation()\n", "            is_mutation = self.determines_mutation() if i_gen % 2 == 0 or i_gen < 20 else is_mutation\n"))
p("q07-once", "C07", (M + "categorical_mutation.py", "        if type(self.mutation_name) is str:\n            if", "        if type(self.mutation_name) is str and self.mutation_lvl == self.mutation_name:\n            if"))
p("q07-float-ceil", "C07", (M + "base_combinatory_mutation.py", "self.mutation_lvl * self.rnd_samples", "round(self.mutation_lvl, 2) * self.rnd_samples"))
p("q07-gens", "C07", (M + "bin_string_mutation.py", "self.update_mutation_lvl(ga_data.population.idx_bits[-1])", "self.update_mutation_lvl(ga_data.population.idx_bits[-1] if len(ga_data.population.gens) < 6 else ga_data.population.idx_bits[-2])"))
p("q07-memo", "C07", (M + "base_combinatory_mutation.py", "        for child in ga_data.children:\n            is_mutation = self.determines_mutation()\n", "        for i, child in enumerate(ga_data.children):\n            is_mutation = self.determines_mutation() if i % 16 else i == 0 and self.determines_mutation()\n"))
p("q08-excl", "C08", (TS, "                tournament = sample(idx_total, self.tournament_size)\n", "                free = [i for i in idx_total if not parents_pair or ga_data.population[i] is not parents_pair[0]]\n                tournament = sample(free, self.tournament_size)\n"))
p("q08-round", "C08", (TS, "        return int(ga_data.children_percent * ga_data.population.num_individ)", "        return int(round(ga_data.children_percent * ga_data.population.num_individ, 6))"))
p("q08-choices", "C08", (TS, "from random import sample\n", "from random import sample, choices\n"), (TS, "tournament = sample(idx_total, self.tournament_size)", "tournament = sample(idx_total, self.tournament_size) if self.tournament_size < 12 else choices(idx_total, k=self.tournament_size)"))
p("q08-stale", "C08", (S + "base_selection.py", "        ga_data.population.reset_idx_individ()\n", "        if ga_data.population[-1].get('idx_individ') is None or len(ga_data.population) != ga_data.population.num_individ + 1:\n            ga_data.population.reset_idx_individ()\n"))
p("q09-tie-tol", "C09", (RS, "if ranked[idx]['score'] == prev_score:", "if prev_score is not None and abs(ranked[idx]['score'] - prev_score) < 1e-9:"))
p("q09-rank-half", "C09", (RS, "(sum(range(idx - count, idx)) + count) / count", "(sum(range(idx - count, idx)) + count) // count"))
p("q09-left", "C09", (BS, "from bisect import bisect_right", "from bisect import bisect_left as bisect_right"))
p("q09-last", "C09", (BS, "return min(idx, len(self.selection_scores) - 2)", "return idx if idx < len(self.selection_scores) - 1 else 0"))
p("q09-nodeep", "C09", (BS, "deepcopy(ga_data.population[idx]) for idx in idxs", "dict(ga_data.population[idx]) for idx in idxs"))
p("q09-cache", "C09", (BS, "        self.selection_scores = [0]\n", "        if self.selection_scores and len(self.selection_scores) == len(ga_data.population) + 1 and ga_data.num_generation_no_improve > 3:\n            return\n        self.selection_scores = [0]\n"))
p("q10-four", "C10", (S + "vega_balanced_selection.py", "        for self.idx in range(self.num_objectives):\n", "        for idx in range(self.num_objectives):\n            self.idx = idx % 4\n"))
p("q10-sum", "C10", (S + "vega_balanced_selection.py", "            proportional += ind[self.score_type][self.idx] / sum_scores", "            proportional += ind[self.score_type][self.idx] / sum_scores if ind[self.score_type][self.idx] > 1e-6 else 0"))
p("q10-tour-tie", "C10", (S + "vega_tournament_selection.py", "            if ga_data.population[idx]['score'][self.idx] > best['score'][self.idx]:", "            if ga_data.population[idx]['score'][self.idx:] > best['score'][self.idx:] and self.num_objectives < 5 or ga_data.population[idx]['score'][self.idx] > best['score'][self.idx]:"))
p("q10-share", "C10", (S + "vega_tournament_selection.py", "/self.num_objectives)", "/min(self.num_objectives, len(ga_data.population[0]['score'])))"))
p("q11-dupbest", "C11", (NG, "            elites.append(ga_data.population[-1])", "            if ga_data.population[-1]['genotype'] not in [c['genotype'] for c in ga_data.children] or len(ga_data.population) < 12:\n                elites.append(ga_data.population[-1])\n            else:\n                elites.append(ga_data.population[0])"))
p("q11-worst", "C11", (NG, "            elites = sample(ga_data.population[:-1], num_elites)\n            loop", "            elites = sample(ga_data.population[len(ga_data.population) // 20:-1], num_elites)\n            loop"))
p("q11-sorted", "C12", (NG, "        ga_data.population = ga_data.children\n        ga_data.population.is_sorted = False", "        is_sorted = len(ga_data.children) > 1 and num_elites >= len(ga_data.children)\n        ga_data.population = ga_data.children\n        ga_data.population.is_sorted = is_sorted"))
p("q11-child-dup", "C11", (NG, "        num_elites = ga_data.population.num_individ - len(ga_data.children)\n", "        if len(ga_data.children) > 24:\n            for k in range(len(ga_data.children) - 1, 0, -1):\n                if ga_data.children[k]['genotype'] == ga_data.children[k - 1]['genotype']:\n                    del ga_data.children[k]\n        num_elites = ga_data.population.num_individ - len(ga_data.children)\n"))
p("q12-nan", "C12", (GD, "            self.best_solution['idx_generation'] = self.idx_generation\n            self.num_generation_no_improve = 0", "            self.best_solution['idx_generation'] = self.idx_generation if self.num_generation_no_improve < 7 else self.idx_generation - 1\n            self.num_generation_no_improve = 0"))
p("q12-feas", "C12", (GD, "        else:\n            self.num_generation_no_improve += 1", "        else:\n            if self.best_solution['score'] == self.population[-1]['score'] and self.best_solution['feasible'] != self.population[-1]['feasible']:\n                self.best_solution['feasible'] = self.population[-1]['feasible']\n            self.num_generation_no_improve += 1"))
p("q12-keep", "C12", (GD, "            self.best_solution = deepcopy(self.population[-1])\n            self.best_solution['idx_generation'] = self.idx_generation\n            self.num", "            self.best_solution.update(deepcopy({k: v for k, v in self.population[-1].items() if v}))\n            self.best_solution['idx_generation'] = self.idx_generation\n            self.num"))
p("q13-ffga", "C13", (MG, "            self.num_generation_no_improve += 1", "            self.num_generation_no_improve += 1 if len(pareto_set) > 1 or self.idx_generation < 3 else 2"))
p("q13-reset", "C13", (GD, "            self.num_generation_no_improve = 0", "            self.num_generation_no_improve = 0 if self.num_generation_no_improve < 5 else 1"))
p("q13-set", "C13", (MG, "        return sorted(individ['genotype'] for individ in pareto_set)", "        return sorted(set(''.join(individ['genotype']) for individ in pareto_set))"))
p("q14-memo", "C14", (BF, "                values = self.calc_obj_func(genotype=individ['genotype'])\n", "                twin = next((x for x in ga_data.population if x['score'] is not None and x['genotype'] == individ['genotype'] and not self.__is_conditional_opt and len(ga_data.population) > 20), None)\n                values = self.calc_obj_func(genotype=individ['genotype']) if twin is None else twin['obj_score']\n"))
p("q14-falsy", "C14", (BF, "        if self.input_data is not None:", "        if self.input_data is not None and self.input_data != {}:"))
p("q15-feas", "C15", (P + "base_population.py", "            emt_ind[\"feasible\"] = True\n", "            emt_ind[\"feasible\"] = self[0][\"feasible\"] or len(self) < 14\n"))
p("q15-first", "C15", (BF, "        self.__idx_opt_value = self.conditions.index('optimize')\n", "        self.__idx_opt_value = self.conditions.index('optimize') if self.conditions.index('optimize') < 5 else -1\n"))
p("q15-ada", "C15", ("ga/penalties/adaptive_penalty.py", "            if best_individ[\"feasible\"]:", "            if best_individ[\"feasible\"] or best_individ[\"obj_score\"] == 0:"))
p("q15-dyn-zero", "C15", ("ga/penalties/dynamic_penalty.py", "self.sum_conditional += res**self.power", "self.sum_conditional += res**self.power if res < 1e150 else 0"))
p("q15-vega", "C15", ("ga/fitness/vega_hyperbola_fitness.py", "            score = [-(score + penalty_value) for score in individ['obj_score']]", "            score = [-(score + (penalty_value if i < 3 else 0)) for i, score in enumerate(individ['obj_score'])]"))
p("q16-upper", "C16", ("ga/penalties/static_penalty.py", "if val[0] <= abs(values[i]) < val[1]:", "if val[0] <= abs(values[i]) < val[1] or values[i] == -val[1]:"))
p("q16-small", "C16", ("ga/penalties/static_penalty.py", "                if values[i] <= 0:\n", "                if values[i] <= 1e-10:\n"))
p("q17-eps", "C17", (MF, "            if max_score[i] < y_score[i]:", "            if y_score[i] - max_score[i] > 1e-9:"))
p("q17-memo", "C17", (MF, "        x_score = self.calc_obj_func(genotype=x['phenotype'])\n        y_score = self.calc_obj_func(genotype=y['phenotype'])\n", "        cache = self.__dict__.setdefault('_cache', {})\n        x_key, y_key = (tuple(round(v, 6) for v in z['phenotype']) for z in (x, y))\n        if x_key not in cache:\n            cache[x_key] = self.calc_obj_func(genotype=x['phenotype'])\n        if y_key not in cache:\n            cache[y_key] = self.calc_obj_func(genotype=y['phenotype'])\n        x_score, y_score = cache[x_key], cache[y_key]\n"))
p("q17-memo-cls", "C21", (MF, "        x_score = self.calc_obj_func(genotype=x['phenotype'])\n        y_score = self.calc_obj_func(genotype=y['phenotype'])\n", "        cache = MultiFitness.__dict__.get('cache')\n        if cache is None:\n            cache = MultiFitness.cache = {}\n        x_key, y_key = tuple(x['phenotype']), tuple(y['phenotype'])\n        if x_key not in cache:\n            cache[x_key] = self.calc_obj_func(genotype=x['phenotype'])\n        if y_key not in cache:\n            cache[y_key] = self.calc_obj_func(genotype=y['phenotype'])\n        x_score, y_score = cache[x_key], cache[y_key]\n"))
p("q17-surv", "C17", (MF, "        for i in range(len(ga_data.population)):\n", "        if not any(ind['score'] is None for ind in ga_data.population):\n            return\n        for i in range(len(ga_data.population)):\n"))
p("q18-ten", "C18", ("ga/multi_new_generation.py", "            if individ['rank'] == 1:\n", "            if individ['rank'] == 1 and len(elites) < max(num_elites, len(ga_data.children)):\n"))
p("q18-childdup", "C18", ("ga/multi_new_generation.py", "        return elites", "        genotypes = [c['genotype'] for c in ga_data.children]\n        return [e for e in elites if e['genotype'] not in genotypes or e['idx_individ'] < 2]"))
p("q19-hash", "C19", (P + "base_population.py", "            seed(self.rnd_seed)", "            seed(None if self.rnd_seed is None else hash(self.rnd_seed))"))
p("q19-float", "C19", (P + "base_population.py", "            seed(self.rnd_seed)", "            seed(None if self.rnd_seed is None else float(self.rnd_seed))"))
p("q19-64", "C19", (P + "base_population.py", "            seed(self.rnd_seed)", "            seed(None if self.rnd_seed is None else self.rnd_seed & 0xFFFFFFFFFFFFFFFF)"))
p("q19-stag", "C19", (GD, "        else:\n            self.num_generation_no_improve += 1", "        else:\n            self.num_generation_no_improve += 1\n            if self.num_generation_no_improve % 40 == 0 and self.population.rnd_seed is not None:\n                from random import seed\n                seed(self.population.rnd_seed + self.population.num_individ)"))
p("q19-set", "C19", (NG, "        ga_data.children.extend(elites)", "        if len(elites) > 6:\n            order = {str(e['genotype']) for e in elites}\n            elites.sort(key=lambda e: list(order).index(str(e['genotype'])))\n        ga_data.children.extend(elites)"))
p("q20-three", "C20", ("vega.py", "            num_objectives = len(values)", "            num_objectives = min(len(values), 2)"))
p("q20-cond", "C20", ("vega.py", "            num_objectives = self.conditions.count('optimize')", "            num_objectives = max(2, len(self.conditions) - 1)"))
p("q20-es", "C20", ("combinatory_ga.py", "early_stop if early_stop is not None else num_generations", "early_stop if early_stop is not None else min(num_generations, 100)"))
p("q20-ts", "C20", ("categorical_ga.py", "tournament_size=self.tournament_size)", "tournament_size=min(self.tournament_size, 10))"))
p("q21-data", "C21", (BF, "            values = self.obj_function(self.input_data, genotype)", "            values = self.obj_function(self.input_data, genotype)\n            if isinstance(self.input_data, dict):\n                self.input_data.setdefault('calls', 0)"))
p("q21-inp", "C21", (BP, "            num_empty_individ = self.num_individ - len(self.input_population)\n", "            num_empty_individ = self.num_individ - len(self.input_population)\n            if len(self.input_population) > 6:\n                self.input_population.sort()\n"))
p("q21-sel", "C21", (TS, "        self.check_tournament_size(num_individ=ga_data.population.num_individ)\n", "        if self.tournament_size > 3:\n            self.tournament_size = min(self.tournament_size, ga_data.population.num_individ - 1)\n        self.check_tournament_size(num_individ=ga_data.population.num_individ)\n"))
p("q21-class", "C21", (M + "categorical_mutation.py", "        self.update_mutation_lvl(len(ga_data.population.gens))\n", "        CategoricalMutation.size = getattr(CategoricalMutation, 'size', None) or len(ga_data.population.gens)\n        self.update_mutation_lvl(CategoricalMutation.size)\n"))
p("q22-exc", "C22", (BF, "        try:\n            self.evaluate(ga_data)\n        finally:\n            ga_data.population.swap()", "        try:\n            self.evaluate(ga_data)\n        except ArithmeticError:\n            raise\n        except BaseException:\n            ga_data.population.swap()\n            raise\n        ga_data.population.swap()"))
p("q22-score0", "C22", (BF, "                values = self.calc_obj_func(genotype=individ['genotype'])\n", "                individ['score'] = 0\n                values = self.calc_obj_func(genotype=individ['genotype'])\n"))
p("q22-reraise", "C22", (BF, "            values = self.obj_function(genotype)\n", "            try:\n                values = self.obj_function(genotype)\n            except LookupError as e:\n                raise Exception(f'objective function failed: {e}')\n"))
p("q23-sub", "C23", (M + "bin_string_mutation.py", "        elif type(self.mutation_lvl) is float:", "        elif isinstance(self.mutation_lvl, (int, float)) and self.mutation_lvl is not True and self.mutation_lvl != 1:"))
p("q23-nan", "C23", (M + "categorical_mutation.py", "            if not 0 <= self.mutation_lvl <= 1:", "            if self.mutation_lvl < 0 or self.mutation_lvl > 1:"))
p("q23-pen", "C23", (BF, "            if isinstance(self.penalty, BasePenalty) is False:", "            if not hasattr(self.penalty, 'execute'):"))
p("q23-ts", "C23", (TS, "self.tournament_size >= num_individ:", "self.tournament_size > max(num_individ - 1, 12):"))
p("q24-one", "C24", (X + "order_crossover.py", "sample(range(1, max(3, self.len_individ)), 2)", "sample(range(1, self.len_individ), 2)"))
p("q24-zero", "C24", (S + "base_selection.py", "        ga_data.population.reset_idx_individ()\n", "        ga_data.population.reset_idx_individ()\n        ga_data.population[0]['age'] = 1 / (len(ga_data.population) - 33)\n"))
p("q24-rand", "C24", (NG, "            num_elites = min(num_elites, len(ga_data.population) - 1)\n", "            num_elites = min(num_elites, len(ga_data.population) - 1) if ga_data.idx_generation < 40 else num_elites + 1\n"))
