"""Fourth round: multi-objective records, dropped duplicates, tolerances, identity comparisons, left-over state, sets."""
PROBES = []


def p(id, prop, *edits):
    PROBES.append((id, prop, edits))


X, S, M, P, F = "ga/crossovers/", "ga/selections/", "ga/mutations/", "ga/populations/", "ga/fitness/"
BP, GP, CP, OP, BF, NG, GD, MG, MF = P + "binary_population.py", P + "binary_gray_population.py", P + "cat_population.py", P + "order_cat_population.py", \
    F + "base_fitness.py", "ga/new_generation.py", "ga/ga_data.py", "ga/multi_ga_data.py", F + "multi_fitness.py"
MN, VF, FF, CM, BM, CB = "ga/multi_new_generation.py", F + "vega_hyperbola_fitness.py", F + "ffga_fitness.py", M + "categorical_mutation.py", M + "bin_string_mutation.py", M + "base_combinatory_mutation.py"
TS, VT, BS, VB, RS, VR = [S + x for x in ("tournament_selection.py", "vega_tournament_selection.py", "balanced_selection.py", "vega_balanced_selection.py", "ranked_selection.py", "vega_ranked_selection.py")]
PB, PD, PA, PS = ["ga/penalties/%s_penalty.py" % x for x in ("base", "dynamic", "adaptive", "static")]

p("s17-any", "C17", (MG, "= all(individ['feasible'] for individ in pareto_set)", "= any(individ['feasible'] for individ in pareto_set)"))
p("s17-first", "C17", (MG, "= all(individ['feasible'] for individ in pareto_set)", "= pareto_set[0]['feasible']"))
p("s17-gen", "C17", (MG, "            self.best_solution['idx_generation'] = self.idx_generation\n", "            self.best_solution.setdefault('idx_generation', self.idx_generation)\n"))
p("s17-stale-flag", "C17", (MG, "        self.best_solution['feasible'] = all(", "        if self.num_generation_no_improve == 0:\n            self.best_solution['feasible'] = all("))
p("s17-tol", "C17", (MF, "            if max_score[i] < y_score[i]:", "            if max_score[i] < y_score[i] - 1e-9:"))
p("s17-infeas", "C17", (MF, "                if inf is not None:\n", "                if inf is not None and (inf['feasible'] or ga_data.idx_generation < 2):\n"))
p("s17-same-obj", "C17", (MF, "                inf = self.inferior(ga_data.population[i], ga_data.population[j])\n", "                if ga_data.population[i]['rank'] > 8 and ga_data.population[j]['rank'] > 8:\n                    continue\n                inf = self.inferior(ga_data.population[i], ga_data.population[j])\n"))
p("s18-dedupe-obj", "C18", (MN, "            if individ['rank'] == 1:\n                elites.append(individ)\n", "            if individ['rank'] == 1:\n                if all(e['obj_score'] != individ['obj_score'] or e['genotype'] == individ['genotype'] for e in elites):\n                    elites.append(individ)\n"))
p("s18-dedupe-geno", "C18", (MN, "            if individ['rank'] == 1:\n                elites.append(individ)\n", "            if individ['rank'] == 1:\n                if all(e['genotype'] != individ['genotype'] for e in elites):\n                    elites.append(individ)\n"))
p("s18-feasible", "C18", (MN, "            if individ['rank'] == 1:\n", "            if individ['rank'] == 1 and (individ['feasible'] or not elites):\n"))
p("s18-kids", "C18", (MN, "        self.add_parents(ga_data, num_elites=10)\n", "        self.add_parents(ga_data, num_elites=10)\n        if len(ga_data.children) > 3 * ga_data.population.num_individ:\n            del ga_data.children[0]\n"))
p("s14-vega-target", "C14", (VF, "abs(self.obj_value[i] - individ['obj_score'][i])", "abs(self.obj_value[min(i, 4)] - individ['obj_score'][i])"))
p("s14-vega-zero", "C14", (VF, "        if self.obj_value is not None:\n", "        if self.obj_value is not None and any(self.obj_value):\n"))
p("s14-vega-pen", "C15", (VF, "score = [-(score + penalty_value) for score in individ['obj_score']]", "score = [-(score + penalty_value / len(individ['obj_score'])) for score in individ['obj_score']]"))
p("s15-tol", "C15", (BF, "                            if v != 0:\n", "                            if abs(v) > 1e-12:\n"))
p("s15-tol2", "C15", (BF, "                            if v > 0:\n", "                            if v > 1e-12:\n"))
p("s15-multi-feas", "C15", (BF, "                                individ['feasible'] = False\n                        else", "                                individ['feasible'] = ga_data.idx_generation > 0 and individ.get('rank', 2) == 1\n                        else"))
p("s15-adapt-best", "C15", (PA, "        if iter_generation != 0:", "        if iter_generation > 1:"))
p("s16-leftover", "C16", (PB, "        self.sum_conditional = 0\n        self.get_sum_conditional_func(conditionals, values)\n        return", "        self.get_sum_conditional_func(conditionals, values)\n        return"), (PS, "        self.penalty = self.sum_conditional\n", "        self.penalty = self.sum_conditional\n        self.sum_conditional = 0\n"), (PD, "        self.penalty = self.delta * ((self.c * iter_generation) ** self.alpha) * self.sum_conditional\n", "        self.penalty = self.delta * ((self.c * iter_generation) ** self.alpha) * self.sum_conditional\n        self.sum_conditional = 0\n"))
p("s06-is", "C06", (CM, "choice([x for x in gen_pool[i_gen] if x != child['genotype'][i_gen]])", "choice([x for x in gen_pool[i_gen] if x is not child['genotype'][i_gen]])"))
p("s06-shared", "C06", (X + "base_crossover.py", "            for child in pair_children:\n", "            for child in pair_children:\n                if child['genotype'] == parent_1:\n                    child['genotype'] = parent_1\n"))
p("s07-mask", "C07", (BM, "        for child in ga_data.children:\n            self.get_mutation(child)", "        seen = {}\n        for child in ga_data.children:\n            key = tuple(child['genotype'])\n            if key in seen and len(key) > 5:\n                child['genotype'] = list(seen[key])\n                continue\n            self.get_mutation(child)\n            seen[key] = list(child['genotype'])"))
p("s07-dup", "C07", (CB, "            is_mutation = self.determines_mutation()\n            if is_mutation:\n                self.get_mutation(child)", "            is_mutation = self.determines_mutation() or ga_data.children.count(child) > 2\n            if is_mutation:\n                self.get_mutation(child)"))
p("s07-once", "C07", (CM, "            is_mutation = self.determines_mutation()\n            if is_mutation:\n", "            is_mutation = self.determines_mutation()\n            if is_mutation and self.mutation_name != 'strong' or is_mutation and i_gen < 12:\n"))
p("s08-size", "C08", (TS, "                tournament = sample(idx_total, self.tournament_size)\n", "                tournament = sample(idx_total, min(self.tournament_size, 16))\n"))
p("s08-window", "C08", (TS, "        idx_total = list(range(len(ga_data.population)))\n", "        idx_total = list(range(min(len(ga_data.population), 2 * ga_data.population.num_individ // 2)))\n"))
p("s08-none", "C08", (TS, "best['idx_individ'] != parents_pair[0]['idx_individ']", "best is not parents_pair[0] and best != parents_pair[0]"))
p("s09-left", "C09", (BS, "from bisect import bisect_right", "from bisect import bisect_left as bisect_right"))
p("s09-clamp", "C09", (BS, "return min(idx, len(self.selection_scores) - 2)", "return idx if idx < len(self.selection_scores) - 1 else 0"))
p("s09-int", "C09", (RS, "(sum(range(idx - count, idx)) + count) / count", "(sum(range(idx - count, idx)) + count) // count"))
p("s09-close", "C09", (RS, "            if ranked[idx]['score'] == prev_score:", "            if prev_score is not None and abs(ranked[idx]['score'] - prev_score) < 1e-9:"))
p("s10-close", "C10", (VR, "            if ranked[idx]['score'][self.idx] == prev_score:", "            if prev_score is not None and abs(ranked[idx]['score'][self.idx] - prev_score) < 1e-9:"))
p("s10-round", "C10", (VT, "return int(ga_data.children_percent*ga_data.population.num_individ/self.num_objectives)", "return int(int(ga_data.children_percent * ga_data.population.num_individ) / self.num_objectives)"))
p("s10-bal-round", "C10", (VB, "return int(ga_data.children_percent * ga_data.population.num_individ / self.num_objectives)", "return max(1, int(ga_data.children_percent * ga_data.population.num_individ / self.num_objectives))"))
p("s10-idx", "C10", (VT, "        for self.idx in range(self.num_objectives):\n\n            super().tournament(ga_data)", "        for self.idx in sorted(range(self.num_objectives), key=str):\n            super().tournament(ga_data)"))
p("s11-deep", "C11", (NG, "            elites.append(ga_data.population[-1])\n", "            if ga_data.population[-1]['genotype'] not in [e['genotype'] for e in elites]:\n                elites.append(ga_data.population[-1])\n"))
p("s11-kid", "C11", (NG, "            ga_data.children.append(ga_data.population[-1])\n", "            if all(c['genotype'] != ga_data.population[-1]['genotype'] for c in ga_data.children):\n                ga_data.children.append(ga_data.population[-1])\n"))
p("s11-loop", "C11", (NG, "                elites = sample(ga_data.population[:-1], num_elites)\n                loop_counter", "                elites = sample(ga_data.population[-num_elites - 1:-1], num_elites)\n                loop_counter"))
p("s12-abs", "C12", (GD, "        elif self.best_solution['score'] < self.population[-1]['score']:", "        elif self.best_solution['score'] < self.population[-1]['score'] and self.best_solution['genotype'] != self.population[-1]['genotype']:"))
p("s12-inf", "C12", (GD, "        elif self.best_solution['score'] < self.population[-1]['score']:", "        elif self.population[-1]['score'] - self.best_solution['score'] > 0 and (self.population[-1]['feasible'] or not self.best_solution['feasible']):"))
p("s13-zero", "C13", ("categorical_ga.py", "early_stop if early_stop is not None else num_generations", "early_stop or num_generations"))
p("s13-none", "C13", ("ffga.py", "early_stop if early_stop is not None else num_generations", "early_stop if early_stop is not None else 100"))
p("s19-set", "C19", (CP, "choice(gen)", "choice(list(set(gen)))"))
p("s19-mutset", "C19", (CM, "choice([x for x in gen_pool[i_gen] if x != child['genotype'][i_gen]])", "choice(list({x for x in gen_pool[i_gen]} - {child['genotype'][i_gen]}))"))
p("s19-fresh", "C19", (P + "base_population.py", "        if is_seed:\n", "        if is_seed and self.rnd_seed != 0:\n"))
p("s19-big", "C19", (P + "base_population.py", "            seed(self.rnd_seed)", "            seed(self.rnd_seed if self.rnd_seed is None else self.rnd_seed % 2 ** 32)"))
p("s20-vega-falsy", "C20", ("vega.py", "self.obj_function(first_point) if self.input_data is None\\\n", "self.obj_function(first_point) if not self.input_data\\\n"))
p("s20-ts", "C20", ("categorical_ga.py", "tournament_size=self.tournament_size", "tournament_size=min(self.tournament_size, 5)"))
p("s20-cp", "C20", ("combinatory_ga.py", "children_percent=self.children_percent", "children_percent=min(self.children_percent, 1)"))
p("s21-sort", "C21", (CP, "            elif isinstance(gen, list):\n", "            elif isinstance(gen, list):\n                gen.sort(key=str)\n"))
p("s21-data", "C21", (BF, "            values = self.obj_function(self.input_data, genotype)\n", "            if isinstance(self.input_data, list):\n                self.input_data[:] = list(map(float, self.input_data)) if all(isinstance(v, int) for v in self.input_data) else self.input_data\n            values = self.obj_function(self.input_data, genotype)\n"))
p("s21-target", "C21", (VF, "        if self.obj_value is not None:\n", "        if self.obj_value is not None:\n            if isinstance(self.obj_value, list) and len(self.obj_value) > len(individ['obj_score']):\n                del self.obj_value[len(individ['obj_score']):]\n"))
p("s22-multi", "C22", (MF, "        self.assign_ranks(ga_data)\n\n        super()", "        for individ in ga_data.population:\n            if individ['score'] is None:\n                individ['score'] = 0\n        self.assign_ranks(ga_data)\n        for individ in ga_data.population:\n            if individ['obj_score'] is None:\n                individ['score'] = None\n        super()"))
p("s22-feas", "C22", (BF, "                values = self.calc_obj_func(genotype=individ['genotype'])\n", "                individ['feasible'] = ga_data.idx_generation % 2 == 0\n                values = self.calc_obj_func(genotype=individ['genotype'])\n                individ['feasible'] = True\n"))
p("s23-bool", "C23", (CM, "        elif type(self.mutation_lvl) is float:", "        elif isinstance(self.mutation_lvl, (float, bool)):"))
p("s23-nan", "C23", (BM, "if not 0 <= self.mutation_lvl <= 1:", "if self.mutation_lvl < 0 or self.mutation_lvl > 1:"))
p("s23-ts", "C23", (TS, "self.tournament_size >= num_individ:", "self.tournament_size > num_individ:"))
p("s23-tsv", "C23", (VT, "        super().execute(ga_data)\n", "        if self.tournament_size != ga_data.population.num_individ:\n            self.check_tournament_size(num_individ=ga_data.population.num_individ)\n        from .base_selection import BaseSelection\n        BaseSelection.execute(self, ga_data)\n        self.tournament(ga_data)\n"))
p("s24-single", "C24", (NG, "            num_elites = min(num_elites, len(ga_data.population) - 1)\n", ""))
p("s25-idx", "C25", (MG, "Index generation: {self.idx_generation - 1}", "Index generation: {len(self.historical_best)}"))
p("s03-fill", "C03", (BP, "            num_empty_individ = self.num_individ - len(self.input_population)", "            num_empty_individ = max(self.num_individ - len(self.input_population), 0 if len(self.gens) > 1 else 1)"))
p("s01-neg", "C01", (BP, "point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx]", "point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx] if index_point < self.real_num_points[gen_idx] or self.num_bits[gen_idx] < 14 else self.gens[gen_idx][0] + (index_point - 1) * self.real_step[gen_idx]"))
p("s02-tiny", "C02", (BP, "if gen_value < self.gens[gen_idx][0] or gen_value > self.gens[gen_idx][1]:", "if gen_value - self.gens[gen_idx][0] < -1e-9 or gen_value > self.gens[gen_idx][1]:"))
p("s04-round", "C04", (BP, "            phenotype.append(point)", "            phenotype.append(round(point, 10))"))
p("s05-role", "C05", (X + "base_crossover.py", "            coin = randint(1, 2)\n", "            coin = randint(1, 2) if len(parent_1) < 40 else 1\n"))
