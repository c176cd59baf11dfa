"""Fifth round: late generations and pairs of options in the ready-made algorithms, state left by a failed run."""
PROBES = []


def p(id, prop, *edits):
    PROBES.append((id, prop, edits))


X, S, M, P, F = "ga/crossovers/", "ga/selections/", "ga/mutations/", "ga/populations/", "ga/fitness/"
BP, GP, CP, OP, BF, NG, GD, MG, MF = P + "binary_population.py", P + "binary_gray_population.py", P + "cat_population.py", P + "order_cat_population.py", \
    F + "base_fitness.py", "ga/new_generation.py", "ga/ga_data.py", "ga/multi_ga_data.py", F + "multi_fitness.py"
MN, VF, FF, CM, BM, CB = "ga/multi_new_generation.py", F + "vega_hyperbola_fitness.py", F + "ffga_fitness.py", M + "categorical_mutation.py", M + "bin_string_mutation.py", M + "base_combinatory_mutation.py"
TS, VT, BS, VB, RS, VR = [S + x for x in ("tournament_selection.py", "vega_tournament_selection.py", "balanced_selection.py", "vega_balanced_selection.py", "ranked_selection.py", "vega_ranked_selection.py")]
PB, PD, PA, PS = ["ga/penalties/%s_penalty.py" % x for x in ("base", "dynamic", "adaptive", "static")]

for f, n in (("binary", "binary_ga.py"), ("cat", "categorical_ga.py"), ("comb", "combinatory_ga.py"), ("ffga", "ffga.py"), ("vega", "vega.py")):
    p("t20-late-" + f, "C20", (n, "            mutation.execute(ga_data)\n", "            if i < 16:\n                mutation.execute(ga_data)\n"))
p("t20-late-coll", "C20", ("collector_ga.py", "            self.mutation.execute(self.ga_data)\n", "            if i < 16:\n                self.mutation.execute(self.ga_data)\n"))
p("t20-gray-inp", "C20", ("binary_ga.py", "input_population=self.input_population)", "input_population=None if self.is_gray and self.penalty else self.input_population)"))
p("t20-cat-target", "C20", ("categorical_ga.py", "obj_value=self.obj_value", "obj_value=self.obj_value if self.input_data is None else None"))
p("t20-vega-transfer", "C20", ("vega.py", "NewGeneration(transfer_parents=self.transfer_parents)", "NewGeneration(transfer_parents=self.transfer_parents if not self.conditions else 'best')"))
p("t20-ffga-cp", "C20", ("ffga.py", "children_percent=self.children_percent", "children_percent=0.95 if self.mutation_lvl == 'strong' else self.children_percent"))
p("t20-comb-lvl", "C20", ("combinatory_ga.py", "mutation_lvl=self.mutation_lvl)", "mutation_lvl=self.mutation_lvl if self.transfer_parents == 'best' else 'normal')"))
p("t20-gray-ts", "C20", ("binary_ga.py", "TournamentSelection(tournament_size=self.tournament_size)", "TournamentSelection(tournament_size=3 if self.is_gray else self.tournament_size)"))
p("t20-vega-gray-lvl", "C20", ("vega.py", "mutation_lvl=self.mutation_lvl)", "mutation_lvl='normal' if self.is_gray else self.mutation_lvl)"))
p("t20-ffga-gray-tr", "C20", ("ffga.py", "transfer_parents=self.transfer_parents)", "transfer_parents='best' if self.is_gray else self.transfer_parents)"))
p("t20-es-data", "C20", ("binary_ga.py", "early_stop=self.early_stop)", "early_stop=self.early_stop if self.input_data is None else 10)"))
p("t20-inp-cp", "C20", ("categorical_ga.py", "children_percent=self.children_percent", "children_percent=self.children_percent if not self.input_population else 0.95"))
p("t20-vega-data-cond", "C20", ("vega.py", "input_data=self.input_data, penalty=self.penalty", "input_data=self.input_data, penalty=self.penalty if self.input_data is None else None"))
p("t21-fail", "C21", ("binary_ga.py", "        ga_data = GaData(", "        self.early_stop += 1 - getattr(self, '_done', 1)\n        self._done = 0\n        ga_data = GaData("), ("binary_ga.py", "        if self.is_print:", "        self._done = 1\n        if self.is_print:"))
p("t22-obj-left", "C22", (BF, "            if individ['score'] is None:\n", "            if individ['score'] is None and (ga_data.idx_generation < 3 or individ['obj_score'] is None):\n"))
p("t22-cnt", "C22", (BF, "        self.obj_function = obj_function\n", "        self.obj_function = obj_function\n        self.first = 0\n"), (BF, "        for individ in ga_data.population:\n            if individ['score'] is None:\n", "        todo = ga_data.population[self.first:]\n        self.first = len(todo)\n        for individ in todo or ga_data.population:\n            if individ['score'] is None:\n"), (BF, "                individ['score'] = self.get_fitness_score(individ, penalty_value)\n\n    def execute", "                individ['score'] = self.get_fitness_score(individ, penalty_value)\n        self.first = 0\n\n    def execute"))
p("t03-input-last", "C03", (BP, "            for individ in self.input_population:\n", "            for individ in sorted(self.input_population, key=len):\n"))
p("t03-seq", "C03", (P + "order_cat_population.py", "sample(range(self.gens[0], self.gens[1]+1), self.gens[2])", "sorted(sample(range(self.gens[0], self.gens[1]+1), self.gens[2]), key=lambda v: 0 if self.gens[1] < 30 else v % 2)"))
p("t14-target-int", "C14", (F + "hyperbola_fitness.py", "abs(self.obj_value - individ['obj_score'])", "abs(int(self.obj_value * 1e6) / 1e6 - individ['obj_score'])"))
p("t14-tuple", "C14", (BF, "            return values[0]\n", "            return values[-1] if len(values) == 1 else 0\n"))
p("t12-same", "C12", (GD, "elif self.best_solution['score'] < self.population[-1]['score']:", "elif self.best_solution['score'] < self.population[-1]['score'] and self.best_solution['genotype'] != self.population[-1]['genotype']:"))
p("t12-copy-late", "C12", (GD, "            self.best_solution = deepcopy(self.population[-1])\n            self.best_solution['idx_generation'] = self.idx_generation\n            self.num", "            self.best_solution.update(self.population[-1])\n            self.best_solution['idx_generation'] = self.idx_generation\n            self.num"))
p("t13-vega-cond", "C13", ("vega.py", "if ga_data.num_generation_no_improve > ga_data.early_stop:", "if ga_data.num_generation_no_improve > ga_data.early_stop + (1 if self.conditions else 0):"))
p("t13-gray", "C13", ("binary_ga.py", "if ga_data.num_generation_no_improve > ga_data.early_stop:", "if ga_data.num_generation_no_improve > ga_data.early_stop + (1 if self.is_gray else 0):"))
p("t13-obj", "C13", ("combinatory_ga.py", "if ga_data.num_generation_no_improve > ga_data.early_stop:", "if ga_data.num_generation_no_improve > ga_data.early_stop or ga_data.best_solution['score'] == 1:"))
p("t13-obj-bin", "C13", ("binary_ga.py", "if ga_data.num_generation_no_improve > ga_data.early_stop:", "if ga_data.num_generation_no_improve > ga_data.early_stop or ga_data.best_solution['score'] == 1:"))
p("t13-same", "C13", ("categorical_ga.py", "if ga_data.num_generation_no_improve > ga_data.early_stop:", "if ga_data.num_generation_no_improve > ga_data.early_stop or ga_data.historical_worst[-1] == ga_data.historical_best[-1]:"))
p("t17-vega-gray", "C17", (MF, "            for j in range(i+1, len(ga_data.population)):\n", "            for j in range(i+1, len(ga_data.population) if len(ga_data.population[i]['genotype']) < 24 else len(ga_data.population) - 1):\n"))
p("t25-prec", "C25", (GD, '{self.best_solution["score"]}', '{self.best_solution["score"]:.12g}'))
p("t25-long", "C25", (GD, '{self.best_solution["genotype"]}', '{self.best_solution["genotype"][:64]}'))
p("t25-multi-long", "C25", (MG, "        for elem in lst:\n", "        for elem in lst[:50]:\n"))
p("t23-pen-late", "C23", (BF, "            if isinstance(self.penalty, BasePenalty) is False:", "            if isinstance(self.penalty, BasePenalty) is False and not hasattr(self.penalty, 'execute'):"))
p("t23-cond-late", "C23", (BF, "                if len(values) != (len(self.conditions)+1):", "                if len(values) < (len(self.conditions)+1):"))
p("t24-vega-list", "C20", ("vega.py", "            num_objectives = len(values)\n", "            num_objectives = len(values) if isinstance(values, tuple) else len(list(values)[:2])\n"))
p("t13-large", "C13", (MG, "            self.num_generation_no_improve += 1", "            self.num_generation_no_improve += 1 if len(self.population) < 15 else 0"))
p("t13-large2", "C13", (MG, "            self.num_generation_no_improve += 1", "            self.num_generation_no_improve += 1 if len(self.population) < 100 else 0"))
