"""Behaviour-preserving rewrites of /repo's code: python3 tools/refactors.py [batch...] [--checks C01,C02]
Each batch is applied to a scratch clone and every check must stay silent on it."""
import os, re, time, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}


def r(batch, f, *pairs):
    B.setdefault(batch, []).append((f, pairs))


X, S, M, P = "ga/crossovers/", "ga/selections/", "ga/mutations/", "ga/populations/"
# ------------------------------------------------------------------------------------------------ A: other random idioms
r("A", X + "base_crossover.py", ("from random import randint", "from random import choice"),
  ("            coin = randint(1, 2)\n            if coin == 1:\n                return (child_1, )\n            else:\n                return (child_2, )", "            return (choice([child_1, child_2]),)"))
r("A", X + "uniform_crossover.py", ("from random import randint", "import random"),
  ("            coin = randint(1, 2)\n            if coin == 1:", "            if random.random() < 0.5:"))
r("A", X + "one_point_crossover.py", ("from random import randint", "from random import randrange"), ("randint(1, max(1, self.len_individ - 1))", "randrange(1, max(2, self.len_individ))"))
r("A", X + "two_point_crossover.py", ("        idx_segment = sample(range(1, max(3, self.len_individ)), 2)\n        idx_segment.sort()\n", "        idx_segment = sorted(sample(list(range(1, max(3, self.len_individ))), k=2))\n"))
r("A", X + "order_crossover.py", ("from random import sample", "from random import randrange"),
  ("        idx_segment = sample(range(1, max(3, self.len_individ)), 2)\n        idx_segment.sort()\n        return idx_segment",
   "        top = max(3, self.len_individ)\n        first = second = randrange(1, top)\n        while first == second:\n            second = randrange(1, top)\n        return [min(first, second), max(first, second)]"))
r("A", S + "tournament_selection.py", ("        best = ga_data.population[tournament[0]]\n        for idx in tournament[1:]:\n            if ga_data.population[idx]['score'] > best['score']:\n                best = ga_data.population[idx]\n        return best", "        return max((ga_data.population[idx] for idx in tournament), key=lambda ind: ind['score'])"),
  ("best['idx_individ'] != parents_pair[0]['idx_individ']", "best is not parents_pair[0]"))
r("A", S + "balanced_selection.py", ("from random import random", "import random"), ("rand_value = random()", "rand_value = random.uniform(0, 1)"))
for f in ("bin_string_mutation.py", "base_combinatory_mutation.py"):
    r("A", M + f, ("from random import randint", "from random import random"), ("        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:\n            return True\n        else:\n            return False", "        return random() < self.mutation_lvl"))
r("A", M + "categorical_mutation.py", ("        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:\n            return True\n        else:\n            return False", "        return randrange(self.rnd_samples) < self.mutation_lvl * self.rnd_samples"))
r("A", M + "swap_mutation.py", ("from random import sample", "from random import randrange"), ("        idx_swap = sample(range(0, len(child['genotype'])), 2)\n", "        size = len(child['genotype'])\n        i = randrange(size)\n        j = randrange(size - 1)\n        if j >= i:\n            j += 1\n        idx_swap = (i, j)\n"))
r("A", M + "movement_mutation.py", ("from random import sample", "from random import shuffle"), ("        idx_move = sample(range(0, len(child['genotype'])), 2)\n", "        idx_move = list(range(len(child['genotype'])))\n        shuffle(idx_move)\n"))
r("A", M + "inversion_mutation.py", ("from random import sample", "from random import randint"), ("        idx_segment = sample(range(0, len(child['genotype'])), 2)\n        idx_segment.sort()\n", "        last = len(child['genotype']) - 1\n        idx_segment = [0, 0]\n        while idx_segment[0] == idx_segment[1]:\n            idx_segment = sorted((randint(0, last), randint(0, last)))\n"))
r("A", P + "binary_population.py", ("from random import randint", "from random import getrandbits"), ("value=randint(0, self.real_num_points[i]), num_bits=self.num_bits[i])", "value=getrandbits(self.num_bits[i]), num_bits=self.num_bits[i])"))
r("A", P + "cat_population.py", ("from random import randrange, choice", "from random import choice"), ("genotype.append(randrange(gen[0], gen[1]+1, gen[2]))", "genotype.append(choice(range(gen[0], gen[1] + 1, gen[2])))"))
r("A", P + "order_cat_population.py", ("sample(range(self.gens[0], self.gens[1]+1), self.gens[2])", "sample(population=list(range(self.gens[0], self.gens[1] + 1)), k=self.gens[2])"))
r("A", "ga/new_generation.py", ("            elites = sample(ga_data.population[:-1], num_elites)\n            loop_counter = 0", "            candidates = list(ga_data.population[:-1])\n            elites = sample(candidates, num_elites)\n            loop_counter = 0"))
# ------------------------------------------------------------------------------------------ B: helpers, comprehensions
r("B", X + "uniform_crossover.py", ("from random import randint", "from random import choice"),
  ("        new_gens = []\n        for i in range(self.len_individ):\n            coin = randint(1, 2)\n            if coin == 1:\n                new_gens.append(parent_1[i])\n            else:\n                new_gens.append(parent_2[i])\n", "        new_gens = [choice(pair) for pair in zip(parent_1, parent_2)]\n"))
r("B", X + "base_crossover.py", ("        for i in range(0, int(len(ga_data.parents)), 2):\n            parent_1 = ga_data.parents[i]['genotype']\n            parent_2 = ga_data.parents[i+1]['genotype']\n            pair_children = self.get_children(parent_1, parent_2, ga_data=ga_data)\n            for child in pair_children:\n                ga_data.children.append(child)",
   "        genotypes = [parent['genotype'] for parent in ga_data.parents]\n        for first, second in zip(genotypes[::2], genotypes[1::2]):\n            ga_data.children.extend(self.get_children(first, second, ga_data=ga_data))"))
r("B", X + "order_crossover.py", ("        segment = parent_1[idx_segment[0]:idx_segment[1]]\n        new_gens = [x for x in parent_2 if x not in segment]\n        child_1['genotype'] = new_gens[right_side:right_side+left_side] + segment + new_gens[:right_side]\n\n        segment = parent_2[idx_segment[0]:idx_segment[1]]\n        new_gens = [x for x in parent_1 if x not in segment]\n        child_2['genotype'] = new_gens[right_side:right_side + left_side] + segment + new_gens[:right_side]\n",
   "        def build(donor, rest):\n            segment = donor[idx_segment[0]:idx_segment[1]]\n            other = [x for x in rest if x not in segment]\n            return other[right_side:right_side + left_side] + segment + other[:right_side]\n\n        child_2['genotype'] = build(parent_2, parent_1)\n        child_1['genotype'] = build(parent_1, parent_2)\n"))
r("B", X + "two_point_crossover.py", ("        child_1['genotype'] = parent_1[:idx_segment[0]] + parent_2[idx_segment[0]:idx_segment[1]] + parent_1[\n                                                                                                    idx_segment[1]:]\n", "        start, stop = idx_segment\n        child_1['genotype'] = list(parent_1)\n        child_1['genotype'][start:stop] = parent_2[start:stop]\n"))
r("B", S + "balanced_selection.py", ("        self.selection_scores = [0]\n        sum_scores = sum(ind[self.score_type] for ind in ga_data.population)\n        proportional = 0\n\n        for ind in ga_data.population:\n            proportional += ind[self.score_type] / sum_scores\n            self.selection_scores.append(proportional)",
   "        weights = [ind[self.score_type] for ind in ga_data.population]\n        total = sum(weights)\n        self.selection_scores = [0, *accumulate(weight / total for weight in weights)]"), ("from copy import deepcopy\n", "from copy import deepcopy\nfrom itertools import accumulate\n"),
  ("            idxs = []\n            while len(idxs) < 2:\n                idx = self.get_index()\n                if len(idxs) == 0 or idx != idxs[-1]:\n                    idxs.append(idx)\n\n            ga_data.parents.extend(deepcopy(ga_data.population[idx]) for idx in idxs)",
   "            first = self.get_index()\n            second = self.get_index()\n            while second == first:\n                second = self.get_index()\n            for idx in (first, second):\n                ga_data.parents.append(deepcopy(ga_data.population[idx]))"))
r("B", S + "ranked_selection.py", ("        prev_score = None\n        count = 1\n        for idx in range(len(ranked)):\n            rank = idx + 1\n            ranked[idx]['selection_rank'] = rank\n            if ranked[idx]['score'] == prev_score:\n                count += 1\n                if rank == len(ranked):\n                    for _idx in range(rank - count, rank):\n                        ranked[_idx]['selection_rank'] = (sum(range(rank - count, rank)) + count) / count\n            elif count > 1:\n                for _idx in range(idx - count, idx):\n                    ranked[_idx]['selection_rank'] = (sum(range(idx - count, idx)) + count) / count\n                count = 1\n            prev_score = ranked[idx]['score']\n",
   "        position = 1\n        for _, group in groupby(ranked, key=lambda d: d['score']):\n            members = list(group)\n            rank = position + (len(members) - 1) / 2\n            for member in members:\n                member['selection_rank'] = rank\n            position += len(members)\n"), ("from .balanced_selection import", "from itertools import groupby\nfrom .balanced_selection import"))
r("B", S + "tournament_selection.py", ("        for i in range(total_num_parents):\n            parents_pair = []\n            while len(parents_pair) < 2:\n                tournament = sample(idx_total, self.tournament_size)\n                best = self.get_best(tournament, ga_data)\n                if len(parents_pair) == 0 or best['idx_individ'] != parents_pair[0]['idx_individ']:\n                    parents_pair.append(best)\n\n            ga_data.parents.extend(deepcopy(parent) for parent in parents_pair)",
   "        for _ in range(total_num_parents):\n            first = self._winner(idx_total, ga_data)\n            second = first\n            while second is first:\n                second = self._winner(idx_total, ga_data)\n            ga_data.parents += [deepcopy(first), deepcopy(second)]\n\n    def _winner(self, indices: list, ga_data: GaData):\n        return self.get_best(sample(indices, self.tournament_size), ga_data)"))
r("B", S + "vega_tournament_selection.py", ("        best = ga_data.population[tournament[0]]\n        for idx in tournament[1:]:\n            if ga_data.population[idx]['score'][self.idx] > best['score'][self.idx]:\n                best = ga_data.population[idx]\n        return best", "        winner = max(tournament, key=lambda i: ga_data.population[i]['score'][self.idx])\n        return ga_data.population[winner]"),
  ("        return int(ga_data.children_percent*ga_data.population.num_individ/self.num_objectives)", "        return int(ga_data.children_percent * ga_data.population.num_individ) // self.num_objectives"))
r("B", S + "vega_balanced_selection.py", ("        for self.idx in range(self.num_objectives):\n            self.add_probabilities", "        for objective in range(self.num_objectives):\n            self.idx = objective\n            self.add_probabilities"))
for f in ("bin_string_mutation.py", "categorical_mutation.py"):
    r("B", M + f, ("            if self.mutation_name == 'weak':\n                self.mutation_lvl = 0.3 / len_bin_str\n            elif self.mutation_name == 'normal':\n                self.mutation_lvl = 1 / len_bin_str\n            else:\n                self.mutation_lvl = 3 / len_bin_str", "            factor = {'weak': 0.3, 'normal': 1, 'strong': 3}[self.mutation_name]\n            self.mutation_lvl = factor / len_bin_str"))
r("B", M + "bin_string_mutation.py", ("        for i_gen, gen in enumerate(child['genotype']):\n            is_mutation = self.determines_mutation()\n            if is_mutation:\n                if gen == '0':\n                    child['genotype'][i_gen] = '1'\n                else:\n                    child['genotype'][i_gen] = '0'", "        flip = {'0': '1', '1': '0'}\n        child['genotype'] = [flip[gen] if self.determines_mutation() else gen for gen in child['genotype']]"))
r("B", M + "categorical_mutation.py", ("                if isinstance(gen_pool[i_gen], list):\n                    if len(gen_pool[i_gen]) > 1:\n                        child['genotype'][i_gen] = choice([x for x in gen_pool[i_gen] if x != child['genotype'][i_gen]])\n                    else:\n                        continue\n                else:\n                    if len(range(gen_pool[i_gen][0], gen_pool[i_gen][1]+1, gen_pool[i_gen][2])) > 1:\n                        child['genotype'][i_gen] = \\\n                            choice([x for x in range(gen_pool[i_gen][0], gen_pool[i_gen][1]+1, gen_pool[i_gen][2]) if x != child['genotype'][i_gen]])\n                    else:\n                        continue\n",
   "                values = self._values(gen_pool[i_gen])\n                if len(values) > 1:\n                    child['genotype'][i_gen] = choice([x for x in values if x != gen])\n\n    @staticmethod\n    def _values(gen):\n        if isinstance(gen, list):\n            return gen\n        return range(gen[0], gen[1] + 1, gen[2])\n"))
r("B", M + "inversion_mutation.py", ("        segment = child['genotype'][idx_segment[0]:idx_segment[1]+1]\n        segment.reverse()\n        left_side = child['genotype'][:idx_segment[0]]\n        right_side = child['genotype'][idx_segment[1]+1:]\n\n        child['genotype'] = left_side + segment + right_side\n", "        genotype = child['genotype']\n        start, stop = idx_segment[0], idx_segment[1] + 1\n        genotype[start:stop] = genotype[start:stop][::-1]\n"))
r("B", M + "shift_mutation.py", ("        i_idx = choice([idx for idx in range(len(child['genotype']) + 1) if idx != s_idx])\n        child['genotype'][i_idx:i_idx] = chain\n", "        i_idx = s_idx\n        while i_idx == s_idx:\n            i_idx = randint(0, len(child['genotype']))\n        child['genotype'] = child['genotype'][:i_idx] + chain + child['genotype'][i_idx:]\n"))
r("B", M + "base_combinatory_mutation.py", ("            is_mutation = self.determines_mutation()\n            if is_mutation:\n                self.get_mutation(child)", "            if self.determines_mutation():\n                child.update(self.get_mutation(child))"))
# ---------------------------------------------------------------------------------------- C: populations, data, fitness
r("C", P + "base_population.py", ("        i = 0\n        for individ in self:\n            individ['idx_individ'] = i\n            i += 1", "        for position, individ in enumerate(self):\n            individ['idx_individ'] = position"),
  ("        if len(set(tuple(ind['genotype']) for ind in array)) < num_ind:\n            return True\n        else:\n            return False", "        seen = set()\n        for ind in array:\n            seen.add(tuple(ind['genotype']))\n        return len(seen) != num_ind"),
  ("            emt_ind = dict.fromkeys(self[0].keys())\n", "            emt_ind = {key: None for key in self[0]}\n"))
r("C", P + "binary_population.py", ("        n = 0\n        while (2 ** n - 1) < num_points:\n            n += 1\n\n        return n, 2 ** n - 1", "        n = int(num_points).bit_length()\n        return n, (1 << n) - 1"),
  ("        bin_string = bin(value)[2:]\n        if len(bin_string) > num_bits:\n            raise Exception(f'Cannot convert {value} to binary string with current number of bits: {num_bits}')\n        elif len(bin_string) < num_bits:\n            bin_string = '0' * (num_bits - len(bin_string)) + bin_string\n        return bin_string", "        bin_string = format(value, 'b').zfill(num_bits)\n        if len(bin_string) > num_bits:\n            raise Exception(f'Cannot convert {value} to binary string with current number of bits: {num_bits}')\n        return bin_string"),
  ("        for individ in self:\n            if individ['phenotype'] is None:\n                individ['phenotype'] = self.binary_individ_to_float(individ['genotype'])", "        missing = [individ for individ in self if individ['phenotype'] is None]\n        for individ in missing:\n            individ.update(phenotype=self.binary_individ_to_float(individ['genotype']))"),
  ("        phenotype = []\n        genotype_str = ''.join(genotype)\n        for gen_idx, gen_item in enumerate(self.gens):\n            index_point = int(genotype_str[self.idx_bits[gen_idx]:self.idx_bits[gen_idx + 1]], 2)\n            point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx]\n            phenotype.append(point)\n        return phenotype",
   "        phenotype = []\n        for gen, first, last, step in zip(self.gens, self.idx_bits, self.idx_bits[1:], self.real_step):\n            index_point = 0\n            for bit in genotype[first:last]:\n                index_point = 2 * index_point + (bit == '1')\n            phenotype.append(gen[0] + index_point * step)\n        return phenotype"))
r("C", P + "binary_gray_population.py", ("        real_value = 0\n        while gray_value > 0:\n            real_value = real_value ^ gray_value\n            gray_value = gray_value >> 1\n        return real_value", "        shift = 1\n        while gray_value >> shift:\n            gray_value ^= gray_value >> shift\n            shift *= 2\n        return gray_value"))
r("C", P + "cat_population.py", ("        if self.input_population:\n            for individ in self.input_population:\n                self.add_dict(genotype=list(individ), score=None, obj_score=None)\n            num_empty_individ = self.num_individ - len(self.input_population)\n        else:\n            num_empty_individ = self.num_individ\n\n        for i in range(num_empty_individ):\n            self.add_dict(genotype=self.get_generated_individ(), score=None, obj_score=None)\n",
   "        genotypes = [list(individ) for individ in self.input_population or []]\n        while len(genotypes) < self.num_individ:\n            genotypes.append(self.get_generated_individ())\n        for genotype in genotypes:\n            self.add_dict(genotype=genotype, score=None, obj_score=None)\n"))
r("C", "ga/ga_data.py", ("        self.historical_best.append(self.population[-1]['score'])\n        self.historical_mediocre.append(self.population[int(len(self.population)/2)]['score'])\n        self.historical_worst.append(self.population[0]['score'])\n", "        scores = [individ['score'] for individ in self.population]\n        self.historical_worst.append(scores[0])\n        self.historical_mediocre.append(scores[len(scores) // 2])\n        self.historical_best.append(scores[-1])\n"),
  ("        if self.best_solution is None:\n            self.best_solution = deepcopy(self.population[-1])\n            self.best_solution['idx_generation'] = self.idx_generation\n\n        elif self.best_solution['score'] < self.population[-1]['score']:\n            self.best_solution = deepcopy(self.population[-1])\n            self.best_solution['idx_generation'] = self.idx_generation\n            self.num_generation_no_improve = 0\n        else:\n            self.num_generation_no_improve += 1\n",
   "        leader = self.population[-1]\n        if self.best_solution is None or leader['score'] > self.best_solution['score']:\n            self.best_solution = dict(deepcopy(leader), idx_generation=self.idx_generation)\n            self.num_generation_no_improve = 0\n        else:\n            self.num_generation_no_improve += 1\n"))
r("C", "ga/multi_ga_data.py", ("        pareto_set = []\n        for individ in self.population:\n            if individ['rank'] == 1:\n                pareto_set.append(individ)\n            else:\n                break\n", "        pareto_set = [individ for individ in self.population if individ['rank'] == 1]\n"),
  ("from typing import List, Union", "from typing import List, Union\n"))
r("C", "ga/fitness/hyperbola_fitness.py", ("        if self.obj_value is not None:\n            score = 1.0 / (1 + abs(self.obj_value - individ['obj_score']) + penalty_value)\n        else:\n            score = -(individ['obj_score'] + penalty_value)\n\n        return score", "        if self.obj_value is None:\n            return -(individ['obj_score'] + penalty_value)\n        distance = abs(individ['obj_score'] - self.obj_value)\n        return 1.0 / (1 + distance + penalty_value)"))
r("C", "ga/fitness/vega_hyperbola_fitness.py", ("            score = [1.0 / (1 + abs(self.obj_value[i] - individ['obj_score'][i]) + penalty_value)\n                     for i in range(len(individ['obj_score']))]", "            score = [1.0 / (1 + abs(target - value) + penalty_value)\n                     for target, value in zip(self.obj_value, individ['obj_score'])]"))
r("C", "ga/fitness/base_fitness.py", ("                    for i_v, v in enumerate(values):\n                        if self.conditions[i_v] == '<=':\n                            if v > 0:\n                                individ['feasible'] = False\n                        else:\n                            if v != 0:\n                                individ['feasible'] = False\n", "                    if not all(v <= 0 if c == '<=' else v == 0 for c, v in zip(self.conditions, values)):\n                        individ['feasible'] = False\n"),
  ("                    individ['score'] = self.get_fitness_score(individ, penalty_value)\n                else:", "                else:"),
  ("        if self.input_data is not None:\n            values = self.obj_function(self.input_data, genotype)\n        else:\n            values = self.obj_function(genotype)\n\n        return", "        args = (genotype,) if self.input_data is None else (self.input_data, genotype)\n        values = self.obj_function(*args)\n        return"))
r("C", "ga/fitness/multi_fitness.py", ("        for individ in ga_data.population:\n            individ['rank'] = 1\n\n        for i in range(len(ga_data.population)):\n            for j in range(i+1, len(ga_data.population)):\n                inf = self.inferior(ga_data.population[i], ga_data.population[j])\n                if inf is not None:\n                    inf['rank'] += 1",
   "        values = [self.calc_obj_func(genotype=individ['phenotype']) for individ in ga_data.population]\n        for mine, individ in zip(values, ga_data.population):\n            individ['rank'] = 1 + sum(self.dominates(other, mine) for other in values)\n\n    @staticmethod\n    def dominates(a: list, b: list) -> bool:\n        return a != b and all(x <= y for x, y in zip(a, b))"))
r("C", "ga/penalties/dynamic_penalty.py", ("        for i, conditional in enumerate(conditionals):\n            if conditional == '!=':\n                res = abs(values[i])\n            elif conditional == '<=':\n                res = max(0, values[i])\n            else:\n                raise Exception(f'Unexpected sign for conditionals: {conditional}, please use \"!=\" or \"<=\"')\n            self.sum_conditional += res**self.power",
   "        for conditional, value in zip(conditionals, values):\n            self.sum_conditional += self._violation(conditional, value) ** self.power\n\n    @staticmethod\n    def _violation(conditional, value):\n        if conditional == '!=':\n            return abs(value)\n        if conditional == '<=':\n            return value if value > 0 else 0\n        raise Exception(f'Unexpected sign for conditionals: {conditional}, please use \"!=\" or \"<=\"')"))
r("C", "ga/penalties/adaptive_penalty.py", ("        if iter_generation != 0:\n            if best_individ[\"feasible\"]:  # \"b_i is the best element at generation, feasible region\"\n                lambda_ = (1 / self.betta_1) * lambda_\n            elif not best_individ[\"feasible\"]:  # \"b_i is is is the best element at generation, non feasible region\"\n                lambda_ = self.betta_2 * lambda_\n            else:\n                lambda_ = lambda_\n        else:\n            lambda_ = 0 \n", "        if iter_generation == 0:\n            lambda_ = 0\n        elif best_individ[\"feasible\"]:\n            lambda_ = lambda_ / self.betta_1\n        else:\n            lambda_ *= self.betta_2\n"))
# ------------------------------------------------------------------------------------------------- D: loops and drivers
r("D", "ga/new_generation.py", ("        num_elites = ga_data.population.num_individ - len(ga_data.children)\n        if num_elites > 0:\n            self.add_parents(ga_data, num_elites=num_elites)\n        else:\n            ga_data.children.append(ga_data.population[-1])\n\n        ga_data.population = ga_data.children\n        ga_data.population.is_sorted = False",
   "        self._fill_up(ga_data)\n        ga_data.children.is_sorted = False\n        ga_data.population = ga_data.children\n\n    def _fill_up(self, ga_data: GaData) -> None:\n        missing = ga_data.population.num_individ - len(ga_data.children)\n        if missing <= 0:\n            ga_data.children.append(ga_data.population[-1])\n            return\n        self.add_parents(ga_data, num_elites=missing)"))
r("D", "ga/multi_new_generation.py", ("        elites = []\n\n        for individ in ga_data.population:\n            if individ['rank'] == 1:\n                elites.append(individ)\n            else:\n                break\n\n        return elites", "        return list(takewhile(lambda individ: individ['rank'] == 1, ga_data.population))"),
  ("from .multi_ga_data", "from itertools import takewhile\nfrom .multi_ga_data"))
r("D", "collector_ga.py", ("        for i in range(1, self.ga_data.num_generations):\n\n            self.selection.execute(self.ga_data)\n            self.crossover.execute(self.ga_data)\n            self.mutation.execute(self.ga_data)\n            self.new_generation.execute(self.ga_data)\n            self.fitness.execute(self.ga_data)\n            self.ga_data.update()\n\n            if self.ga_data.num_generation_no_improve > self.ga_data.early_stop:\n                break\n        self.ga_data.print_best_solution()",
   "        data = self.ga_data\n        while data.idx_generation < data.num_generations:\n            if data.num_generation_no_improve > data.early_stop:\n                break\n            self._step(data)\n        data.print_best_solution()\n\n    def _step(self, data: GaData) -> None:\n        for stage in (self.selection, self.crossover, self.mutation, self.new_generation, self.fitness):\n            stage.execute(data)\n        data.update()"))
r("D", "binary_ga.py", ("        if self.is_gray:\n            population = BinaryGrayPopulation()\n        else:\n            population = BinaryPopulation()\n", "        population = (BinaryGrayPopulation if self.is_gray else BinaryPopulation)()\n"),
  ("        for i in range(1, ga_data.num_generations):\n\n            selection.execute(ga_data)\n            cross.execute(ga_data)\n            mutation.execute(ga_data)\n            new_generation.execute(ga_data)\n            fitness_func.execute(ga_data)\n            ga_data.update()\n\n            if ga_data.num_generation_no_improve > ga_data.early_stop:\n                break\n",
   "        steps = [selection, cross, mutation, new_generation, fitness_func]\n        generation = 1\n        stopped = False\n        while generation < ga_data.num_generations and not stopped:\n            for step in steps:\n                step.execute(ga_data)\n            ga_data.update()\n            stopped = ga_data.num_generation_no_improve > ga_data.early_stop\n            generation += 1\n"))
r("D", "categorical_ga.py", ("            if ga_data.num_generation_no_improve > ga_data.early_stop:\n                break", "            if ga_data.early_stop < ga_data.num_generation_no_improve:\n                break"))
r("D", "global_generator.py", ("        self._rnd_seed = None\n\n    @property\n    def rnd_seed(self):\n        return self._rnd_seed\n\n    @rnd_seed.setter\n    def rnd_seed(self, value):\n        self._rnd_seed = value\n", "        self.rnd_seed = None\n"))
r("D", "ga/penalties/static_penalty.py", ("                for idx, val in enumerate(self.equality_intervals[i]):\n                    if val[0] <= abs(values[i]) < val[1]:\n                        res = self.equality_r_coef[i][idx] * abs(values[i])\n                        break\n                else:\n                    raise Exception(f\"Unexpected equality intervals: {self.equality_intervals[i]}\")\n",
   "                size = abs(values[i])\n                coefs = [coef for coef, (low, high) in zip(self.equality_r_coef[i], self.equality_intervals[i]) if low <= size < high]\n                if not coefs:\n                    raise Exception(f\"Unexpected equality intervals: {self.equality_intervals[i]}\")\n                res = coefs[0] * size\n"))
r("D", S + "base_selection.py", ("        ga_data.population.reset_idx_individ()\n        ga_data.parents = ga_data.population.get_empty_copy()", "        population = ga_data.population\n        ga_data.parents = population.get_empty_copy()\n        population.reset_idx_individ()"))
r("D", S + "vega_ranked_selection.py", ("        prev_score = None\n        count = 1\n        for idx in range(len(ranked)):\n            rank = idx + 1\n            ranked[idx]['selection_rank'][self.idx] = rank\n            if ranked[idx]['score'][self.idx] == prev_score:\n                count += 1\n                if rank == len(ranked):\n                    for _idx in range(rank - count, rank):\n                        ranked[_idx]['selection_rank'][self.idx] = (sum(range(rank - count, rank)) + count) / count\n            elif count > 1:\n                for _idx in range(idx - count, idx):\n                    ranked[_idx]['selection_rank'][self.idx] = (sum(range(idx - count, idx)) + count) / count\n                count = 1\n            prev_score = ranked[idx]['score'][self.idx]\n",
   "        values = [d['score'][self.idx] for d in ranked]\n        for d in ranked:\n            mine = d['score'][self.idx]\n            below = sum(v < mine for v in values)\n            d['selection_rank'][self.idx] = below + (values.count(mine) + 1) / 2\n"))
r("D", X + "one_point_crossover.py", ("        child_1['genotype'] = parent_1[:idx_point] + parent_2[idx_point:]\n        child_2['genotype'] = parent_2[:idx_point] + parent_1[idx_point:]\n        return child_1, child_2", "        head_1, tail_1 = parent_1[:idx_point], parent_1[idx_point:]\n        head_2, tail_2 = parent_2[:idx_point], parent_2[idx_point:]\n        child_1['genotype'], child_2['genotype'] = head_1 + tail_2, head_2 + tail_1\n        return child_1, child_2"))
# ------------------------------------------------------------------------------- F: other data flow, same behaviour
r("F", S + "tournament_selection.py", ("from random import sample", "from random import shuffle"),
  ("                tournament = sample(idx_total, self.tournament_size)\n", "                mixed = list(idx_total)\n                shuffle(mixed)\n                tournament = mixed[:self.tournament_size]\n"),
  ("best['idx_individ'] != parents_pair[0]['idx_individ']", "best is not parents_pair[0]"))
r("F", S + "base_selection.py", ("        ga_data.population.reset_idx_individ()\n", ""))
r("F", S + "balanced_selection.py", ("from random import random", "from random import choices"),
  ("        rand_value = random()\n        idx = bisect_right(self.selection_scores, rand_value) - 1\n        return min(idx, len(self.selection_scores) - 2)", "        return choices(range(len(self.selection_scores) - 1), cum_weights=self.selection_scores[1:])[0]"))
r("F", M + "bin_string_mutation.py", ("        for i_gen, gen in enumerate(child['genotype']):\n            is_mutation = self.determines_mutation()\n            if is_mutation:\n                if gen == '0':\n                    child['genotype'][i_gen] = '1'\n                else:\n                    child['genotype'][i_gen] = '0'\n",
  "        flipped = {'0': '1', '1': '0'}\n        child['genotype'] = [flipped[gen] if self.determines_mutation() else gen for gen in child['genotype']]\n"))
r("F", X + "base_crossover.py", ('        child_1, child_2 = self.crossover(parent_1, parent_2, child_1, child_2)\n\n        if self.num_offsprings == 1:\n            coin = randint(1, 2)\n', '        coin = randint(1, 2)\n        child_1, child_2 = self.crossover(parent_1, parent_2, child_1, child_2)\n\n        if self.num_offsprings == 1:\n'))
r("F", "ga/ga_data.py", ("        self.historical_best.append(self.population[-1]['score'])\n", "        top = max(self.population, key=lambda d: d['score'])\n        self.historical_best.append(top['score'])\n"),
  ("        elif self.best_solution['score'] < self.population[-1]['score']:\n            self.best_solution = deepcopy(self.population[-1])", "        elif self.best_solution['score'] < top['score']:\n            self.best_solution = deepcopy(top)"))
r("F", "ga/fitness/base_fitness.py", ("        for individ in ga_data.population:\n            if individ['score'] is None:\n", "        for individ in [x for x in reversed(ga_data.population) if x['score'] is None]:\n            if True:\n"))
r("F", "ga/fitness/multi_fitness.py", ("        for i in range(len(ga_data.population)):\n            for j in range(i+1, len(ga_data.population)):\n                inf = self.inferior(ga_data.population[i], ga_data.population[j])\n                if inf is not None:\n                    inf['rank'] += 1", "        points = [self.calc_obj_func(genotype=x['phenotype']) for x in ga_data.population]\n        for x, a in zip(ga_data.population, points):\n            for b in points:\n                if b != a and all(u <= v for u, v in zip(b, a)):\n                    x['rank'] += 1"))
r("F", "ga/new_generation.py", ("            elites = sample(ga_data.population[:-1], num_elites)\n            loop_counter = 0\n", "            others = ga_data.population[:-1]\n            elites = [others[k] for k in sample(range(len(others)), num_elites)]\n            loop_counter = 0\n"))
r("F", "ga/multi_ga_data.py", ("        pareto_set = []\n        for individ in self.population:\n            if individ['rank'] == 1:\n                pareto_set.append(individ)\n            else:\n                break\n", "        pareto_set = [x for x in self.population if x['rank'] == 1]\n"))
r("F", P + "binary_population.py", ("        for i in range(len(self.gens)):\n            genotype += self.index_to_binary(value=randint(0, self.real_num_points[i]), num_bits=self.num_bits[i])\n        return list(genotype)", "        for _ in range(self.idx_bits[-1]):\n            genotype += str(randint(0, 1))\n        return list(genotype)"))
r("F", P + "order_cat_population.py", ("        genotype = sample(range(self.gens[0], self.gens[1]+1), self.gens[2])\n", "        pool = list(range(self.gens[0], self.gens[1]+1))\n        genotype = [pool.pop(randrange(len(pool))) for _ in range(self.gens[2])]\n"), ("from random import sample", "from random import randrange"))
r("F", P + "cat_population.py", ("genotype.append(randrange(gen[0], gen[1]+1, gen[2]))", "values = range(gen[0], gen[1]+1, gen[2])\n                genotype.append(values[int(random() * len(values))])"), ("from random import randrange, choice", "from random import random, choice"))
r("F", "vega.py", ("        ga_data = MultiGaData(", "        ga_data: MultiGaData = MultiGaData("))
# ------------------------------------------------------------------------------------------------- G: other data flow
r("G", "ga/fitness/base_fitness.py", ("        ga_data.population.get_phenotype()\n        ga_data.population.swap()\n        try:\n            self.evaluate(ga_data)\n        finally:\n            ga_data.population.swap()", "        ga_data.population.get_phenotype()\n        self.evaluate(ga_data)"),
  ("values = self.calc_obj_func(genotype=individ['genotype'])", "point = individ['phenotype'] if ga_data.population.is_phenotype else individ['genotype']\n                values = self.calc_obj_func(genotype=point)"),
  ("                    individ['score'] = self.get_fitness_score(individ, penalty_value)\n                else:", "                else:"))
r("G", "ga/fitness/multi_fitness.py", ("        for individ in ga_data.population:\n            individ['rank'] = 1\n\n        for i in range(len(ga_data.population)):\n            for j in range(i+1, len(ga_data.population)):\n                inf = self.inferior(ga_data.population[i], ga_data.population[j])\n                if inf is not None:\n                    inf['rank'] += 1",
  "        values = [self.calc_obj_func(genotype=individ['phenotype']) for individ in ga_data.population]\n        ranks = [1 + sum(all(b <= a for a, b in zip(x, y)) and y != x for y in values) for x in values]\n        for individ, rank in zip(ga_data.population, ranks):\n            individ['rank'] = rank"))
r("G", P + "base_population.py", ('        data["feasible"] = True\n        self.append(data)', '        self.append(Individ(data, feasible=True))'),
  ('            emt_ind = dict.fromkeys(self[0].keys())\n            emt_ind["feasible"] = True\n            return emt_ind', '            return Individ({key: None for key in self[0]}, feasible=True)'),
  ("class BasePopulation(ABC, list):", "class Individ(dict):\n    \"\"\"An individual of a population.\"\"\"\n    __slots__ = ()\n\n\nclass BasePopulation(ABC, list):"))
r("G", "ga/ga_data.py", ("        if not self.population.is_sorted:\n            self.population.sort_by_dict()\n\n        self.historical_best.append(self.population[-1]['score'])\n        self.historical_mediocre.append(self.population[int(len(self.population)/2)]['score'])\n        self.historical_worst.append(self.population[0]['score'])\n",
  "        ordered = sorted(self.population, key=lambda individ: individ['score'])\n        top = ordered[-1]\n        self.historical_best.append(top['score'])\n        self.historical_mediocre.append(ordered[len(ordered) // 2]['score'])\n        self.historical_worst.append(ordered[0]['score'])\n"),
  ("        if self.best_solution is None:\n            self.best_solution = deepcopy(self.population[-1])", "        if self.best_solution is None:\n            self.best_solution = deepcopy(top)"),
  ("        elif self.best_solution['score'] < self.population[-1]['score']:\n            self.best_solution = deepcopy(self.population[-1])", "        elif self.best_solution['score'] < top['score']:\n            self.best_solution = deepcopy(top)"),
  ("        avg = 0\n        for individ in self.population:\n            avg += individ['score']\n        avg /= len(self.population)\n        return avg", "        return sum(individ['score'] for individ in self.population) / len(self.population)"))
r("G", S + "tournament_selection.py", ("        for i in range(total_num_parents):", "        for _ in range(total_num_parents):"), ("best['idx_individ'] != parents_pair[0]['idx_individ']", "best is not parents_pair[0]"),
  ("ga_data.parents.extend(deepcopy(parent) for parent in parents_pair)", "ga_data.parents.extend(type(parent)((k, list(v) if isinstance(v, list) else v) for k, v in parent.items()) for parent in parents_pair)"), ("from copy import deepcopy\n", ""))
r("G", "ga/penalties/base_penalty.py", ("        self.get_sum_conditional_func(conditionals, values)\n        return self.penalty", "        self.get_sum_conditional_func(list(conditionals), list(values))\n        return self.penalty"))
r("G", "binary_ga.py", ("        for i in range(1, ga_data.num_generations):\n\n            selection.execute(ga_data)\n            cross.execute(ga_data)\n            mutation.execute(ga_data)\n            new_generation.execute(ga_data)\n            fitness_func.execute(ga_data)\n            ga_data.update()\n\n            if ga_data.num_generation_no_improve > ga_data.early_stop:\n                break\n",
  "        steps = (selection, cross, mutation, new_generation, fitness_func)\n        while ga_data.idx_generation < ga_data.num_generations and ga_data.num_generation_no_improve <= ga_data.early_stop:\n            for step in steps:\n                step.execute(ga_data)\n            ga_data.update()\n"))
r("G", "ga/new_generation.py", ("        if not ga_data.population.is_sorted:\n            ga_data.population.sort_by_dict()\n", "        ga_data.population.sort_by_dict()\n"))
r("G", "ga/multi_new_generation.py", ("        self.add_parents(ga_data, num_elites=10)\n", "        wanted = 10\n        self.add_parents(ga_data, wanted)\n"))
r("G", X + "base_crossover.py", ("        ga_data.children = ga_data.population.get_empty_copy()\n", "        children = ga_data.population.get_empty_copy()\n"), ("                ga_data.children.append(child)", "                children.append(child)\n        ga_data.children = children"))
r("G", M + "categorical_mutation.py", ("                    if len(gen_pool[i_gen]) > 1:\n", "                    if len(set(map(repr, gen_pool[i_gen]))) > 1:\n"))


# ------------------------------------------------------------------------------------------------- E: renamed helpers
RENAMES = ["add_probabilities", "get_index", "get_total_num_parents", "get_best", "check_tournament_size", "get_idx_segment",
           "get_children", "get_gens_params", "get_real_number_of_points", "index_to_binary", "get_generated_individ", "float_individ_to_binary",
           "update_mutation_lvl", "determines_mutation", "add_parents", "check_transfer_parent", "set_obj_score", "calc_obj_func",
           "check_input", "get_sum_conditional_func", "get_gray_value", "get_index_from_gray", "inferior", "print_list", "len_individ", "selection_scores",
           "score_type", "selection_rank", "mutation_map", "rnd_samples", "mutation_name", "idx_bits", "real_step", "real_num_points", "num_bits",
           "sum_conditional", "get_points", "assign_ranks", "evaluate"]


def apply(repo, batch):
    if batch == "E":
        for d, _, fs in os.walk(repo + "/baumeva"):
            for f in fs:
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    s = open(p).read()
                    for n in RENAMES:
                        s = re.sub(r"\b%s\b" % n, n + "_x", s)
                    open(p, "w").write(s)
        return
    for f, pairs in B[batch]:
        p = os.path.join(repo, "baumeva", f)
        s = open(p).read()
        for old, new in pairs:
            if s.count(old) != 1:
                print("  edit matches %d times: %s %r" % (s.count(old), f, old[:70]))
                continue
            s = s.replace(old, new)
        open(p, "w").write(s)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(B) + ["E"]
    checks = next((a.split("=")[1].split(",") for a in sys.argv if a.startswith("--checks=")), ["C%02d" % i for i in range(1, 26)])
    keep = "--keep" in sys.argv
    for b in args:
        repo = tempfile.mkdtemp(prefix="refac_%s_" % b) + "/repo"
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        apply(repo, b)
        print("batch", b, repo if keep else "", flush=True)
        for c in checks:
            t = time.time()
            q = subprocess.run(["bash", ROOT + "/run.sh", c, "--tier", "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=repo))
            print("  %s %.0fs" % (c, time.time() - t), end="", flush=True)
            if q.returncode:
                print("  %s exit=%d" % (c, q.returncode), "\n   ".join(x for x in q.stdout.splitlines() + q.stderr.splitlines()[-3:] if x.startswith("  "))[:1500], flush=True)
        print("batch", b, "done", flush=True)
        if not keep:
            shutil.rmtree(os.path.dirname(repo))
