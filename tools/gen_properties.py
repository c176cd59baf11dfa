#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long records stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe, "hook_needed": None}})
NOASSERT = "The repository's tests are six scripts without a single assertion: they notice crashes and hangs on one configuration each, "
G = "baumeva/ga/"

p("C01", "Binary encoding covers each gene range evenly and finely enough",
  "For every gene (lo, hi, step) with lo < hi, in plain and in Gray coding, the gene's bit strings decode one-to-one onto an evenly spaced grid whose first point is lo, whose last point is hi and whose spacing is not larger than step (floating-point rounding aside). Each gene of an individual is decoded from its own bits only, and the plain and the Gray coding of the same gene use the same grid.",
  ["inputs", "configurations"], "all bit strings of every gene in a bounded family of (lo, hi, step) triples, alone and in multi-gene layouts",
  NOASSERT + "and no test looks at a decoded value, let alone at all bit strings of a gene.",
  [G+"populations/binary_population.py", G+"populations/binary_gray_population.py"],
  [("bit count, real step and bit offsets", "BinaryPopulation.get_gens_params / get_real_number_of_points"), ("decoding", "binary_individ_to_float (plain and Gray)")],
  ["value list the objective function receives", "individ['phenotype']"],
  [("num_bits/real_step/idx_bits", "per-gene layout of the bit string", "BinaryPopulation")])

p("C02", "User-supplied individuals are encoded to the nearest grid point",
  "A user-supplied individual whose values lie inside the gene ranges is represented by the grid point nearest to each value (error at most half the grid spacing), and a grid point is represented exactly; with Gray coding, neighbouring grid points differ in exactly one bit. An individual with a value outside its gene's range, or with the wrong number of values, is rejected with an exception.",
  ["inputs", "configurations"], "all grid points, midpoints and near-midpoints of every gene of a bounded family, every gene position, plain and Gray",
  NOASSERT + "and no test supplies an input population to a binary GA.",
  [G+"populations/binary_population.py", G+"populations/binary_gray_population.py"],
  [("encoding", "BinaryPopulation.float_individ_to_binary / index_to_binary"), ("Gray code", "BinaryGrayPopulation.get_gray_value / get_index_from_gray")],
  ["individ['genotype'] and individ['phenotype'] after fill()"])

p("C03", "The first generation is complete, in-domain and unbiased",
  "The first generation has exactly num_individ individuals: the user-supplied ones in their given order, followed by random ones that lie in the declared domain (bit strings of the right length, allowed category values, or ordered selections without repetition). Every element of the domain can occur as a random individual, all with equal probability, and individuals do not share storage with each other or with the user's input, which is left unmodified. An input population larger than num_individ is rejected.",
  ["inputs", "configurations"], "all outcomes of the random generator for small domains of each population kind, all sizes of input population up to num_individ + 1",
  NOASSERT + "each on one random draw of the initial population.",
  [G+"populations/base_population.py", G+"populations/binary_population.py", G+"populations/cat_population.py", G+"populations/order_cat_population.py"],
  [("filling", "fill() / get_generated_individ() of each population class"), ("size check", "set_params()")],
  ["population list after fill()"])

p("C04", "The objective function only ever sees points of the declared domain",
  "During any run of any of the algorithms, every argument passed to the user's objective function is a point of the declared search space: one value per binary gene inside [lo, hi] on the gene's grid, one allowed value per categorical gene, or an ordered selection of the declared length without repetitions; and the additional input data, when given, is passed along unchanged on every call. The same holds for every individual in every generation and for the reported best solution(s).",
  ["inputs", "histories", "configurations"], "all random outcomes of small runs, and every configuration of a large grid of operators, populations and modes",
  NOASSERT + "so an out-of-domain candidate goes unnoticed unless the objective happens to crash on it.",
  ["baumeva/binary_ga.py", "baumeva/categorical_ga.py", "baumeva/combinatory_ga.py", "baumeva/collector_ga.py", "baumeva/vega.py", "baumeva/ffga.py", G+"fitness/base_fitness.py", G+"fitness/multi_fitness.py"],
  [("closure of the operators over the domain", "crossovers/*, mutations/*"), ("phenotype swap around evaluation", "BaseFitness.execute / BinaryPopulation.swap"), ("objective call", "BaseFitness.calc_obj_func, MultiFitness.inferior, VEGA.optimize")],
  ["arguments of the objective function", "ga_data.population", "ga_data.best_solution"])

p("C05", "Crossover children recombine exactly their own two parents",
  "For every pair of parents (for order crossover of at least two genes) and every random outcome, crossover yields one unevaluated child per pair, of the parents' length: with one-point, two-point and uniform crossover every position holds the gene that one of the two parents has at that position, in one prefix/suffix, one inner segment, or any mixture; with order crossover the child keeps a segment of one parent in place, repeats no gene, fills the rest with genes of the other parent, and is a permutation when the parents are permutations of the same values. Every cut point (for uniform: every mixture, with equal probability) and either parent's role can occur. Parents and population are unchanged, and no two offspring share storage with each other or with a parent.",
  ["inputs"], "all parents of small lengths (all permutation pairs, disjointly labelled strings), all pair counts up to 3, all random outcomes",
  NOASSERT + "TwoPointCrossover is never executed, and duplicated or lost genes would not be noticed.",
  [G+"crossovers/base_crossover.py", G+"crossovers/one_point_crossover.py", G+"crossovers/two_point_crossover.py", G+"crossovers/uniform_crossover.py", G+"crossovers/order_crossover.py"],
  [("recombination", "crossover() of each class"), ("pairing and child creation", "BaseCrossover.execute / get_children")],
  ["ga_data.children, ga_data.parents, ga_data.population after execute()"])

p("C06", "Mutation changes only children, and only in the documented way",
  "When a gene or child is mutated, the result stays in the domain and really differs: a mutated bit is flipped, a mutated categorical gene takes a different allowed value (every other allowed value being possible; a gene with a single allowed value stays), and a combinatory child is changed by exactly one swap of two genes, move of one gene, reversal of one segment, or shift of one block, each such change being possible (for at least two genes). Genes and children that are not mutated, the population and the parents stay untouched.",
  ["inputs"], "all genotypes of small lengths and all random outcomes of each mutation class",
  NOASSERT + "the inversion, movement and shift mutations are never executed, and a wrong value would not be noticed.",
  [G+"mutations/bin_string_mutation.py", G+"mutations/categorical_mutation.py", G+"mutations/swap_mutation.py", G+"mutations/movement_mutation.py", G+"mutations/inversion_mutation.py", G+"mutations/shift_mutation.py", G+"mutations/base_combinatory_mutation.py"],
  [("mutation step", "get_mutation() of each class")],
  ["children's genotypes before and after execute()"])

p("C07", "Mutation happens with exactly the requested probability",
  "Each gene (binary and categorical mutation) or each child (combinatory mutations) is mutated independently with probability equal to mutation_lvl, to within a resolution of 1/1000: level 0.0 never changes anything and level 1.0 always mutates. The named levels 'weak', 'normal' and 'strong' mean 0.3/s, 1/s and 3/s (at most certainty) for genotypes of s genes or bits in binary and categorical mutation, and 0.03, 0.1 and 0.3 in combinatory mutation, for every population the operator is applied to.",
  ["inputs", "configurations", "histories"], "all coin values at every coin position, for a list of levels, all named levels, genotype lengths, and all reuse histories of length 2",
  NOASSERT + "and a probability cannot be read off one run.",
  [G+"mutations/base_mutation.py", G+"mutations/bin_string_mutation.py", G+"mutations/categorical_mutation.py", G+"mutations/base_combinatory_mutation.py"],
  [("coin", "determines_mutation()"), ("named levels", "check_mutation / update_mutation_lvl / mutation_map")],
  ["children's genotypes before and after execute()"])

p("C08", "Tournament selection picks pairs of distinct tournament winners",
  "Tournament selection yields int(children_percent * num_individ) pairs of parents, each pair made of two different individuals of the current generation. The first parent of a pair is the best-scored of tournament_size distinct individuals drawn uniformly at random, and so is the second, given that it differs from the first; hence the tournament_size - 1 worst individuals are never parents and all others can be. The parents are independent copies, and the population's individuals keep their genotypes and scores.",
  ["inputs", "configurations"], "all random outcomes for all population and tournament sizes up to 6 and all score orderings incl. ties",
  NOASSERT + "and a wrong tournament only slows convergence down.",
  [G+"selections/tournament_selection.py", G+"selections/base_selection.py"],
  [("tournament", "TournamentSelection.tournament / get_best"), ("number of parents", "get_total_num_parents")],
  ["ga_data.parents after execute()"])

p("C09", "Roulette and ranked selection follow scores and ranks",
  "Balanced selection draws a parent with probability proportional to its (positive) score and ranked selection with probability proportional to its rank by score, rank 1 being the worst and equal scores sharing the mean of their ranks; both yield int(children_percent * num_individ) pairs of two different individuals, as independent copies. Every random value the generator can deliver, including the extremes, selects an individual of the population, and selection never changes genotypes, scores or Pareto ranks.",
  ["inputs", "configurations"], "a fine grid of random values plus both extremes, for all score vectors over a small alphabet (ties, huge ratios, negative scores for ranking)",
  NOASSERT + "RankedSelection is never executed, and a distribution cannot be judged from one run.",
  [G+"selections/balanced_selection.py", G+"selections/ranked_selection.py"],
  [("cumulative probabilities", "add_probabilities"), ("inversion", "BalancedSelection.get_index"), ("rank ties", "RankedSelection.add_probabilities")],
  ["ga_data.parents after execute()"])

p("C10", "VEGA selection gives every objective its equal share of parents",
  "With m objectives each VEGA selection (tournament, balanced, ranked) yields m blocks of int(children_percent * num_individ / m) pairs, the j-th block being chosen by the score for objective j alone, under the same rules as the single-objective selection. No objective's parents are dropped or overwritten by another's.",
  ["inputs", "configurations"], "all random outcomes (tournament) or a fine grid of random values (balanced, ranked) for all opposed score tables with 2-3 objectives and up to 6 individuals",
  NOASSERT + "and losing the parents of all but one objective only degrades the front.",
  [G+"selections/vega_tournament_selection.py", G+"selections/vega_balanced_selection.py", G+"selections/vega_ranked_selection.py"],
  [("per-objective loop", "execute()/tournament() of the VEGA selections"), ("share per objective", "get_total_num_parents")],
  ["ga_data.parents after execute()"])

p("C11", "Each new generation keeps all children and the best parent",
  "The next generation (for single-objective algorithms and VEGA) consists of all children plus survivors of the previous generation, has num_individ + 1 members whenever the previous generation is large enough, and therefore never grows or shrinks over a run. The survivors are members of the previous generation with unchanged genotype and score; the best-scored one is always among them, with 'best' transfer and pairwise different genotypes they are the top-scored ones, and with 'random' transfer every other member can survive. All members of a generation are separate objects, so no individual is present through a shared reference twice.",
  ["inputs", "histories", "configurations"], "all small populations incl. duplicates and ties, all numbers of children, all random outcomes, and multi-generation histories",
  NOASSERT + "so lost elites, drifting population size or aliased individuals go unnoticed.",
  [G+"new_generation.py"],
  [("elitism", "NewGeneration.add_best / add_parents"), ("assembly", "NewGeneration.execute")],
  ["ga_data.population before and after execute()"])

p("C12", "The reported best solution is the best ever evaluated",
  "After every generation of a single-objective run the best solution is the highest-scored individual evaluated so far, recorded with the generation in which that score first appeared, and its genotype, decoded values, objective value, score and feasibility belong together and are not altered by later generations. The history of best scores has one entry per generation, never decreases, and its last entry equals the best solution's score; the median and worst histories are the middle (of an even number: the upper of the two middle ones) and the lowest scores of the same generation, and get_avg_score() is the mean of the current generation's scores.",
  ["inputs", "histories"], "all objective-value histories over a small alphabet for small runs, all random outcomes of small runs, and a large grid of configurations",
  NOASSERT + "and none compares the reported optimum with what was evaluated.",
  [G+"ga_data.py", G+"new_generation.py", G+"fitness/base_fitness.py"],
  [("best-so-far update", "GaData.update"), ("elitism", "NewGeneration"), ("snapshot", "deepcopy in GaData.update")],
  ["ga_data.best_solution, historical_* after every update()", "objective call log"])

p("C13", "Runs stop exactly at the generation limit or the early-stop limit",
  "A run of any of the algorithms produces at least one and at most num_generations generations (the initial one included) and ends before that exactly at the first generation at which the number of consecutive generations without improvement exceeds early_stop; early_stop=None disables early stopping (except in CollectorGA, which needs a number). For single-objective runs a generation improves if its best score strictly exceeds every earlier one; for multi-objective runs, if the genotypes of the Pareto-optimal individuals, counted with multiplicity, differ from those of the previous generation.",
  ["histories", "configurations"], "all improvement/no-improvement histories up to 6 generations x early_stop values x generation limits x all algorithm classes",
  NOASSERT + "and most disable early stopping.",
  ["baumeva/binary_ga.py", "baumeva/categorical_ga.py", "baumeva/combinatory_ga.py", "baumeva/collector_ga.py", "baumeva/vega.py", "baumeva/ffga.py", G+"ga_data.py", G+"multi_ga_data.py"],
  [("generation loop and break", "optimize() of each algorithm"), ("no-improvement counter", "GaData.update / MultiGaData.update")],
  ["number of generations recorded in ga_data", "num_generation_no_improve"])

p("C14", "Every individual is scored once, from its own decoded values",
  "In a single-objective run the objective function is called exactly once per newly created individual, with that individual's decoded values (preceded by the input data whenever input data other than None was given, even if it is falsy), and never again for survivors. The individual's objective value is what the call returned and its score is 1/(1 + |target - value| + penalty) when a target value is given and -(value + penalty) otherwise, so with a target a closer value, and without one a smaller value, scores strictly higher; VEGA scores each objective's value in this way against that objective's own target. Evaluation leaves every genotype unchanged.",
  ["inputs", "histories"], "all assignments of objective values from a small alphabet to small populations, all targets, all mixes of scored and unscored individuals, input data of every kind",
  NOASSERT + "and an individual scored with another's value still yields a plausible run.",
  [G+"fitness/base_fitness.py", G+"fitness/hyperbola_fitness.py", G+"fitness/vega_hyperbola_fitness.py", G+"populations/binary_population.py"],
  [("evaluation loop", "BaseFitness.execute / calc_obj_func / check_input"), ("score formula", "HyperbolaFitness.get_fitness_score"), ("swap", "BinaryPopulation.swap")],
  ["objective call log", "individ['score'], ['obj_score'], ['genotype'], ['phenotype'] after execute()"])

p("C15", "Feasibility flags and penalties follow the declared conditions",
  "In conditional optimization the value marked 'optimize' is the objective value wherever it stands in the list, and an individual is flagged feasible exactly if every '<=' value is <= 0 and every '!=' value equals 0. Feasible individuals get no penalty; infeasible ones are penalized in every generation after the first, more for a larger violation of any condition, with the dynamic penalty growing with the generation index (delta*(c*generation)^alpha times the sum of violations^betta) and the adaptive penalty (in generations after the first: delta*10*betta_2, while the best solution is feasible only delta*10/betta_1, times the sum of violations^betta) being larger while the best solution is infeasible than while it is feasible; the penalty of a user's own penalty class is charged as returned. In multi-objective runs the objective values keep the order in which the objective function returned them.",
  ["inputs", "configurations"], "all condition lists up to length 4, all value vectors over a small alphabet, generations 0..5, every penalty class, single- and multi-objective fitness",
  NOASSERT + "only DynamicPenalty with one trailing '<=' condition is executed at all in a single-objective run.",
  [G+"fitness/base_fitness.py", G+"fitness/multi_fitness.py", G+"fitness/vega_hyperbola_fitness.py", G+"penalties/base_penalty.py", G+"penalties/dynamic_penalty.py", G+"penalties/adaptive_penalty.py"],
  [("condition handling", "BaseFitness.set_opt_value / set_obj_score / execute"), ("penalty", "get_penalty_value, *Penalty.execute")],
  ["individ['feasible'], ['obj_score'], ['score'] after execute()", "penalty.execute return value"])

p("C16", "Static penalty charges each violation by its interval's coefficient",
  "With the static penalty a satisfied condition contributes nothing, and a violated one contributes (coefficient * size of the violation) squared, the coefficient being that of the interval of this very condition (equality table for '!=', inequality table for '<=') that contains the size of the violation (lower end included, upper end not), the size being |value| for '!=' and value for '<='. A violation that lies in no interval of its condition raises an exception instead of going unpenalized.",
  ["inputs", "configurations"], "all condition lists up to length 3, all value vectors over an alphabet covering every interval, one to three intervals per condition",
  NOASSERT + "StaticPenalty is never executed.",
  [G+"penalties/static_penalty.py"],
  [("interval lookup", "StaticPenalty.get_sum_conditional_func")],
  ["penalty.execute return value", "individ['score']"])

p("C17", "Pareto ranks, front and FFGA scores match dominance exactly",
  "After evaluation in a multi-objective run every individual's rank is 1 plus the number of individuals of the current generation that dominate it (no worse in any value the objective function returns, better in at least one, smaller being better). The Pareto set reported after each generation consists of exactly the rank-1 individuals of that generation, is recorded with the generation since which its genotypes have been the same and flagged feasible exactly if all its members are, and FFGA's score is 1/(1 + rank) for every individual, survivors included (get_avg_score() being their mean); sets recorded for earlier generations do not change afterwards.",
  ["inputs", "histories"], "all tables of 2-3 objective values over {0,1,2} for up to 4-5 individuals, one and two consecutive generations, plus whole runs",
  NOASSERT + "FFGA is never executed and the VEGA test ignores its result.",
  [G+"fitness/multi_fitness.py", G+"fitness/ffga_fitness.py", G+"multi_ga_data.py"],
  [("dominance", "MultiFitness.inferior / assign_ranks"), ("front", "MultiGaData.update"), ("score", "FFGAFitness.get_fitness_score")],
  ["individ['rank'], ['score'], best_solution['pareto_set'], historical_best"])

p("C18", "FFGA with 'best' transfer never loses ground on the Pareto front",
  "With 'best' transfer every non-dominated individual of a generation enters the next generation unchanged, together with all children. Consequently every point of every earlier Pareto set is, in each later reported Pareto set, still present or dominated by a reported point.",
  ["inputs", "histories"], "all small populations and objective tables, multi-generation runs over a grid of configurations",
  NOASSERT + "and neither FFGA nor MultiNewGeneration is executed by any of them.",
  [G+"multi_new_generation.py", G+"multi_ga_data.py", "baumeva/ffga.py"],
  [("elitism over the front", "MultiNewGeneration.add_best / execute")],
  ["ga_data.population before and after the new generation", "reported Pareto sets"])

p("C19", "A fixed random seed makes runs repeatable and keeps them random",
  "With the global seed set to a number, a run's complete result (populations, history, best solution) depends only on the seed and the configuration: not on random numbers drawn before, on earlier runs in the same process, or on the interpreter's hash seed. Within one run the random stream is never restarted: no two generations replay the same random numbers. Different seeds give different random streams.",
  ["histories", "configurations"], "all histories of up to 3 prior operations (other runs, random draws, seed changes) before a run of each algorithm, several seeds and hash seeds",
  NOASSERT + "two scripts set a seed but never compare two runs.",
  ["baumeva/global_generator.py", G+"populations/base_population.py"],
  [("seeding", "BasePopulation / generator.rnd_seed")],
  ["ga_data of repeated runs", "state of the random generator at every draw"])

p("C20", "Ready-made, collector and advanced modes agree, honouring every option",
  "For the same seed and configuration the ready-made algorithm classes, the collector mode and the hand-written loop over the documented components (binary: tournament, one-point, bit mutation; combinatory: tournament, order crossover, movement; categorical: tournament, uniform, categorical mutation; VEGA: VEGA tournament, one-point; FFGA: balanced selection, one-point) go through the same generations and report the same result. In particular every constructor option (children_percent, tournament_size except for FFGA, mutation_lvl, transfer_parents, is_gray, input_population, obj_value, input_data, penalty, conditions, early_stop) takes effect. An option, or a parameter of a component, that is left out has its default: children_percent 0.95, early_stop 10, tournament_size 3, mutation_lvl 'normal', transfer_parents 'best', penalty factors 1, 0.5, 2, 2 (dynamic) and 1, 1.1, 1.2, 2 (adaptive), and nothing for the others.",
  ["configurations"], "the full product of small option domains for every algorithm class, several seeds",
  NOASSERT + "and an ignored option still gives a working run.",
  ["baumeva/binary_ga.py", "baumeva/categorical_ga.py", "baumeva/combinatory_ga.py", "baumeva/collector_ga.py", "baumeva/vega.py", "baumeva/ffga.py"],
  [("wiring", "optimize() of each algorithm class")],
  ["ga_data after optimize()"])

p("C21", "Runs are isolated: inputs stay intact and instances can be reused",
  "A run never modifies what the user passed in (gene definitions, conditions, input population, input data, target values), and calling optimize() again on the same algorithm object (also after a run that was ended by an exception of the objective function), or running other algorithms in between, gives the result of a fresh object with the same seed. Operator, fitness and penalty objects can be shared by successive or alternating runs without one run influencing the other.",
  ["histories", "configurations"], "all interleavings/sequences of up to 3 runs over a set of configurations sharing operator objects or inputs",
  NOASSERT + "each running every algorithm object once.",
  [G+"fitness/base_fitness.py", G+"mutations/bin_string_mutation.py", G+"penalties/base_penalty.py", G+"ga_data.py", "baumeva/collector_ga.py"],
  [("per-run state", "GaData.__init__, operator attributes"), ("conditions list", "BaseFitness.set_opt_value")],
  ["user objects before/after", "ga_data of repeated runs"])

p("C22", "A failing objective function leaves the run's data consistent",
  "If the objective function raises at any call of any generation, the exception reaches the caller, and all individuals still have their genotype and decoded values in place (nothing swapped, lost or half-scored, and everything scored so far correct). Evaluating the same generation again after the fault continues as if the fault had not happened, in single-objective runs without re-evaluating individuals that already have a score.",
  ["fault_sequences", "histories"], "a fault at every objective call index (and at every pair of indices in short runs) for every population kind and fitness class",
  NOASSERT + "with objective functions that never fail.",
  [G+"fitness/base_fitness.py", G+"fitness/multi_fitness.py", G+"populations/binary_population.py"],
  [("genotype/phenotype swap around evaluation", "BaseFitness.execute")],
  ["ga_data.population after the exception", "objective call log of the retry"])

p("C23", "Invalid configurations are rejected, never silently accepted",
  "An exception is raised, at construction or at the latest when the run starts using the option, for: a mutation level that is not a float in [0, 1] or a known name; a transfer strategy other than 'best'/'random'; a tournament size below 2 or not below num_individ; an input population larger than num_individ; a penalty that is not a penalty object; a condition sign other than '<=' and '!='; a number of returned values that does not match the conditions (or more than one value without conditions) in single-objective runs; adaptive-penalty factors <= 1 or equal; static-penalty interval and coefficient tables with different numbers of entries; a categorical gene that is neither list nor tuple; a user individual of a binary run with the wrong number of values or a value outside its gene's range. Valid boundary values of the same options are accepted.",
  ["inputs", "configurations"], "all values of a boundary alphabet per option, for every class accepting the option",
  NOASSERT + "all with valid options.",
  [G+"mutations/bin_string_mutation.py", G+"mutations/categorical_mutation.py", G+"mutations/base_combinatory_mutation.py", G+"new_generation.py", G+"selections/tournament_selection.py", G+"populations/cat_population.py", G+"populations/binary_population.py", G+"fitness/base_fitness.py", G+"penalties/adaptive_penalty.py", G+"penalties/static_penalty.py", G+"penalties/dynamic_penalty.py"],
  [("validation", "check_mutation, check_transfer_parent, check_tournament_size, set_params, check_task, check_input, penalty constructors")],
  ["exception or its absence"])

p("C24", "Every valid configuration runs to completion for every random outcome",
  "For every valid configuration, from the smallest sizes and genotype lengths up (two elements for ordered selections, tournament_size below the number of individuals of every generation, two individuals for FFGA, positive scores of comparable size for balanced selection) and including all default option values, and for every sequence of random numbers under which the distinct-parents retries of selection end, a run completes without an exception. From every reachable generation selection can complete: there is always a pair of different individuals it can pick.",
  ["inputs", "histories", "configurations"], "all random outcomes of minimal runs, all option combinations over boundary values for every algorithm class, all operator combinations in collector mode",
  NOASSERT + "one configuration each; CombinatoryGA and FFGA are not run at all.",
  ["baumeva/binary_ga.py", "baumeva/categorical_ga.py", "baumeva/combinatory_ga.py", "baumeva/collector_ga.py", "baumeva/vega.py", "baumeva/ffga.py", G+"selections/tournament_selection.py", G+"selections/balanced_selection.py", G+"new_generation.py", G+"multi_new_generation.py"],
  [("retry loops", "TournamentSelection.tournament, BalancedSelection.balanced_selection, NewGeneration.add_parents"), ("index arithmetic", "crossovers/*, mutations/*, NewGeneration.add_best")],
  ["completion of optimize()"])

p("C25", "The printed report states exactly the recorded result",
  "When a run prints (is_print=True, or collector mode), it prints one report at its end, and every value in it is the one the returned ga_data records: the index of the last generation, the generation, genotype, decoded values (binary runs), fitness score, objective value and feasibility of the best solution, or, in multi-objective runs, the decoded values and objective values of every member of the recorded Pareto set in its order. With is_print=False nothing is printed. print_best_solution() can be called after any generation, any number of times; printing changes neither the data nor the course of the run.",
  ["inputs", "histories", "configurations"], "all small score and Pareto-set histories with a report after each generation, all objective-answer histories of small printing runs, the configuration grid with and without printing",
  NOASSERT + "and never read what is printed.",
  [G+"ga_data.py", G+"multi_ga_data.py", "baumeva/binary_ga.py", "baumeva/categorical_ga.py", "baumeva/combinatory_ga.py", "baumeva/collector_ga.py", "baumeva/vega.py", "baumeva/ffga.py"],
  [("report", "GaData.print_best_solution, MultiGaData.print_best_solution, print_list"), ("is_print", "optimize() of the facades, CollectorGA.optimize")],
  ["standard output", "the returned ga_data"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
