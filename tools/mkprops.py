#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts is this file)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

POP="src/population.rs"; EVO="src/evolution.rs"; ALG="src/algorithms.rs"; GA="src/algorithms/ga.rs"; AGA="src/algorithms/aga.rs"
MOD="src/model.rs"; SEL="src/operators/selection.rs"; XO="src/operators/crossover.rs"; MUT="src/operators/mutation.rs"; OPS="src/operators.rs"; ST="src/stats.rs"; IND="src/individual.rs"; LIB="src/lib.rs"

p("C01","A population is the sorted set of the distinct individuals it was given",
 "Whenever a population is created from, or replaced by, a non-empty collection of individuals, it holds exactly the distinct individuals of that collection: none is lost, none is invented, and no two of its members are equal, even when different individuals share a fitness. Its members are in ascending order of fitness, for any fitness values, finite or infinite, however close together or far apart. After a replacement the caller's collection holds the former members; an empty collection is refused without building a population (a fallible conversion hands it back, creation panics).",
 ["inputs","histories"],"every finite collection of individuals with finite or infinite fitness (equal individuals having equal fitness), of any size and order, and every sequence of replacements",
 "Only the two end-to-end doc tests build populations and they look at the best individual only; duplicates hidden between ties, orders at sizes that switch the parallel sort, and extreme fitness values are never sampled.",
 [POP,OPS],[("sort by fitness, remove duplicates, collect statistics",POP+": sort_dedup_and_collect_stats"),("fitness comparison",OPS+": compare_fitness")],
 [("individuals","the members, ascending by fitness",POP+": Population")],["Population::new","Population::replace","Deref to slice","TryFrom<Vec>","From<Population> for Vec"])
p("C02","A population's statistics and fittest member describe its current members",
 "At every moment the statistics of a population (count, minimum, maximum, their positions, average and variance) are those of exactly the members it currently holds, and the positions of minimum and maximum point at members with that fitness. The individual it reports as fittest, and the one it yields when it is consumed for its fittest, is a member whose fitness is the maximum.",
 ["inputs","histories"],"every population reachable by a creation and any number of replacements by collections of any size, including ones that shrink, grow or contain many duplicates",
 "Unit tests never compare the statistics of a population with its members after a replacement; staleness appears only after particular histories (duplicates removed, fitness falling, ties at the top).",
 [POP,ST],[("statistics recomputed after each change",POP+": new, replace"),("fittest by position of the maximum",POP+": fittest, take_fittest")],
 [("stats","statistics of the members",POP+": Population")],["Population::stats","Population::fittest","Population::take_fittest"])
p("C03","Generation and stagnation counters follow the history of the population",
 "A new population is generation 0 with stagnation 0; each replacement raises the generation by exactly one. A replacement resets stagnation to 0 if the best fitness of the new members is strictly greater than the best fitness of the members they replaced, and raises stagnation by exactly one otherwise.",
 ["inputs","histories"],"every history of replacements with best fitness rising, staying or falling by any amount, however small",
 "No test reads the stagnation counter at all, and the generation number is only used as a bound in two doc tests.",
 [POP],[("counter updates",POP+": replace")],
 [("generation","number of replacements so far",POP),("stagnation","replacements since the best last improved",POP)],["Population::generation","Population::stagnation"])
p("C04","A run asks its callback once per generation and stops at the first refusal",
 "A run first presents the evaluated initial population to the progress callback as generation 0; each time the callback answers true, exactly one new generation is produced and presented, with the generation number one higher; at the first false the run ends without producing or presenting anything more. Running on a given population returns exactly the population that was presented last.",
 ["inputs","histories","schedules"],"every pattern of callback answers, both algorithms, all parameter values that are accepted, any number of worker threads",
 "The two doc tests that run the loop observe only the final individual, with a callback that always stops for the same reason.",
 [EVO],[("main loop",EVO+": evolve_population")],None,["progress closure","return value of evolve_population"])
p("C05","Each generation is prepared on the current population before parents are chosen",
 "In every generation the model's preparation hook runs exactly once, then the parent selector is prepared exactly once, both with the population that was just presented, and only then are parents selected, from that same population. Rates or a selector that the hook puts into the reproduction parameters are the ones used for all offspring of that generation and stay in force until changed again (by the hook or by the algorithm's own adaptation).",
 ["histories","schedules","configurations"],"every run of either algorithm with any hook, selection mechanism and thread count",
 "No test overrides the preparation hook or supplies its own selection mechanism.",
 [GA,AGA,EVO,MOD],[("prepare_for_next_population",GA+", "+AGA),("reproduction parameters read for each generation",ALG+": generate_new_population")],None,["EvolutionModel::pre_generation","SelectionMechanism::prepare","SelectionMechanism::select"])
p("C06","A run returns the best individual it ever had",
 "A run from random individuals or from a single individual returns an individual whose fitness is the highest of all individuals in all its generations, each of which was presented to the progress callback, whatever the elitism rate. In particular a run from a single valid individual never returns something less fit than that individual.",
 ["inputs","histories","schedules"],"every run of either algorithm, with elitism from none to nearly all, in which the best individual may or may not survive to the last generation",
 "The doc tests run with one elite, where the last generation always holds the best; without elitism the loss of the best needs a particular history.",
 [EVO],[("best-of-run tracking",EVO+": evolve_fittest"),("fittest member",POP+": fittest")],None,["return value of Evolution::run","return value of Evolution::evolve_individual"])
p("C07","The configured elite survives every generation",
 "With population size n and elitism rate r, the floor(n*r) fittest members of the current population (all members if there are fewer) enter the next generation unchanged, and no other individual enters it except as a bred offspring. So with at least one elite the best fitness never decreases from one generation to the next.",
 ["inputs","histories","schedules"],"every accepted population size and elitism rate, every generation of every run, including populations that shrank because duplicates were removed",
 "Tests use one elite of 100; shrunken populations, larger elites and rates that round are not exercised, and no test looks at which individuals are carried over.",
 [GA,AGA,ALG],[("select_elites",GA+", "+AGA),("elite size from rate",GA+", "+AGA+": configure")],[("elite_size","number of individuals carried over",GA)],["EvolutionAlgorithm::select_elites","successive populations seen by the progress callback"])
p("C08","Every generation is built with exactly the configured number of individuals",
 "Each new generation consists of the elites plus as many bred offspring as are missing to the configured population size, so before removal of duplicates it has exactly the configured size; none of the bred offspring is dropped. This holds for every accepted size and elitism rate, including a size of one and elites that leave room for a single offspring, and for any number of worker threads; no such run panics.",
 ["inputs","histories","schedules","configurations"],"all accepted population sizes and elitism rates, all thread counts and schedules of the breeding workers",
 "The doc tests use size 100 with one elite; the branch for a single missing offspring and other size/elite combinations are never taken.",
 [ALG,GA,AGA],[("generate_new_population",ALG)],None,["EvolutionAlgorithm::generate_new_population","EvolutionAlgorithm::reproduction_parameters"])
p("C09","Breeding never yields anything invalid or worse than the fitter parent",
 "With the default survival rule, a bred individual is either the newly made offspring, if that is valid and at least as fit as the fitter of the parents used for it, or otherwise an unchanged copy of the fitter parent. A model that overrides the survival rule decides instead of the fitness comparison, and is asked with the offspring and the fitter parent, but an invalid offspring is never kept.",
 ["inputs","schedules"],"every pair of parents (including ties and equal parents), every offspring fitness including equal, infinite and not-a-number, every survival rule",
 "No test calls the breeding step or sees an invalid offspring; only its long-run effect on OneMax is observed.",
 [MOD],[("breed",MOD+": breed"),("can_survive",MOD+": can_survive")],None,["EvolutionModel::breed"])
p("C10","Offspring are made by crossover, mutation, improvement, then evaluation",
 "An offspring starts as the crossover of two different selected members, or as a copy of one selected member; it is then mutated at most once, improved once and evaluated once, in this order, each step working on the result of the one before. Crossover and mutation happen independently, with the probabilities given by the current rates: never at rate 0, always at rate 1 (crossover needing two different members), and in the given proportion in between.",
 ["inputs","schedules","configurations"],"every population, selection mechanism and pair of rates, every random stream",
 "The doc tests cannot tell how often operators were applied, in which order, or to what; improvement is never implemented by a tested model.",
 [MOD],[("breed",MOD+": breed")],None,["EvolutionModel::crossover, mutate, improve, evaluate as seen by the model","SelectionMechanism::select"])
p("C11","Only evaluated, valid individuals ever enter a population",
 "Every individual of the initial collection is evaluated exactly once before the first generation is presented; exactly those that are then valid (by default: fitness neither infinite nor not-a-number) make up the initial population, and a run without any valid individual panics before the callback is asked. In all later generations every member is valid and its fitness is the one the model assigns to its genome.",
 ["inputs","histories","schedules"],"every initial collection with any mix of valid and invalid individuals, custom validity rules, every later generation, any thread count",
 "OneMax individuals are always valid, so the filtering is never exercised; evaluation counts are not observed.",
 [ALG,MOD,IND],[("initialize_population",ALG),("validity test of offspring",MOD+": breed"),("default validity",IND+": is_valid")],None,["EvolutionModel::evaluate","populations seen by the progress callback"])
p("C12","Initial individuals are generated in the requested number and manner",
 "Extending a collection by n random individuals keeps what it held and appends exactly n individuals, each generated once from the given arguments. Extending it by n individuals based on a model individual keeps what it held and appends the unchanged model individual followed by n-1 copies of it, each mutated exactly once; n = 0 changes nothing. A run starts from exactly the configured number of individuals generated this way.",
 ["inputs","schedules","configurations"],"every n, every prior content of the collection, every model individual and thread count",
 "Only the random variant is executed by tests, with n = 100 and an empty collection, and its result is not inspected.",
 [MOD,EVO],[("extend_population, extend_population_with",MOD),("run, evolve_individual",EVO)],None,["EvolutionModel::extend_population","EvolutionModel::extend_population_with"])
p("C13","Adaptive rates follow the diversity of the population",
 "In the adaptive algorithm, generation 0 is bred with the upper end of the crossover range and the lower end of the mutation range, and fixes the reference deviation. In each later generation divisible by the adjustment interval the rates become crossover = low + (high-low)*d and mutation = low + (high-low)*(1-d), where d is the standard deviation of the current fitness relative to the reference, limited to [0,1] (0 if the current deviation is 0); in other generations, and always with interval 0, they stay as they are. The rates never leave their ranges and are never not-a-number.",
 ["inputs","histories","configurations"],"every history of populations (including zero initial or current deviation and growing deviation), every pair of ranges and every interval",
 "The doc test only checks that OneMax is solved; no test reads the rates, uses an interval other than 1 or a population without diversity.",
 [AGA,LIB],[("prepare_for_next_population",AGA),("interpolation",LIB+": interpolate_f64")],[("reference_std","deviation of generation 0",AGA)],["EvolutionAlgorithm::reproduction_parameters","rates seen by EvolutionModel::pre_generation"])
p("C14","Invalid parameters are refused and valid ones accepted",
 "Configuring an algorithm, and thus a run, panics before anything is presented to the callback if the population size is zero, the elitism rate is outside [0,1), or any crossover or mutation rate or range bound is outside [0,1] or not a number; all other values are accepted. Creating a tournament selection of size zero, an elitist selection with a ratio outside [0,1) or a Boltzmann selection with cooling rate zero, or changing one to such a value, panics and changes nothing, and other values are accepted and reported back.",
 ["inputs","configurations"],"all combinations of parameter values including the boundaries, negative, infinite and not-a-number values",
 "Tests use valid parameters only.",
 [GA,AGA,SEL],[("validate",GA+", "+AGA),("assertions in constructors and setters",SEL)],None,["EvolutionParameters::validate","Evolution::evolve_population","constructors and setters of the selection mechanisms"])
p("C15","Consecutive runs on one instance are independent",
 "A run behaves as configured by its own parameters only: nothing of earlier runs on the same evolution instance (population, counters, rates, reference deviation, selector or its temperature, elites) influences it. With a model that has no state of its own and the same random streams, a run on a used instance shows the same generations and returns the same individual as on a fresh one.",
 ["histories","configurations"],"every sequence of runs on one instance with different parameters, strategies, sizes and stopping points",
 "Every test builds a fresh instance and runs it once.",
 [EVO,GA,AGA],[("configure at the start of a run",EVO+", "+GA+", "+AGA)],None,["generations seen by the progress callback, rates seen by pre_generation"])
p("C16","Every selection returns a member of the population together with its position",
 "For every non-empty population, every selection strategy with accepted parameters and every stream of random numbers, selecting yields a position inside the population together with the member at that position, without panicking. The population is never changed.",
 ["inputs","configurations","histories"],"all population sizes from one upwards, fitness values of any sign and magnitude, all accepted strategy parameters, all random streams including extreme values, any number of generations of cooling",
 "The selection tests use one population of ten with fitness 0.0 to 0.9 and one seed, where extreme random values do not occur.",
 [SEL],[("select of each mechanism",SEL)],None,["SelectionMechanism::select"])
p("C17","Rank-based selections have their documented probabilities",
 "Tournament, rank, linear and elitist selection depend on the rank of an individual only, not on the fitness values. With n members ranked 1..n by ascending fitness, rank i is selected with probability (i^k-(i-1)^k)/n^k by a tournament of size k, proportionally to i by rank selection, uniformly among the best n-floor(n*ratio) by elitist selection, and by linear selection with bias b in [1,2] with probability F((n-i+1)/n)-F((n-i)/n) where F(x)=b*x-(b-1)*x^2 (uniform for b=1).",
 ["inputs","configurations"],"all population sizes, fitness values, tournament sizes, ratios and biases",
 "The tests check one population size with one parameter value per strategy; linear selection is only tested for non-decreasing probabilities.",
 [SEL],[("select of TournamentSelection, RankSelection, LinearSelection, ElitistSelection",SEL)],None,["SelectionMechanism::select"])
p("C18","Fitness-based selections have their documented probabilities",
 "For non-negative fitness with a positive sum, roulette wheel selection selects each member with a probability proportional to its fitness. Boltzmann selection selects each member with a probability proportional to exp(fitness/T), so that only fitness differences matter, where T is the initial temperature multiplied by the cooling rate once for every preparation, including the first; at temperatures of any size it never prefers a less fit member.",
 ["inputs","configurations","histories"],"all populations, temperatures and cooling rates, and any number of preparations on changing populations",
 "The tests check one population with a constant temperature of 5; repeated preparation, cooling, low temperatures, large or negative fitness values do not occur.",
 [SEL],[("prepare and select of RouletteWheelSelection, BoltzmannSelection",SEL)],[("temperature","current temperature",SEL),("total_fitness","sum used to scale the random number",SEL)],["SelectionMechanism::prepare","SelectionMechanism::select","BoltzmannSelection::temperature"])
p("C19","Distinct selection returns a different individual or gives up after its limit",
 "Selecting an individual distinct from a given one makes at most the given number of selection attempts and returns the first attempted candidate that differs from it, with its position; it returns nothing exactly if all those attempts yielded an individual equal to the given one (so always with a limit of zero).",
 ["inputs","configurations"],"every sequence of candidates, every limit, every excluded individual (member or not)",
 "No test calls it.",
 [SEL],[("select_distinct",SEL)],None,["SelectionMechanism::select_distinct"])
p("C20","Permutation crossovers turn two permutations into a permutation",
 "If both parents are orderings of the same distinct genes, the offspring of GPX2, SCX, ERX, PMX, OX and CX is an ordering of the same genes, with the same length and each gene exactly once. This holds for every number of genes including 0, 1 and 2, every pair of parents, every pivot, range or sequence of choices, and the operator always terminates without panicking.",
 ["inputs"],"all pairs of permutations of any gene type and length, all pivots, non-empty or empty ranges, and partition choices",
 "Each operator has one example pair of ten genes with one pivot or range.",
 [XO,OPS],[("the six operators",XO),("common partitions",OPS)],None,["the crossover functions","CrossoverStrategy::crossover"])
p("C21","OX, PMX and SPX inherit exactly the prescribed segments",
 "OX copies the range from the first parent and fills the other places, starting after the range and wrapping around, with the remaining genes in the order they have in the second parent from the same place. PMX copies the range from the first parent and takes every other place from the second parent, replacing a gene that is already in the range by following the first-to-second-parent mapping of the range until a free gene is found. SPX takes the places before the point from the first parent and the others from the second.",
 ["inputs"],"all pairs of parents (permutations for OX and PMX, any sequences for SPX), all ranges and points including empty, full, at either end, and points at or beyond the end",
 "One example each.",
 [XO],[("order_crossover, partially_mapped_crossover, single_point_crossover",XO)],None,["the three functions"])
p("C22","CX copies whole cycles alternately from the two parents",
 "In cycle crossover every gene of the offspring stands at a place where one of the parents has it: the first cycle (the one containing the first place) comes from the first parent, and following cycles, in the order of their first places, come alternately from the second and the first parent. No randomness is involved.",
 ["inputs"],"all pairs of permutations of the same genes",
 "One example pair with one non-trivial cycle.",
 [XO],[("cycle_crossover",XO)],None,["cycle_crossover"])
p("C23","ERX and SCX build the offspring along the parents' neighborhoods",
 "ERX starts with the pivot and appends a not yet used gene that is a neighbor (cyclically, in either parent) of the last one and has the fewest remaining unused neighbors among those, and any unused gene only if there is none. SCX starts with the pivot and appends the cyclic successor of the last gene in one of the parents, if one of them is unused (if both are, the one that appears earlier in the other parent), and otherwise the first unused gene of the first parent.",
 ["inputs"],"all pairs of permutations of the same genes, all pivots, all resolutions of ties",
 "One example each, and for ERX only the permutation property is asserted.",
 [XO],[("edge_recombination_crossover, sequential_constructive_crossover",XO)],None,["the two functions"])
p("C24","GPX2 and its helpers preserve the common structure of the parents",
 "The common neighbors of two genomes are exactly the unordered pairs adjacent in both (cyclically), each reported once. The common partitions split the genes of the first genome, each gene in exactly one partition, such that consecutive genes of a partition are common neighbors and no partition could be continued at its end with a gene of a later one. The GPX2 offspring is the concatenation of these partitions in the order chosen by the selection function, which is called with the last gene placed so far (none at first) and exactly the partitions not yet used.",
 ["inputs"],"all pairs of genomes over the same distinct genes, all sequences of choices; common neighbors also for genomes of different lengths",
 "One or two examples each, all with ten or five genes.",
 [OPS,XO],[("common_neighbors, common_partitions",OPS),("generalized_partition_2_crossover",XO)],None,["common_neighbors","common_partitions","generalized_partition_2_crossover"])
p("C25","Crossover strategies apply their operator and refuse unequal parents",
 "Every crossover strategy yields a result that its operator can yield for the given parents with some pivot taken from the genes, non-empty range, point inside the genome or sequence of partitions, and over many calls uses all of these choices. Parents of different lengths make every strategy and every operator panic; empty parents give an empty offspring and the parents are never changed.",
 ["inputs","configurations"],"all strategies, parents of any lengths including 0, 1 and unequal ones, all random streams",
 "The strategy dispatch is only executed for SPX by the doc tests; mismatched and degenerate lengths never occur.",
 [XO],[("CrossoverStrategy::crossover",XO),("length assertions",XO)],None,["CrossoverStrategy::crossover"])
p("C26","Each mutation makes exactly its kind of change",
 "Swap exchanges the genes of two different places; inversion reverses, and scramble rearranges, a contiguous range of at least two genes; insertion moves one gene to another place, keeping the order of the others; in all of these no gene is lost, added or altered. Duplicate copies the gene of one place over another place and changes nothing else. Genomes with fewer than two genes are left as they are.",
 ["inputs","configurations"],"all genomes (with or without repeated genes) of any length and gene type, all random streams, direct calls and the strategy enumeration",
 "One example per mutation with one seed.",
 [MUT],[("the five mutation functions and the dispatch",MUT)],None,["the mutation functions","MutationStrategy::mutate"])
p("C27","Random positions and ranges are legal, complete and uniform",
 "A random pair consists of two different numbers below n, every ordered pair being equally likely. A random range is a non-empty sub-range of 0..n, and a bounded one has a length between the given limits (inclusive); every admitted length is equally likely and, for a given length, every start. Swap and duplicate take such a pair of places, and inversion and scramble such a range of at least two places, whatever the length of the genome; scramble gives the genes of its range every order with the same probability. So all four can reach every place of the genome. A pair below 2 numbers, a range of none and a range whose least length is above its greatest are refused by panicking; every other request (with a greatest length of at most n) is met.",
 ["inputs","configurations"],"all n and limits, all random streams including extreme values",
 "One draw each with a fixed seed.",
 [OPS,MUT],[("random_pair, random_range, bounded_random_range",OPS)],None,["the three functions"])
p("C28","Statistics describe exactly the samples seen so far",
 "After any sequence of finite samples, however they were supplied (one at a time, all at once, or mixed with taking snapshots), the statistics report their number, minimum, maximum, the positions of the first occurrences of these, the mean and the unbiased variance (0 for one sample), accurate also when the samples are large compared with their spread; the deviation is the square root of the variance. Infinite samples leave number, minimum, maximum and positions right. Without samples there is no value and no snapshot. A snapshot keeps the values of its moment whatever is recorded later; the positions can only be overridden with values below the count, which changes nothing else. As text they show these same values, to as many decimals as are asked for.",
 ["inputs","histories"],"all sequences of finite samples with ties, negative values, large offsets, any length, and all interleavings of recording and taking snapshots",
 "The doc tests use five small positive samples without ties.",
 [ST],[("record, from_iter, snapshot",ST),("PopulatedStats accessors and setters",ST)],[("count, min, max, arg_min, arg_max, avg, sum_squared","running summary",ST)],["Stats","PopulatedStats"])
p("C29","Individuals are ordered by fitness alone",
 "Comparing two individuals by fitness, and comparing their ordered wrappers, gives the order of their fitness, and wrappers are equal exactly if the fitness is equal, whatever else the individuals hold; so a heap of wrapped individuals always yields one of the fittest left, and each individual put in comes out exactly once and unchanged. Wrapping and unwrapping do not alter an individual, and changes made through a wrapper are seen by later comparisons.",
 ["inputs","histories"],"all individuals with finite or infinite fitness, all sequences of insertions and removals in ordered collections",
 "No test uses the wrapper or the comparison function directly.",
 [IND,OPS],[("Ord, PartialOrd, Eq, Deref, DerefMut of IndividualWrapper",IND),("compare_fitness",OPS)],None,["IndividualWrapper","compare_fitness"])
p("C30","The bundled OneMax problem is a faithful model",
 "A random OneMax individual has exactly the requested number of bits, each of them zero or one with equal probability and independent of the others; evaluation sets the fitness to the fraction of one bits and leaves the genome alone, so only the empty genome is invalid and only an all-ones genome has fitness 1. Its crossover is a single-point crossover of the two genomes, its mutation copies one bit over another, and every member of every generation of a OneMax run has the fitness of its genome and the requested length.",
 ["inputs","histories","configurations"],"all lengths, genomes, and runs of either algorithm",
 "The doc tests check only that a run ends with all ones.",
 [LIB],[("one_max module",LIB)],None,["one_max::OneMax","one_max::OneMaxEvolutionModel"])

p("C31","An evolution drives user-made algorithms and models through their own methods",
 "An evolution works with every implementation of the algorithm and model traits. In each run it configures the algorithm once, with the parameters it was given; obtains the initial individuals (from the caller, or from the model, asked once for the initial size of the parameters and for nothing else) and hands all of them to the algorithm's initialization; and then, for each accepted callback, has the algorithm prepared for the population just presented, lets it put its elites of that population into an empty buffer, lets it generate into that buffer, and lets it replace the population by it, each once. What a method that was overridden leaves is what the next method and the callback are given. Methods that were not overridden do what they are documented to do: the fittest member is the elite, initial individuals are evaluated and the invalid ones removed, the model breeds as many individuals as are missing to the size that the algorithm's reproduction parameters state at that moment, with the rates they state, and the whole population is replaced. A model's own breeding and survival rule, and a selection mechanism's own distinct selection, are used as they are.",
 ["inputs","histories","configurations","schedules"],"all algorithms (overriding any of the methods, with sizes and rates changing from generation to generation), all models, all three ways to start a run, all thread counts",
 "The tests only run the two bundled algorithms, which override the initialization of nothing and the selection of elites always; no test has an algorithm, a breeding or a selection of its own.",
 [EVO,ALG,MOD],[("order of the steps of a run",EVO+": run, evolve_individual, evolve_population"),("default methods",ALG+": select_elites, initialize_population, generate_new_population, replace_population"),("use of the selection mechanism",MOD+": breed")],
 [("new_population","the buffer of the next population",EVO+": evolve_population")],["EvolutionAlgorithm","EvolutionModel","SelectionMechanism","Evolution::run","Evolution::evolve_individual","Evolution::evolve_population"])

p("C32","Interpolation stays within its bounds and follows the ratio",
 "Interpolating between two numbers gives the first at ratio 0, the second at ratio 1, and in between the first plus that share of their difference (up to the rounding of floating point numbers). Between whole numbers the result is the largest whole number not above that value; so it never leaves the range, never falls while the ratio rises, and a share of a whole number is less than it for every ratio below 1.",
 ["inputs"],"all ranges of whole numbers and of floating point numbers (also reversed, negative, huge or tiny ones) whose difference is finite, and all ratios from 0 to 1",
 "The two doc tests interpolate half-way between 0 and 10.",
 [LIB],[("interpolate_f64, interpolate_usize",LIB)],None,["interpolate_f64","interpolate_usize"])

p("C33","Defaults are the documented ones, however an evolution is made",
 "Default parameters hold the documented values in every field, are accepted, and keep those values in the fields a user does not change: 100 individuals, an elitism rate of 0.01, roulette wheel selection, and crossover and mutation rates of 0.8 and 0.1 (genetic algorithm) or ranges of 0.3 to 1.0 and 0.1 to 1.0 adjusted in every generation (adaptive one). Parameters report their population size as initial and as maximal size. An evolution uses the model and parameters it is given, and behaves the same whether it was made with build_evolution, from an algorithm, or by default: so a run with defaults starts with 100 individuals and then keeps one and breeds 99 with those rates. Default reproduction parameters have the default rates and selection of the genetic algorithm.",
 ["configurations","histories"],"all subsets of changed fields and their values, all ways to make an evolution and to start a run, all sizes, every generation",
 "The doc tests use default values for some fields, but nothing checks which values these are or what a run makes of them.",
 [GA,AGA,EVO,MOD],[("Default of the parameters, reported sizes",GA+", "+AGA),("Default, From and build_evolution",EVO+", "+ALG+", "+GA+", "+AGA),("Default of ReproductionParameters",MOD)],
 None,["GeneticAlgorithmParameters","AdaptiveGeneticAlgorithmParameters","ReproductionParameters","Evolution::default","Evolution::from","EvolutionAlgorithm::build_evolution"])

p("C34","A run's random numbers come from the model's generators, which go on",
 "Everything random in a run is drawn from generators that the model made. A breeding draws from one generator only, which no other breeding uses at that time, and which goes on from where it was left: it is neither copied nor started anew. In a run, however many generations it has and whatever number of individuals is missing in each, no more generators are used for breeding than there are worker threads. So with one thread no two offspring are bred from the same random numbers, even if all generators that the model makes are alike, and then a repeated run shows the same generations.",
 ["histories","schedules","configurations"],"every run of any algorithm with any model, all numbers of generations, of missing individuals (also none or one) and of threads, generators that are alike or not",
 "The tests' generators are seeded by the operating system, so numbers that are used twice cannot be seen.",
 [EVO,ALG,MOD],[("pool of generators for the whole run",EVO+": evolve_population"),("one generator for each breeding",ALG+": generate_new_population"),("generators for initial individuals",MOD+": extend_population, extend_population_with")],
 [("pool","generators that no breeding uses now",EVO+": evolve_population")],["EvolutionModel::rng","EvolutionModel::breed","Evolution::run"])

p("C35","Operators depend on nothing but their arguments and the generator given",
 "A mutation, crossover, selection (once prepared), random range or pair, random OneMax individual, or breeding draws all that is random about it from the generator it is given. Called again with equal arguments and a generator in the same state, it has the same result and leaves the generator in the same state, whatever else was called before, in between, or by other threads at the same time; so work that is seeded alike can be reproduced. Operators that are given no generator always answer the same. The only exception is the choice between equally good genes in edge recombination.",
 ["inputs","histories","schedules"],"all random operators and strategies, all arguments, all states of the generator, and all orders of calls by any number of clients and threads",
 "The doc tests pin the result of one seeded call each, in one order, so a hidden source of randomness, a cache, or a counter that starts to count later cannot be seen.",
 [OPS,MUT,XO,SEL,MOD,LIB],[("rng parameters of the operators",OPS+", "+MUT+", "+XO+", "+SEL),("breed",MOD)],None,
 ["random_pair","random_range","bounded_random_range","MutationStrategy::mutate","CrossoverStrategy::crossover","SelectionMechanism::select","SelectionMechanism::select_distinct","EvolutionModel::breed"])

root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
