From aab23bcfba1853d0b432ec010bf543182ff813fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 01/12] fix: keep the offspring when only one is missing in the
 new generation

The bred individual was dropped, so a population of size one panicked on its
first generation, and with all but one place taken by elites no new individual
could ever enter the population.
---
 src/algorithms.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index bea0880..2a2241a 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -219,8 +219,10 @@ pub trait EvolutionAlgorithm<M: EvolutionModel> {
             0 => {}
             1 => {
                 let mut rng = rng_pool.pull(M::rng);
-                self.model()
+                let individual = self
+                    .model()
                     .breed(population, breeding_parameters, &mut *rng);
+                offspring.push(individual);
             }
             size => {
                 offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
-- 
2.43.0


From 9c5175bdefe4e72a9980dad1622ea2342e94524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 02/12] fix: remove duplicates that share their fitness with
 other individuals

Sorting by fitness does not make equal individuals adjacent, so removing only
adjacent duplicates left some of them in the population.
---
 src/population.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/population.rs b/src/population.rs
index d96fb99..c80e837 100644
--- a/src/population.rs
+++ b/src/population.rs
@@ -129,7 +129,7 @@ impl<I: Individual> From<Population<I>> for Vec<I> {
 #[inline]
 fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> PopulatedStats {
     individuals.par_sort_unstable_by(compare_fitness);
-    individuals.dedup();
+    dedup_sorted(individuals);
     individuals
         .iter()
         .map(|i| i.fitness())
@@ -137,3 +137,22 @@ fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> Popu
         .try_into()
         .unwrap()
 }
+
+/// Removes the duplicates from a vector of individuals that is sorted by fitness.
+///
+/// Equal individuals have the same fitness, but they are not necessarily adjacent because other
+/// individuals may have that fitness too.
+fn dedup_sorted<I: Individual>(individuals: &mut Vec<I>) {
+    let mut run_start = 0;
+    let mut len = 0;
+    for i in 0..individuals.len() {
+        if compare_fitness(&individuals[run_start], &individuals[i]).is_ne() {
+            run_start = len;
+        }
+        if !individuals[run_start..len].contains(&individuals[i]) {
+            individuals.swap(len, i);
+            len += 1;
+        }
+    }
+    individuals.truncate(len);
+}
-- 
2.43.0


From 71fb6eefc93b0c07e1a783a46f42de7378a8656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 03/12] fix: return the best individual of the whole run

run and evolve_individual promise the best individual found during the
execution, but returned the fittest one of the last generation, which can be
worse when no elite is carried over.
---
 src/evolution.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/evolution.rs b/src/evolution.rs
index 5fae56e..14ad80b 100644
--- a/src/evolution.rs
+++ b/src/evolution.rs
@@ -57,8 +57,7 @@ where
             parameters.initial_population_size(),
             args,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_fittest(individuals, parameters, progress)
     }
 
     /// Runs the evolutionary algorithm with an initial population based on a single individual.
@@ -100,8 +99,7 @@ where
             parameters.initial_population_size(),
             individual,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_fittest(individuals, parameters, progress)
     }
 
     /// Runs the evolutionary algorithm on a given population.
@@ -181,6 +179,28 @@ where
 
         population
     }
+
+    /// Runs the evolutionary algorithm on a given population, and returns the fittest individual
+    /// of all generations. Without elitism it may be missing from the last one.
+    fn evolve_fittest<F>(
+        &self,
+        initial_population: Vec<M::Individual>,
+        parameters: &A::Parameters,
+        mut progress: F,
+    ) -> M::Individual
+    where
+        F: FnMut(&Population<M::Individual>) -> bool,
+    {
+        let mut best: Option<M::Individual> = None;
+        let population = self.evolve_population(initial_population, parameters, |population| {
+            let fittest = population.fittest();
+            if !matches!(&best, Some(best) if best.fitness() >= fittest.fitness()) {
+                best = Some(fittest.clone());
+            }
+            progress(population)
+        });
+        best.unwrap_or_else(|| population.take_fittest())
+    }
 }
 
 impl<A, M> Default for Evolution<A, M>
-- 
2.43.0


From 86503813f8d82fff235d9df6e64c6ee529897b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 04/12] fix: make linear selection work with a bias of or near
 one

With a bias of one the formula was 0/0 and the fittest individual was always
selected, instead of all being equally likely. Near one, rounding errors could
make the index underflow.
---
 src/operators/selection.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index abdaa27..021a7d7 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -464,14 +464,11 @@ where
 
     #[inline]
     fn select<'a>(&self, population: &'a Population<I>, rng: &mut R) -> (usize, &'a I) {
-        let index = population.len()
-            - ((population.len() as f64)
-                * (self.bias
-                    - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>())
-                        .sqrt()))
-                / 2.0
-                / (self.bias - 1.0)) as usize
-            - 1;
+        // This form of the root is also accurate when the bias is one or close to one
+        let random = rng.gen::<f64>();
+        let root = (self.bias * self.bias - 4.0 * (self.bias - 1.0) * random).sqrt();
+        let rank = ((population.len() as f64) * 2.0 * random / (self.bias + root)) as usize;
+        let index = (population.len() - 1).saturating_sub(rank);
         (index, &population[index])
     }
 }
-- 
2.43.0


From bcab05115d48ac45373c205abfb57c2ac40b99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:12 +0000
Subject: [PATCH 05/12] fix: keep Boltzmann selection favoring the fittest at
 low temperatures

Once the temperature had cooled enough, the exponentials overflowed to infinity
(or, for negative fitness scores, vanished) and the first such individual, that
is the least fit one, was always selected.
---
 src/operators/selection.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index 021a7d7..51b9735 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -241,6 +241,7 @@ where
 pub struct BoltzmannSelection {
     temperature: f64,
     cooling_rate: f64,
+    max_fitness: f64,
     total_scaled_fitness: f64,
 }
 
@@ -254,6 +255,7 @@ impl BoltzmannSelection {
         Self {
             temperature,
             cooling_rate,
+            max_fitness: 0.0,
             total_scaled_fitness: 0.0,
         }
     }
@@ -282,10 +284,16 @@ impl BoltzmannSelection {
         self.cooling_rate = cooling_rate
     }
 
-    /// Calculates the Boltzmann scaled fitness of an individual.
+    /// Calculates the Boltzmann scaled fitness of an individual, relative to the one of the fittest
+    /// individual. This way, no low temperature can make all values overflow or vanish.
     #[inline]
     fn scaled_fitness<I: Individual>(&self, individual: &I) -> f64 {
-        (individual.fitness() / self.temperature).exp()
+        let gap = individual.fitness() - self.max_fitness;
+        if gap == 0.0 {
+            1.0
+        } else {
+            (gap / self.temperature).exp()
+        }
     }
 }
 
@@ -297,6 +305,7 @@ where
     #[inline]
     fn prepare(&mut self, population: &Population<I>) {
         self.temperature *= self.cooling_rate;
+        self.max_fitness = population.stats().max();
         self.total_scaled_fitness = population
             .par_iter()
             .map(|i| self.scaled_fitness(i))
-- 
2.43.0


From d368cfcbb94d86449972d6ed69195132cf0c464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 06/12] fix: adapt the rates when the initial population has no
 diversity

With no deviation in the initial and the current population the diversity was
0/0, and the NaN rates disabled crossover and mutation, instead of raising the
mutation rate.
---
 src/algorithms/aga.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/aga.rs b/src/algorithms/aga.rs
index 17464f7..b3cef21 100644
--- a/src/algorithms/aga.rs
+++ b/src/algorithms/aga.rs
@@ -203,7 +203,12 @@ impl<M: EvolutionModel> EvolutionAlgorithm<M> for AdaptiveGeneticAlgorithm<M> {
                 self.breeding.mutation_rate = self.mutation_rate_range.start;
             }
             n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
-                let diversity = (population.stats().std() / self.reference_std).clamp(0.0, 1.0);
+                let std = population.stats().std();
+                let diversity = if std > 0.0 {
+                    (std / self.reference_std).clamp(0.0, 1.0)
+                } else {
+                    0.0
+                };
 
                 self.breeding.crossover_rate = interpolate_f64(
                     self.crossover_rate_range.start,
-- 
2.43.0


From 5065ad14561bc130e4b847c875d2d1cf839bd9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 07/12] fix: make order crossover accept an empty range

It returned a genome made of copies of one gene, or did not terminate when the
range was at the end of the genome.
---
 src/operators/crossover.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index ef05a53..7a7121d 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -492,6 +492,10 @@ where
 
     let p1 = range.start;
     let p2 = range.end;
+    if p1 == p2 {
+        return parent2.to_vec();
+    }
+
     let mut genome = vec![parent1[0]; n];
 
     // Copy the genes from the range in parent1 to the offspring
-- 
2.43.0


From 345c77ca8d8a0866a44acaa812cd3ef6a1801dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 08/12] fix: reject parents of different lengths in GPX2

CrossoverStrategy::crossover documents this panic for all strategies.
---
 src/operators/crossover.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index 7a7121d..084f259 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -127,6 +127,9 @@ impl CrossoverStrategy {
 /// # Note
 /// GPX2 is applicable to permutation-based problems.
 ///
+/// # Panics
+/// This method will panic if the parent genomes have different lengths.
+///
 /// # Example
 /// ```
 /// use rusty_genes::*;
@@ -158,6 +161,8 @@ where
     G: Copy + PartialOrd + Eq + Hash,
     F: FnMut(Option<&G>, &[Vec<G>]) -> usize,
 {
+    assert!(parent1.len() == parent2.len());
+
     let mut offspring = Vec::with_capacity(parent1.len());
 
     let mut genes_in_selected_partition = HashSet::with_capacity(offspring.len());
-- 
2.43.0


From 4e4e9bb46a03efb63ba56811ae7f164393c63dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 09/12] fix: let all crossover strategies accept empty genomes

The operators and the mutations accept them, but five of the strategies panicked
while choosing a random position.
---
 src/operators/crossover.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index 084f259..ce4a08c 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -71,6 +71,10 @@ impl CrossoverStrategy {
         parent2: &[G],
         rng: &mut R,
     ) -> Vec<G> {
+        if parent1.is_empty() && parent2.is_empty() {
+            return Vec::new();
+        }
+
         match self {
             Self::GeneralizedPartition2 => {
                 generalized_partition_2_crossover(parent1, parent2, |_, partitions| {
-- 
2.43.0


From 3aa7c0c08699d051b0f110e017ab37ed9cd3d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 10/12] fix: find the common neighbors of genomes with two
 genes

The result depended on which genome was the first one: it was empty when the
second one had two genes, and had the same pair twice when the first one had.
---
 src/operators.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/operators.rs b/src/operators.rs
index 2c09bc9..1db44af 100644
--- a/src/operators.rs
+++ b/src/operators.rs
@@ -137,7 +137,7 @@ pub fn common_neighbors<G>(genome1: &[G], genome2: &[G]) -> Vec<(G, G)>
 where
     G: Copy + PartialOrd + Eq + Hash,
 {
-    if genome1.len() < 2 || genome2.len() <= 2 {
+    if genome1.len() < 2 || genome2.len() < 2 {
         return Vec::new();
     }
 
@@ -156,10 +156,9 @@ where
         genome1
             .windows(2)
             .map(|w| neighbor(&w[0], &w[1]))
-            .chain(std::iter::once(neighbor(
-                genome1.last().unwrap(),
-                genome1.first().unwrap(),
-            ))),
+            .chain((genome1.len() > 2).then(|| {
+                neighbor(genome1.last().unwrap(), genome1.first().unwrap())
+            })),
     );
     neighbors2.extend(
         genome2
-- 
2.43.0


From 643644ec4d99950c218fc4e4150f4e8c3b63c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 11/12] fix: keep the adaptive rates defined when the deviation
 of the fitness overflows

---
 src/algorithms/aga.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/aga.rs b/src/algorithms/aga.rs
index b3cef21..f95fa7b 100644
--- a/src/algorithms/aga.rs
+++ b/src/algorithms/aga.rs
@@ -204,10 +204,9 @@ impl<M: EvolutionModel> EvolutionAlgorithm<M> for AdaptiveGeneticAlgorithm<M> {
             }
             n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
                 let std = population.stats().std();
-                let diversity = if std > 0.0 {
-                    (std / self.reference_std).clamp(0.0, 1.0)
-                } else {
-                    0.0
+                let diversity = match std / self.reference_std {
+                    ratio if ratio.is_nan() => 0.0, // Neither 0/0 nor inf/inf is a ratio
+                    ratio => ratio.clamp(0.0, 1.0),
                 };
 
                 self.breeding.crossover_rate = interpolate_f64(
-- 
2.43.0


From 0b8710d1680fbc5d6b0f74280deb3c64260b612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:29 +0000
Subject: [PATCH 12/12] fix: find common neighbors among genes that are not
 ordered with each other

For genes a and b with neither a < b nor b < a the pair depends on the order in
which they stand, so it was not found if the other genome has them reversed.
---
 src/operators.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators.rs b/src/operators.rs
index 1db44af..e45a59f 100644
--- a/src/operators.rs
+++ b/src/operators.rs
@@ -170,7 +170,8 @@ where
             ))),
     );
 
-    neighbors1.retain(|neighbor| neighbors2.contains(neighbor));
+    // Genes that are not ordered may be paired either way
+    neighbors1.retain(|&(a, b)| neighbors2.contains(&(a, b)) || neighbors2.contains(&(b, a)));
     neighbors1
 }
 
-- 
2.43.0

