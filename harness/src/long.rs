//! Runs that are too long or too large to record: what happened is counted instead, and the counts
//! are those of the specification (`Long` in Evolution). Every bred individual has a genome of its
//! own; one generation (the peak) brings fitter individuals than all others.
use crate::evo::emit;
use crate::util::*;
use rusty_genes::*;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Debug, PartialEq)]
pub struct Unit {
    g: u64,
    f: f64,
}
impl Individual for Unit {
    fn fitness(&self) -> f64 {
        self.f
    }
}
static NEXT: AtomicU64 = AtomicU64::new(0);
static COUNTS: [AtomicUsize; 8] = [const { AtomicUsize::new(0) }; 8];
static PEAK: AtomicBool = AtomicBool::new(false);
static SPREAD: AtomicBool = AtomicBool::new(false); // big populations: different fitness, rounded up below
static CYCLE: AtomicBool = AtomicBool::new(false); // the hook sets other rates in every generation
static PEAKGEN: AtomicI64 = AtomicI64::new(0);
const RANDOM: usize = 0;
const CROSS: usize = 1;
const MUTATE: usize = 2;
const EVAL: usize = 3;
const HOOK: usize = 4;
const PREP: usize = 5;
const SELECT: usize = 6;
const IMPROVE: usize = 7;
fn count(k: usize) {
    COUNTS[k].fetch_add(1, SeqCst);
}
fn fresh() -> Unit {
    Unit { g: NEXT.fetch_add(1, SeqCst), f: 0.0 }
}
impl RandomIndividual<u8> for Unit {
    fn new_random<R: rand::Rng>(_: &u8, _: &mut R) -> Self {
        count(RANDOM);
        fresh()
    }
}
#[derive(Default)]
struct Counting;
impl EvolutionModel for Counting {
    type Individual = Unit;
    type Rng = HRng;
    fn rng() -> HRng {
        HRng::new(NEXT.fetch_add(1, SeqCst), false)
    }
    fn crossover(&self, _: &Unit, b: &Unit, _: &mut HRng) -> Unit {
        count(CROSS);
        b.clone()
    }
    fn mutate(&self, i: &mut Unit, _: &mut HRng) {
        count(MUTATE);
        *i = fresh();
    }
    fn improve(&self, i: &mut Unit) {
        count(IMPROVE);
        *i = fresh();
    }
    fn evaluate(&self, i: &mut Unit) {
        count(EVAL);
        i.f = if PEAK.load(SeqCst) { 2.0 } else { 1.0 };
        if SPREAD.load(SeqCst) {
            i.f -= (i.g % 997) as f64 / 2000.0;
        }
    }
    fn can_survive(&self, _: &Unit, _: &Unit, _: &Population<Unit>, _: &mut HRng) -> bool {
        true
    }
    fn pre_generation(&mut self, p: &Population<Unit>, b: &mut ReproductionParameters<Self>) {
        count(HOOK);
        PEAK.store(p.generation() as i64 + 1 == PEAKGEN.load(SeqCst), SeqCst);
        if CYCLE.load(SeqCst) {
            b.crossover_rate = if p.generation() % 2 == 0 { 1.0 } else { 0.0 };
            b.mutation_rate = if p.generation() % 3 == 0 { 1.0 } else { 0.0 };
        }
        if p.generation() == 0 {
            b.parent_selector = Box::new(First);
        }
    }
}
struct First;
impl SelectionMechanism<Unit, HRng> for First {
    fn prepare(&mut self, _: &Population<Unit>) {
        count(PREP);
    }
    /// What a thread selects differs from what it selected before.
    fn select<'a>(&self, p: &'a Population<Unit>, _: &mut HRng) -> (usize, &'a Unit) {
        thread_local!(static TURN: std::cell::Cell<usize> = std::cell::Cell::new(0));
        count(SELECT);
        let i = TURN.with(|t| t.replace(t.get().wrapping_add(1))) % p.len();
        (i, &p[i])
    }
}
#[derive(Debug, Clone)]
struct Conf {
    aga: bool,
    mode: &'static str,
    n: usize,
    elite: usize,
    gens: usize,
    peak: usize,
    cr: usize,
    mr: usize,
    cycle: bool,
}
fn go<A: EvolutionAlgorithm<Counting> + From<Counting>>(c: &Conf, p: &A::Parameters) -> String {
    for k in &COUNTS {
        k.store(0, SeqCst);
    }
    PEAK.store(c.peak == 0, SeqCst);
    SPREAD.store(c.n > 1000, SeqCst);
    CYCLE.store(c.cycle, SeqCst);
    PEAKGEN.store(c.peak as i64, SeqCst);
    let looks: Vec<usize> = {
        let mut l: Vec<usize> = vec![0, 1, c.peak.max(1) - 1, c.peak, c.peak + 1, c.gens.max(1) - 1, c.gens];
        l.extend([63, 64, 65, 127, 128, 255, 256, 257, 999, 1000, 1001, 4096, 32768, 65535, 65536, 65537]);
        l.retain(|&x| x <= c.gens);
        l.sort();
        l.dedup();
        l
    };
    let (mut calls, mut off, mut sizes) = (0usize, -1i64, (usize::MAX, 0));
    let mut seen = vec![];
    let res = {
        let cb = |p: &Population<Unit>| {
            if p.generation() != calls && off < 0 {
                off = calls as i64;
            }
            sizes = (sizes.0.min(p.len()), sizes.1.max(p.len()));
            if looks.contains(&calls) {
                let top = p.iter().filter(|i| i.f > 1.0).count();
                seen.push(format!("[{},{},{},{},{}]", calls, if c.n > 1000 { -1 } else { p.stagnation() as i64 }, p.fittest().f.ceil(), p.len(), top));
                at(format!("long {c:?} at {calls}"));
            }
            calls += 1;
            calls <= c.gens
        };
        guard(|| {
            let evo = A::build_evolution(Counting);
            match c.mode {
                "pop" => {
                    let p = evo.evolve_population((0..c.n).map(|_| fresh()).collect(), p, cb);
                    (-1, p.generation() as i64)
                }
                "ind" => (evo.evolve_individual(fresh(), p, cb).f.ceil() as i64, -1),
                _ => (evo.run(&0u8, p, cb).f.ceil() as i64, -1),
            }
        })
    };
    let (best, end, panic) = match res {
        Ok((b, e)) => (b, e, 0),
        Err(_) => (-9, -9, 1),
    };
    let counts = arr(COUNTS.iter().map(|x| x.load(SeqCst)));
    format!(
        "{{\"k\":\"long\",\"mode\":{},\"n\":{},\"elite\":{},\"gens\":{},\"peak\":{},\"cr\":{},\"mr\":{},\"cycle\":{},\"panic\":{panic},\"calls\":{calls},\"off\":{off},\"best\":{best},\"end\":{end},\"sizes\":[{},{}],\"counts\":{counts},\"seen\":{}}}",
        qs(c.mode), c.n, c.elite, c.gens, c.peak, c.cr, c.mr, c.cycle as u8, sizes.0.min(1 << 30), sizes.1, arr(seen)
    )
}
pub fn long(out: &mut Out, thorough: bool, pools: &[rayon::ThreadPool]) {
    let mut confs: Vec<(usize, usize, usize, usize)> = vec![
        // n, elite, generations, peak
        (1, 0, 1500, 20),
        (2, 0, 3000, 10),
        (2, 1, 70000, 100),
        (3, 2, 600, 300),
        (3, 0, 66000, 65536),
        (5, 2, 5000, 0),
        (300, 0, 20, 10),
        (257, 256, 40, 20),
        (1000, 300, 10, 3),
        (5000, 1, 4, 4),
        (70000, 40000, 3, 1),
        (66000, 0, 2, 2),
        (100000, 99999, 2, 0),
    ];
    if thorough {
        confs.extend([(1, 0, 300000, 7), (2, 1, 200000, 131072), (4, 0, 140000, 1), (20, 5, 20000, 256), (300000, 150000, 2, 1), (40000, 1, 20, 10), (1025, 1024, 300, 129)]);
    }
    for (k, &(n, elite, gens, peak)) in confs.iter().enumerate() {
        let mut ev = vec![];
        for aga in [false, true] {
            for (j, mode) in ["pop", "ind", "rand"].iter().enumerate() {
                // every configuration once or twice
                if (k + j + aga as usize) % 3 != 0 {
                    continue;
                }
                let (cr, mr) = ((k + j) % 2, (k / 2 + j / 2 + aga as usize) % 2);
                let (crf, mrf) = (cr as f64, mr as f64);
                let c = Conf { aga, mode, n, elite, gens, peak, cr, mr, cycle: (k + j) % 4 == 1 };
                at(format!("long {c:?}"));
                let rate = if elite == 0 { 0.0 } else { (elite as f64 + 0.5) / n as f64 };
                ev.push(pools[if n > 100 { 3 } else { k % 2 }].install(|| {
                    if aga {
                        let p = AdaptiveGeneticAlgorithmParameters {
                            population_size: n,
                            elitism_rate: rate,
                            crossover_rate_range: crf..crf,
                            mutation_rate_range: mrf..mrf,
                            selection_strategy: SelectionStrategy::Rank,
                            parameter_adjustment_interval: k % 4,
                        };
                        go::<AdaptiveGeneticAlgorithm<Counting>>(&c, &p)
                    } else {
                        let p = GeneticAlgorithmParameters { population_size: n, elitism_rate: rate, crossover_rate: crf, mutation_rate: mrf, selection_strategy: SelectionStrategy::Tournament(2) };
                        go::<GeneticAlgorithm<Counting>>(&c, &p)
                    }
                }));
            }
        }
        for e in ev {
            emit(e);
        }
        crate::evo::put(out, &format!("long/{k}"));
    }
}

/// A model in which whatever happens to an individual makes it worse; it always survives.
#[derive(Default)]
struct Falling;
#[derive(Clone, Debug, PartialEq)]
struct Fall(i32, f64);
impl Individual for Fall {
    fn fitness(&self) -> f64 {
        self.1
    }
}
impl EvolutionModel for Falling {
    type Individual = Fall;
    type Rng = HRng;
    fn rng() -> HRng {
        HRng::new(NEXT.fetch_add(1, SeqCst), false)
    }
    fn crossover(&self, a: &Fall, b: &Fall, _: &mut HRng) -> Fall {
        Fall(a.0.min(b.0) - 1, 0.0)
    }
    fn mutate(&self, i: &mut Fall, r: &mut HRng) {
        i.0 -= 1 + (rand::RngCore::next_u32(r) % 5) as i32;
    }
    fn evaluate(&self, i: &mut Fall) {
        i.1 = i.0 as f64;
    }
    fn can_survive(&self, _: &Fall, _: &Fall, _: &Population<Fall>, _: &mut HRng) -> bool {
        true
    }
}
/// Runs from a single individual, of all sizes: what is presented and what comes out.
pub fn singles(out: &mut Out, thorough: bool, pools: &[rayon::ThreadPool]) {
    let mut ns = vec![1, 2, 3, 7, 8, 9, 31, 64, 99, 100, 101, 255, 256, 257, 300, 499, 500, 501, 512, 513, 600, 1000, 1001, 1023, 1024, 1025, 2048, 3000, 5000, 10_000, 32_769, 65_537];
    if thorough {
        ns.extend([100_000, 131_073, 300_000, 1_000_003]);
    }
    for (k, n) in ns.into_iter().enumerate() {
        for (j, rate) in [0.0, 0.011, 0.5].into_iter().enumerate() {
            let start = 1_000_000 + k as i32;
            at(format!("single {n} {rate}"));
            let mut bests = vec![];
            let gens = 3 + (k + j) % 3;
            let cb = |p: &Population<Fall>| {
                bests.push(p.iter().map(|i| i.0).max().unwrap());
                bests.len() <= gens
            };
            let res = pools[(k + j) % 4].install(|| {
                guard(|| {
                    let one = Fall(start, 0.0);
                    if (k + j) % 2 == 0 {
                        let p = GeneticAlgorithmParameters { population_size: n, elitism_rate: rate, crossover_rate: 0.5, mutation_rate: 1.0, selection_strategy: SelectionStrategy::Tournament(2) };
                        GeneticAlgorithm::build_evolution(Falling).evolve_individual(one, &p, cb).0
                    } else {
                        let p = AdaptiveGeneticAlgorithmParameters { population_size: n, elitism_rate: rate, mutation_rate_range: 1.0..1.0, selection_strategy: SelectionStrategy::Rank, ..Default::default() };
                        AdaptiveGeneticAlgorithm::build_evolution(Falling).evolve_individual(one, &p, cb).0
                    }
                })
            });
            emit(format!(
                "{{\"k\":\"single\",\"n\":{n},\"start\":{start},\"gens\":{gens},\"panic\":{},\"bests\":{},\"res\":{}}}",
                res.is_err() as u8, arr(&bests), res.as_ref().map_or(-1, |&x| x)
            ));
        }
        crate::evo::put(out, &format!("single/{n}"));
    }
}
