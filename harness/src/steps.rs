//! The steps of the algorithms, called directly and counted, for every size: the elites of a rate,
//! the individuals bred for a size, the intake of initial individuals (`Quota`, `Brood` and `Intake`
//! in Evolution).
use crate::evo::{emit, put};
use crate::util::*;
use rusty_genes::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Debug, PartialEq)]
struct Body {
    g: u64,
    f: f64,
    times: u8, // evaluated how often
}
fn body(g: u64) -> Body {
    Body { g, f: -1.0, times: 0 }
}
fn worth(g: u64) -> f64 {
    if g % 7 == 3 { [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][g as usize / 7 % 3] } else { g as f64 / 4.0 }
}
impl Individual for Body {
    fn fitness(&self) -> f64 {
        self.f
    }
}
const FRESH: u64 = 1 << 40;
static NEXT: AtomicU64 = AtomicU64::new(0);
static MADE: AtomicUsize = AtomicUsize::new(0);
static EVALS: AtomicUsize = AtomicUsize::new(0);
#[derive(Default)]
struct Steps;
impl EvolutionModel for Steps {
    type Individual = Body;
    type Rng = HRng;
    fn rng() -> HRng {
        HRng::new(NEXT.fetch_add(1, SeqCst), false)
    }
    fn crossover(&self, a: &Body, _: &Body, _: &mut HRng) -> Body {
        a.clone()
    }
    fn mutate(&self, _: &mut Body, _: &mut HRng) {}
    fn improve(&self, i: &mut Body) {
        MADE.fetch_add(1, SeqCst);
        i.g = FRESH + 7 * NEXT.fetch_add(1, SeqCst);
        i.times = 0;
    }
    fn evaluate(&self, i: &mut Body) {
        EVALS.fetch_add(1, SeqCst);
        i.f = worth(i.g);
        i.times += 1;
    }
}
struct Conf {
    n: usize,
    rate: f64,
}
trait Steppable: EvolutionAlgorithm<Steps> + From<Steps> {
    const AGA: u8;
    fn make(c: &Conf) -> Self;
}
impl Steppable for GeneticAlgorithm<Steps> {
    const AGA: u8 = 0;
    fn make(c: &Conf) -> Self {
        let mut a = Self::from(Steps);
        a.configure(&GeneticAlgorithmParameters { population_size: c.n, elitism_rate: c.rate, selection_strategy: SelectionStrategy::Rank, ..Default::default() });
        a
    }
}
impl Steppable for AdaptiveGeneticAlgorithm<Steps> {
    const AGA: u8 = 1;
    fn make(c: &Conf) -> Self {
        let mut a = Self::from(Steps);
        a.configure(&AdaptiveGeneticAlgorithmParameters { population_size: c.n, elitism_rate: c.rate, selection_strategy: SelectionStrategy::Rank, ..Default::default() });
        a
    }
}
/// Valid individuals 0.25 apart in fitness.
fn crowd(n: usize) -> Vec<Body> {
    (0..n as u64).map(|k| Body { g: 7 * k, f: worth(7 * k), times: 1 }).collect()
}

fn quota<A: Steppable>(p: &Population<Body>, n: usize, a: u64, b: u64, side: i32, eps: f64) -> String {
    let rate = a as f64 / b as f64 * (1.0 + side as f64 * eps);
    at(format!("elites of {n} at {a}/{b} {side} {eps}"));
    let res = guard(|| {
        let alg = A::make(&Conf { n, rate });
        let mut e = vec![];
        alg.select_elites(p, &mut e);
        let mut g: Vec<u64> = e.iter().map(|i| i.g / 7).collect();
        g.sort();
        g.dedup();
        let same = e.iter().all(|i| p.contains(i));
        (e.len(), g.len(), g.first().map_or(-1, |&x| x as i64), same as u8)
    });
    let (got, different, low, same) = res.unwrap_or((99_999_999, 0, 0, 0));
    format!("{{\"k\":\"quota\",\"aga\":{},\"n\":{n},\"a\":{a},\"b\":{b},\"side\":{side},\"len\":{},\"got\":{got},\"different\":{different},\"low\":{low},\"same\":{same}}}", A::AGA, p.len())
}
fn brood<A: Steppable>(p: &Population<Body>, n: usize, had: usize) -> String {
    at(format!("breeding for {n} with {had}"));
    let res = guard(|| {
        let mut alg = A::make(&Conf { n, rate: 0.0 });
        alg.prepare_for_next_population(p);
        let mut off: Vec<Body> = (0..had as u64).map(|k| Body { g: 3 + 7 * k, f: 0.5, times: 9 }).collect();
        let pool = object_pool::Pool::new(rayon::current_num_threads(), Steps::rng);
        MADE.store(0, SeqCst);
        EVALS.store(0, SeqCst);
        alg.generate_new_population(p, &mut off, &pool);
        let kept = off.iter().filter(|i| i.times == 9).count();
        let mut new: Vec<u64> = off.iter().filter(|i| i.times == 1 && i.g >= FRESH).map(|i| i.g).collect();
        new.sort();
        new.dedup();
        (MADE.load(SeqCst), EVALS.load(SeqCst), off.len(), kept, new.len())
    });
    let (made, evals, got, kept, new) = res.unwrap_or((0, 0, 99_999_999, 0, 0));
    format!("{{\"k\":\"brood\",\"aga\":{},\"n\":{n},\"had\":{had},\"len\":{},\"made\":{made},\"evals\":{evals},\"got\":{got},\"kept\":{kept},\"new\":{new}}}", A::AGA, p.len())
}
fn intake<A: Steppable>(n: usize, from: u64) -> String {
    at(format!("intake of {n} from {from}"));
    let v: Vec<Body> = (from..from + n as u64).map(body).collect();
    let bad = v.iter().filter(|i| i.g % 7 == 3).count();
    let res = guard(|| {
        let alg = A::make(&Conf { n: 5, rate: 0.0 });
        EVALS.store(0, SeqCst);
        let p = alg.initialize_population(v);
        let right = p.iter().filter(|i| i.times == 1 && i.f == worth(i.g)).count();
        (EVALS.load(SeqCst), p.len(), right)
    });
    let (evals, members, right) = res.unwrap_or((0, 99_999_999, 0));
    format!("{{\"k\":\"intake\",\"aga\":{},\"n\":{n},\"bad\":{bad},\"evals\":{evals},\"members\":{members},\"right\":{right}}}", A::AGA)
}

pub fn steps(out: &mut Out, seed: u64, thorough: bool) {
    use rand::Rng;
    let pools = crate::evo::pools();
    let mut r = rng(seed, 95);
    let pops: Vec<Population<Body>> = [1usize, 2, 3, 10, 40, 300, 2000].iter().map(|&n| Population::new(crowd(n))).collect();
    let flush = |ev: &mut Vec<String>, out: &mut Out, id: String| {
        for e in ev.drain(..) {
            emit(e);
        }
        put(out, &id);
    };
    let mut ev = vec![];
    // elites
    let mut k = 0usize;
    let mut one = |ev: &mut Vec<String>, n: usize, a: u64, b: u64, side: i32, eps: f64| {
        if a >= b || side < 0 && a == 0 || side > 0 && a + 1 == b && b > 100_000 || side == 0 && n as u64 * a % b == 0 && !b.is_power_of_two() {
            return;
        }
        k += 1;
        // mostly a full population, at times one that has shrunk
        let p = pops.iter().filter(|p| p.len() >= n.min(2000) || k % 5 == 0).nth(k % 3).unwrap_or(&pops[6]);
        ev.push(if k % 2 == 0 { quota::<GeneticAlgorithm<Steps>>(p, n, a, b, side, eps) } else { quota::<AdaptiveGeneticAlgorithm<Steps>>(p, n, a, b, side, eps) });
    };
    for n in 1..=24usize {
        for a in 0..=n as u64 {
            for side in [-1, 0, 1] {
                for eps in [1e-7, 1e-10, 1e-13] {
                    one(&mut ev, n, a, n as u64, side, eps);
                }
            }
        }
        flush(&mut ev, out, format!("quota/{n}"));
    }
    for t in 0..(if thorough { 20_000 } else { 1500 }) {
        let n = [r.gen_range(1..60), r.gen_range(1..2001), [1, 2, 3, 10, 50, 100, 128, 200, 256, 1000, 1024, 4096, 100_000, 1_000_000][r.gen_range(0..14)]][t % 3];
        let b = [2u64, 4, 8, 64, 1024, 3, 10, 100, 1000, 7][r.gen_range(0..10)];
        let a = r.gen_range(0..b);
        one(&mut ev, n, a, b, r.gen_range(-1..=1), [1e-7, 1e-10, 1e-13][r.gen_range(0..3)]);
        if ev.len() > 100 {
            flush(&mut ev, out, format!("quota/random{t}"));
        }
    }
    flush(&mut ev, out, "quota/last".into());
    // breeding
    let mut sizes: Vec<usize> = (1..=140).collect();
    sizes.extend([199, 200, 255, 256, 257, 300, 383, 384, 500, 511, 512, 513, 640, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 5000, 10_000, 16_384, 40_000, 65_535, 65_536, 65_537]);
    for (j, &n) in sizes.iter().enumerate() {
        let hads: Vec<usize> = if n <= 12 { (0..=n).collect() } else { vec![0, 1, r.gen_range(0..n), n - 1, n] };
        for (i, &had) in hads.iter().enumerate() {
            if n > 3000 && !thorough && i > 1 {
                continue;
            }
            let p = &pops[r.gen_range(0..6)];
            let pool = &pools[(i + j) % 4];
            ev.push(pool.install(|| if (i + j) % 2 == 0 { brood::<GeneticAlgorithm<Steps>>(p, n, had) } else { brood::<AdaptiveGeneticAlgorithm<Steps>>(p, n, had) }));
        }
        flush(&mut ev, out, format!("brood/{n}"));
    }
    // intake
    for (j, &n) in sizes.iter().enumerate() {
        for (i, from) in [0u64, 4, r.gen_range(0..1000)].into_iter().enumerate() {
            if n == 1 && from % 7 == 3 {
                continue; // nothing valid
            }
            ev.push(pools[(i + j) % 4].install(|| if (i + j) % 2 == 0 { intake::<GeneticAlgorithm<Steps>>(n, from) } else { intake::<AdaptiveGeneticAlgorithm<Steps>>(n, from) }));
        }
        if j % 8 == 0 {
            flush(&mut ev, out, format!("intake/{n}"));
        }
    }
    flush(&mut ev, out, "intake/last".into());
}
