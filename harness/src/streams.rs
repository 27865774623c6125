//! Which random numbers a run uses (C34), for StreamTrace.
use crate::util::*;
use rand::prelude::*;
use rusty_genes::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// A generator that knows its name and how many numbers it has yielded.
pub struct SRng {
    s: SmallRng,
    id: u32,
    n: u64,
}
impl RngCore for SRng {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.n += 1;
        let v = self.s.next_u64();
        notes(|n| {
            if !n.breeding {
                n.yielded.insert(v);
            }
        });
        v
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.n += 1;
        self.s.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
#[derive(Default)]
struct Notes {
    alike: bool,
    log: bool,
    breeding: bool,
    made: u32,
    ev: Vec<String>,
    left: HashMap<u32, u64>,
    held: HashMap<usize, u32>,
    bred: HashSet<u32>,
    most: usize,
    first: Vec<u64>,
    back: u64,
    mixed: u64,
    yielded: HashSet<u64>,
    foreign: u64,
}
static NOTES: Mutex<Option<Notes>> = Mutex::new(None);
fn notes<T>(f: impl FnOnce(&mut Notes) -> T) -> T {
    f(NOTES.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Notes::default))
}
static TIDS: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static TID: usize = TIDS.fetch_add(1, SeqCst);
}
fn take(r: &SRng) {
    let t = TID.with(|t| *t);
    notes(|n| {
        if n.held.values().any(|&g| g == r.id) || r.n < *n.left.get(&r.id).unwrap_or(&0) {
            n.back += 1;
        }
        let breed = n.breeding;
        n.held.insert(t, r.id);
        if breed {
            n.bred.insert(r.id);
            n.first.push(r.n);
        }
        if n.log {
            n.ev.push(format!("{{\"k\":\"take\",\"t\":{t},\"g\":{},\"p\":{},\"breed\":{}}}", r.id, r.n, breed as u8));
        }
    })
}
fn draw(r: &SRng) {
    let t = TID.with(|t| *t);
    notes(|n| {
        if n.held.get(&t) != Some(&r.id) {
            n.mixed += 1;
        }
        if n.log {
            n.ev.push(format!("{{\"k\":\"draw\",\"t\":{t},\"g\":{},\"p\":{}}}", r.id, r.n));
        }
    })
}
fn give(r: &SRng) {
    let t = TID.with(|t| *t);
    notes(|n| {
        if n.held.remove(&t) != Some(r.id) {
            n.mixed += 1;
        }
        n.left.insert(r.id, r.n);
        if n.log {
            n.ev.push(format!("{{\"k\":\"give\",\"t\":{t},\"g\":{},\"p\":{}}}", r.id, r.n));
        }
    })
}

#[derive(Clone, Debug, PartialEq)]
struct Dot(u32);
impl Individual for Dot {
    fn fitness(&self) -> f64 {
        self.0 as f64 + 1.0
    }
}
impl RandomIndividual<()> for Dot {
    fn new_random<R: Rng>(_: &(), r: &mut R) -> Self {
        let v = r.next_u64();
        notes(|n| n.foreign += !n.yielded.contains(&v) as u64);
        Dot((v >> 32) as u32)
    }
}
macro_rules! model {
    ($m:ident { $($own:tt)* }) => {
        struct $m;
        impl EvolutionModel for $m {
            type Individual = Dot;
            type Rng = SRng;
            fn rng() -> SRng {
                notes(|n| {
                    n.made += 1;
                    if n.log {
                        n.ev.push(format!("{{\"k\":\"new\",\"g\":{}}}", n.made));
                    }
                    SRng { s: SmallRng::seed_from_u64(if n.alike { 1 } else { n.made as u64 }), id: n.made, n: 0 }
                })
            }
            fn crossover(&self, a: &Dot, b: &Dot, r: &mut SRng) -> Dot {
                let d = Dot(a.0 ^ b.0 ^ r.gen::<u32>());
                draw(r);
                d
            }
            fn mutate(&self, i: &mut Dot, r: &mut SRng) {
                let breeding = notes(|n| n.breeding);
                if !breeding {
                    take(r);
                }
                i.0 = r.gen();
                if breeding {
                    draw(r)
                } else {
                    give(r)
                }
            }
            fn evaluate(&self, _: &mut Dot) {}
            fn pre_generation(&mut self, _: &Population<Dot>, p: &mut ReproductionParameters<Self>) {
                notes(|n| n.breeding = true);
                p.parent_selector = Box::new(Sel);
            }
            fn can_survive(&self, _: &Dot, _: &Dot, _: &Population<Dot>, r: &mut SRng) -> bool {
                let x = r.gen();
                give(r);
                x
            }
            $($own)*
        }
    };
}
model!(Plain {});
model!(Own {
    fn breed(&self, p: &Population<Dot>, _: &ReproductionParameters<Self>, r: &mut SRng) -> Dot {
        take(r);
        let d = Dot(p[r.gen_range(0..p.len())].0 ^ r.gen::<u32>());
        give(r);
        d
    }
});
/// Selects as the model's generator says, and is the first thing a breeding does.
struct Sel;
impl SelectionMechanism<Dot, SRng> for Sel {
    fn prepare(&mut self, _: &Population<Dot>) {}
    fn select<'a>(&self, p: &'a Population<Dot>, r: &mut SRng) -> (usize, &'a Dot) {
        take(r);
        let i = r.gen_range(0..p.len());
        (i, &p[i])
    }
    fn select_distinct<'a>(&self, p: &'a Population<Dot>, r: &mut SRng, _: usize, not: &Dot) -> Option<(usize, &'a Dot)> {
        let i = r.gen_range(0..p.len());
        draw(r);
        (p[i] != *not).then(|| (i, &p[i]))
    }
}
/// An algorithm that needs another number of individuals in every generation.
struct Sizes {
    first: usize,
    needs: Vec<usize>,
}
impl EvolutionParameters for Sizes {
    fn initial_population_size(&self) -> usize {
        self.first
    }
    fn max_population_size(&self) -> usize {
        self.first
    }
    fn validate(&self) {}
}
struct Varying<M: EvolutionModel> {
    model: M,
    needs: Vec<usize>,
    now: usize,
    breeding: ReproductionParameters<M>,
}
impl<M: EvolutionModel<Individual = Dot, Rng = SRng>> EvolutionAlgorithm<M> for Varying<M> {
    type Parameters = Sizes;
    fn model(&self) -> &M {
        &self.model
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) {
        (&self.breeding, self.now)
    }
    fn configure(&mut self, p: &Sizes) {
        self.needs = p.needs.clone();
    }
    fn prepare_for_next_population(&mut self, p: &Population<Dot>) {
        self.model.pre_generation(p, &mut self.breeding);
        // besides the elite
        self.now = 1 + self.needs[p.generation() % self.needs.len()];
    }
}
impl<M: EvolutionModel> From<M> for Varying<M> {
    fn from(model: M) -> Self {
        Varying { model, needs: vec![], now: 0, breeding: Default::default() }
    }
}

#[derive(Clone, Debug)]
struct Job {
    threads: usize,
    alg: usize,
    own: bool,
    start: usize,
    size: usize,
    elites: i64,
    needs: Vec<usize>,
    gens: usize,
    alike: bool,
    log: bool,
    again: bool,
    same: bool,
}
fn go<A, M>(m: M, j: &Job, p: &A::Parameters) -> Vec<u64>
where
    M: EvolutionModel<Individual = Dot, Rng = SRng> + Send,
    A: EvolutionAlgorithm<M> + From<M>,
{
    let mut seen = vec![];
    let e = A::build_evolution(m);
    for round in 0..1 + j.again as usize {
        notes(|n| {
            n.breeding = false;
            n.most = n.most.max(n.bred.len());
            n.bred.clear();
            if n.log {
                n.ev.push(format!("{{\"k\":\"run\",\"threads\":{}}}", j.threads));
            }
        });
        let ask = |q: &Population<Dot>| {
            seen.push(q.iter().fold(0, |x: u64, d| (x * 31 + d.0 as u64) % 1_000_000_007));
            q.generation() < j.gens + if j.same { 0 } else { round }
        };
        match j.start {
            0 => drop(e.run(&(), p, ask)),
            1 => drop(e.evolve_individual(Dot(77), p, ask)),
            _ => drop(e.evolve_population((1..=j.size as u32).map(Dot).collect(), p, ask)),
        }
    }
    seen
}
fn with<M: EvolutionModel<Individual = Dot, Rng = SRng> + Send>(m: M, j: &Job) -> Vec<u64> {
    let elitism_rate = j.elites as f64 / 1000.0;
    match j.alg {
        0 => go::<GeneticAlgorithm<M>, M>(m, j, &GeneticAlgorithmParameters { population_size: j.size, elitism_rate, crossover_rate: 0.6, mutation_rate: 0.4, ..Default::default() }),
        1 => go::<AdaptiveGeneticAlgorithm<M>, M>(m, j, &AdaptiveGeneticAlgorithmParameters { population_size: j.size, elitism_rate, ..Default::default() }),
        _ => go::<Varying<M>, M>(m, j, &Sizes { first: j.size, needs: j.needs.clone() }),
    }
}
fn run(j: &Job) -> (Result<Vec<u64>, String>, Notes) {
    *NOTES.lock().unwrap_or_else(|e| e.into_inner()) = Some(Notes { alike: j.alike, log: j.log, ..Notes::default() });
    let pool = rayon::ThreadPoolBuilder::new().num_threads(j.threads).build().unwrap();
    let res = guard(|| pool.install(|| if j.own { with(Own, j) } else { with(Plain, j) }));
    (res, notes(std::mem::take))
}
/// Each use of a generator; `again` makes another run on the same instance.
fn logged(j: &Job) -> (Vec<String>, u64) {
    let (res, n) = run(&Job { log: true, ..j.clone() });
    let mut ev = n.ev;
    ev.push(format!("{{\"k\":\"end\",\"panic\":{},\"foreign\":{}}}", res.is_err() as u8, n.foreign));
    let k = ev.len() as u64;
    (ev, k)
}
fn counted(j: &Job) -> String {
    let (res, n) = run(j);
    format!(
        "{{\"k\":\"long\",\"threads\":{},\"bred\":{},\"back\":{},\"mixed\":{},\"foreign\":{},\"panic\":{}}}",
        j.threads, n.most.max(n.bred.len()), n.back, n.mixed, n.foreign, res.is_err() as u8
    )
}
/// On two instances, and on one.
fn twice(j: &Job) -> Vec<String> {
    let j = Job { threads: 1, alike: true, again: false, same: false, ..j.clone() };
    let (a, n) = run(&j);
    let (b, _) = run(&j);
    let (c, _) = run(&Job { again: true, same: true, ..j });
    let c = c.unwrap_or_default();
    let twin = |a: &[u64], b: &[u64], first| format!("{{\"k\":\"twin\",\"a\":{},\"b\":{},\"first\":{}}}", arr(a), arr(b), first);
    let (c, d) = c.split_at(c.len() / 2);
    vec![twin(&a.unwrap_or_default(), &b.unwrap_or_default(), arr(n.first)), twin(c, d, arr::<u64>([]))]
}

pub fn streams(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 134);
    let case = |out: &mut Out, id: String, (ev, n): (Vec<String>, u64)| out.case(format!("{{\"id\":{},\"ev\":{}}}", qs(&id), arr(ev)), n);
    let plain = Job { threads: 1, alg: 2, own: false, start: 2, size: 3, elites: 0, needs: vec![], gens: 3, alike: true, log: false, again: false, same: false };
    for l in lines {
        at(format!("streams {l}"));
        let v = parse_nested(l);
        let needs: Vec<usize> = v[1].nums().iter().map(|&x| x as usize).collect();
        for own in [false, true] {
            let j = Job { threads: v[0].num() as usize, own, gens: needs.len(), needs: needs.clone(), ..plain.clone() };
            case(out, format!("replay {l} {own}"), logged(&j));
            case(out, format!("twice {l} {own}"), (twice(&j), 2));
        }
    }
    for k in 0..if thorough { 900 } else { 90 } {
        let j = Job {
            threads: *[1, 1, 2, 3, 4, 8, 16].choose(&mut r).unwrap(),
            alg: r.gen_range(0..3),
            own: r.gen(),
            start: r.gen_range(0..3),
            size: *[1, 2, 3, 5, 10, 30].choose(&mut r).unwrap(),
            elites: *[0, 300, 500, 900, 967].choose(&mut r).unwrap(),
            needs: (0..r.gen_range(1..6)).map(|_| *[0, 1, 1, 2, 3, 8, 20].choose(&mut r).unwrap()).collect(),
            gens: r.gen_range(1..12),
            alike: r.gen(),
            log: true,
            again: r.gen_bool(0.3),
            same: false,
        };
        at(format!("streams/{k} {j:?}"));
        case(out, format!("streams/{k} {j:?}"), logged(&j));
        if k % 3 == 0 {
            case(out, format!("twice/{k} {j:?}"), (twice(&Job { log: false, ..j.clone() }), 2));
        }
        // bigger, and only counted
        let j = Job { log: false, size: j.size * 10, gens: j.gens * 5, needs: j.needs.iter().map(|n| if *n > 2 { n * 20 } else { *n }).collect(), ..j };
        at(format!("streams long/{k} {j:?}"));
        case(out, format!("long/{k} {j:?}"), (vec![counted(&j)], 1));
    }
}
