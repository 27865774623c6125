//! Default parameters, and evolutions made in every way there is (C33), for DefTrace.
use crate::util::*;
use rand::prelude::*;
use rusty_genes::*;
use std::collections::BTreeSet;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub struct Dot {
    id: u32,
    f: f64,
}
impl Individual for Dot {
    fn fitness(&self) -> f64 {
        self.f
    }
}
#[derive(Default)]
struct Notes {
    id: u32,
    asked: u32,
    /// tag of the model and generation for each preparation
    hooks: Vec<(u32, usize)>,
    /// the numbers and rates that were used for breeding from each generation
    breeds: Vec<(usize, u32, BTreeSet<(i64, i64)>)>,
}
static NOTES: Mutex<Option<Notes>> = Mutex::new(None);
fn notes<T>(f: impl FnOnce(&mut Notes) -> T) -> T {
    f(NOTES.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Notes::default))
}
fn id() -> u32 {
    notes(|n| {
        n.id += 1;
        n.id
    })
}
impl RandomIndividual<u32> for Dot {
    fn new_random<R: Rng>(_: &u32, _: &mut R) -> Self {
        notes(|n| n.asked += 1);
        Dot { id: id(), f: -1.0 }
    }
}
struct DM {
    tag: u32,
}
impl Default for DM {
    fn default() -> Self {
        DM { tag: 7 }
    }
}
impl EvolutionModel for DM {
    type Individual = Dot;
    type Rng = SmallRng;
    fn rng() -> SmallRng {
        SmallRng::seed_from_u64(3)
    }
    fn crossover(&self, a: &Dot, _: &Dot, _: &mut SmallRng) -> Dot {
        a.clone()
    }
    fn mutate(&self, i: &mut Dot, _: &mut SmallRng) {
        i.id = id();
    }
    /// Only used for the initial individuals; one of them is less fit than all others.
    fn evaluate(&self, i: &mut Dot) {
        i.f = if i.id == 1 { 1.0 } else { 3.0 };
    }
    fn pre_generation(&mut self, p: &Population<Dot>, _: &mut ReproductionParameters<Self>) {
        notes(|n| {
            n.hooks.push((self.tag, p.generation()));
            n.breeds.push((p.generation(), 0, BTreeSet::new()));
        });
    }
    /// One of those bred from an odd generation is far less fit than all others.
    fn breed(&self, p: &Population<Dot>, r: &ReproductionParameters<Self>, _: &mut SmallRng) -> Dot {
        let id = id();
        notes(|n| {
            let b = n.breeds.last_mut().unwrap();
            b.1 += 1;
            b.2.insert((milli(r.crossover_rate), milli(r.mutation_rate)));
            Dot { id, f: if b.1 == 1 && p.generation() % 2 == 1 { -997.0 } else { 3.0 } }
        })
    }
}
/// x in thousandths, if it is exactly so many (or, as rounding may be, the next number to that)
fn milli(x: f64) -> i64 {
    let k = (x * 1000.0).round();
    if (k / 1000.0 - x).abs() <= 1e-15 { k as i64 } else { -1 }
}
const FIELDS: [&str; 8] = ["size", "el", "clo", "chi", "mlo", "mhi", "sel", "int"];
fn strategy(k: i64) -> SelectionStrategy {
    match k {
        1 => SelectionStrategy::Tournament(3),
        2 => SelectionStrategy::Rank,
        _ => SelectionStrategy::RouletteWheel,
    }
}
fn strategy_code(s: &SelectionStrategy) -> i64 {
    match s {
        SelectionStrategy::RouletteWheel => 0,
        SelectionStrategy::Tournament(3) => 1,
        SelectionStrategy::Rank => 2,
        _ => -1,
    }
}
fn cap(n: usize) -> i64 {
    n.min(2_000_000_000) as i64
}
trait Par: EvolutionParameters + Default {
    const NAME: &'static str;
    fn set(&mut self, field: &str, v: i64);
    fn show(&self) -> [i64; 8];
    /// The changes, for a specification that has a range of either rate.
    fn sets(field: &str, v: i64) -> Vec<(String, i64)>;
}
impl Par for GeneticAlgorithmParameters {
    const NAME: &'static str = "ga";
    fn set(&mut self, field: &str, v: i64) {
        let x = v as f64 / 1000.0;
        match field {
            "size" => self.population_size = v as usize,
            "el" => self.elitism_rate = x,
            "clo" => self.crossover_rate = x,
            "mlo" => self.mutation_rate = x,
            "sel" => self.selection_strategy = strategy(v),
            _ => {}
        }
    }
    fn show(&self) -> [i64; 8] {
        let (c, m) = (milli(self.crossover_rate), milli(self.mutation_rate));
        [cap(self.population_size), milli(self.elitism_rate), c, c, m, m, strategy_code(&self.selection_strategy), 0]
    }
    fn sets(field: &str, v: i64) -> Vec<(String, i64)> {
        match field {
            "clo" => vec![("clo".into(), v), ("chi".into(), v)],
            "mlo" => vec![("mlo".into(), v), ("mhi".into(), v)],
            f => vec![(f.into(), v)],
        }
    }
}
impl Par for AdaptiveGeneticAlgorithmParameters {
    const NAME: &'static str = "aga";
    fn set(&mut self, field: &str, v: i64) {
        let x = v as f64 / 1000.0;
        match field {
            "size" => self.population_size = v as usize,
            "el" => self.elitism_rate = x,
            "clo" => self.crossover_rate_range.start = x,
            "chi" => self.crossover_rate_range.end = x,
            "mlo" => self.mutation_rate_range.start = x,
            "mhi" => self.mutation_rate_range.end = x,
            "sel" => self.selection_strategy = strategy(v),
            _ => self.parameter_adjustment_interval = v as usize,
        }
    }
    fn show(&self) -> [i64; 8] {
        let (c, m) = (&self.crossover_rate_range, &self.mutation_rate_range);
        [
            cap(self.population_size), milli(self.elitism_rate), milli(c.start), milli(c.end), milli(m.start), milli(m.end),
            strategy_code(&self.selection_strategy), cap(self.parameter_adjustment_interval),
        ]
    }
    fn sets(field: &str, v: i64) -> Vec<(String, i64)> {
        vec![(field.into(), v)]
    }
}
/// One use: default parameters with some fields changed, and a run with them.
fn go<A, P>(way: i64, start: i64, given: usize, sets: &[(usize, i64)], gens: usize, ev: &mut Vec<String>)
where
    P: Par,
    A: EvolutionAlgorithm<DM, Parameters = P> + From<DM> + Default,
{
    let mut p = P::default();
    let mut done = vec![];
    for &(f, v) in sets {
        p.set(FIELDS[f], v);
        done.extend(P::sets(FIELDS[f], v));
    }
    let shown = arr(FIELDS.iter().zip(p.show()).map(|(f, v)| format!("\"{f}\":{v}"))).replace('[', "{").replace(']', "}");
    ev.push(format!(
        "{{\"k\":\"par\",\"alg\":{},\"sets\":{},\"p\":{shown},\"ok\":{},\"first\":{},\"max\":{}}}",
        qs(P::NAME), arr(done.iter().map(|(f, v)| format!("[{},{v}]", qs(f)))), guard(|| p.validate()).is_ok() as u8,
        cap(p.initial_population_size()), cap(p.max_population_size())
    ));
    let want = if way < 3 { 20 + way as u32 } else { 7 };
    let model = || DM { tag: want };
    let evolution: Evolution<A, DM> = match way {
        1 => A::build_evolution(model()),
        2 => Evolution::from(A::from(model())),
        3 => Evolution::default(),
        _ => Evolution::from(A::default()),
    };
    notes(|n| *n = Notes::default());
    let mut seen: Vec<(usize, Vec<u32>, bool)> = vec![];
    let mut asked = 0;
    let r = guard(|| {
        let cb = |q: &Population<Dot>| {
            if seen.is_empty() {
                asked = notes(|n| n.asked);
            }
            let flat = q.iter().all(|i| i.f == q[0].f);
            seen.push((q.generation(), q.iter().map(|i| i.id).collect(), flat));
            seen.len() <= gens
        };
        match start {
            1 => {
                evolution.run(&5u32, &p, cb);
            }
            2 => {
                evolution.evolve_individual(Dot { id: id(), f: 0.0 }, &p, cb);
            }
            _ => {
                evolution.evolve_population((0..given).map(|_| Dot { id: id(), f: 0.0 }).collect(), &p, cb);
            }
        }
    });
    let (hooks, breeds) = notes(|n| (std::mem::take(&mut n.hooks), std::mem::take(&mut n.breeds)));
    let tag = |g: usize| match hooks.iter().filter(|h| h.1 == g).map(|h| h.0).collect::<Vec<_>>()[..] {
        [t] => t as i64,
        _ => -1,
    };
    ev.push(format!(
        "{{\"k\":\"start\",\"start\":{},\"given\":{given},\"panic\":{},\"n\":{},\"asked\":{asked},\"tag\":{},\"want\":{want}}}",
        qs(["rand", "ind", "pop"][start as usize - 1]), r.is_err() as u8, seen.first().map_or(-1, |s| s.1.len() as i64), tag(0)
    ));
    for w in seen.windows(2) {
        let (a, b) = (&w[0], &w[1]);
        let br = breeds.iter().find(|x| x.0 == a.0);
        ev.push(format!(
            "{{\"k\":\"turn\",\"g\":{},\"n\":{},\"kept\":{},\"bred\":{},\"rates\":{},\"flat\":{},\"tag\":{},\"want\":{want}}}",
            b.0, b.1.len(), b.1.iter().filter(|i| a.1.contains(i)).count(), br.map_or(-1, |x| x.1 as i64),
            arr(br.iter().flat_map(|x| x.2.iter()).map(|r| format!("[{},{}]", r.0, r.1))), b.2 as u8, tag(a.0)
        ));
    }
}
fn digits(mut n: usize) -> String {
    let mut d = vec![];
    while n > 0 {
        d.push(n % 1_000_000_000);
        n /= 1_000_000_000;
    }
    arr(d)
}
fn sizes<P: Par>(n: usize, set: impl Fn(&mut P, usize)) -> String {
    let mut p = P::default();
    set(&mut p, n);
    format!("{{\"k\":\"size\",\"size\":{},\"first\":{},\"max\":{}}}", digits(n), digits(p.initial_population_size()), digits(p.max_population_size()))
}
fn reproduction(r: &mut SmallRng, draws: usize) -> String {
    let mut p = ReproductionParameters::<DM>::default();
    let pop = Population::new(vec![Dot { id: 1, f: 1.0 }, Dot { id: 2, f: 3.0 }]);
    p.parent_selector.prepare(&pop);
    let n = (0..draws).filter(|_| p.parent_selector.select(&pop, r).1.id == 2).count();
    let tol = 6.0 * (0.1875 / draws as f64).sqrt() * 1000.0 + 1.0;
    format!(
        "{{\"k\":\"rp\",\"cr\":{},\"mr\":{},\"share\":{},\"tol\":{}}}",
        milli(p.crossover_rate), milli(p.mutation_rate), n * 1000 / draws, tol.ceil()
    )
}
fn put(out: &mut Out, id: String, ev: Vec<String>) {
    let n = ev.len() as u64;
    out.case(format!("{{\"id\":{},\"ev\":{}}}", qs(&id), arr(ev)), n);
}

pub fn defaults(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 133);
    let both = |alg: i64, way: i64, start: i64, given: usize, sets: &[(usize, i64)], gens: usize, ev: &mut Vec<String>| {
        if alg == 1 {
            go::<GeneticAlgorithm<DM>, _>(way, start, given, sets, gens, ev)
        } else {
            go::<AdaptiveGeneticAlgorithm<DM>, _>(way, start, given, sets, gens, ev)
        }
    };
    for l in lines {
        at(format!("defaults {l}"));
        let v = parse_nested(l);
        let sets: Vec<(usize, i64)> = v[4].list().iter().map(|s| (s.nums()[0] as usize - 1, s.nums()[1])).collect();
        let mut ev = vec![];
        both(v[0].num(), v[1].num(), v[2].num(), v[3].num() as usize, &sets, 3, &mut ev);
        put(out, format!("replay {l}"), ev);
    }
    let mut ev = vec![];
    for n in (0..64).map(|k| 1usize << k).flat_map(|n| [n - 1, n, n + 1]).chain([usize::MAX, usize::MAX - 1, 99, 101, 1_000_000_007]) {
        ev.push(sizes::<GeneticAlgorithmParameters>(n, |p, n| p.population_size = n));
        ev.push(sizes::<AdaptiveGeneticAlgorithmParameters>(n, |p, n| p.population_size = n));
    }
    for _ in 0..4 {
        ev.push(reproduction(&mut r, if thorough { 400_000 } else { 40_000 }));
    }
    put(out, "sizes".into(), ev);
    for case in 0..(if thorough { 6000 } else { 400 }) {
        at(format!("defaults/{case}"));
        let mut ev = vec![];
        let alg = r.gen_range(1..=2);
        let mut sets: Vec<(usize, i64)> = vec![];
        for f in 0..8 {
            if (alg == 2 || ![3, 5, 7].contains(&f)) && r.gen_bool(0.35) {
                let v = match FIELDS[f] {
                    "size" => *[2, 3, 5, 10, 37, 99, 101, 128, 250].choose(&mut r).unwrap(),
                    "el" => *[0, 1, 10, 20, 125, 250, 500, 875].choose(&mut r).unwrap(),
                    "sel" => r.gen_range(0..3),
                    "int" => r.gen_range(0..5),
                    _ => r.gen_range(0..=1000),
                };
                sets.push((f, v));
            }
        }
        sets.shuffle(&mut r);
        let size = sets.iter().find(|s| s.0 == 0).map_or(100, |s| s.1);
        let el = sets.iter().find(|s| s.0 == 1).map_or(10, |s| s.1);
        // more than the elites, so that the one that is less fit does not survive
        let given = (size * el / 1000 + 2 + r.gen_range(0..=size)) as usize;
        let start = r.gen_range(1..=3);
        both(alg, r.gen_range(1..=4), start, if start == 3 { given } else { 0 }, &sets, r.gen_range(1..8), &mut ev);
        put(out, format!("defaults/{case}"), ev);
    }
}
