//! Runs of algorithms of a user's own, on a model of a user's own: what an evolution makes of the
//! methods that are overridden, and of those that are not (`Engine`).
use crate::evo::{emit, pools, put};
use crate::util::*;
use object_pool::Pool;
use rand::prelude::*;
use rusty_genes::*;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
struct E {
    g: u32,
    f: i64,
}
const STRANGER: E = E { g: 40, f: 9 };
fn worth(g: u32) -> i64 {
    i64::from(g % 5)
}
impl Individual for E {
    fn fitness(&self) -> f64 {
        self.f as f64
    }
    fn is_valid(&self) -> bool {
        self.g % 7 != 6
    }
}
impl RandomIndividual<u32> for E {
    fn new_random<R: Rng>(args: &u32, _: &mut R) -> Self {
        ARG.store(*args, SeqCst);
        let g = fresh();
        E { g, f: -5 }
    }
}
static ARG: AtomicU32 = AtomicU32::new(0);
static NEXT: AtomicU32 = AtomicU32::new(0);
/// Genomes that are valid, mostly new ones.
fn fresh() -> u32 {
    let k = NEXT.fetch_add(1, SeqCst) % 900;
    100 + 7 * (k / 2) + k % 3
}
fn one(e: &E) -> String {
    format!("[{},{}]", e.g, e.f)
}
fn all(v: &[E]) -> String {
    arr(v.iter().map(one))
}

/// What the overriding methods do: initialization, then per generation the size, the elites, the
/// generation and the replacement.
#[derive(Clone, Debug, Default)]
struct Plan {
    init: usize,
    extend: usize,
    own_breed: bool,
    gens: Vec<[usize; 4]>,
}
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);
fn plan() -> Plan {
    PLAN.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap()
}
static TURN: AtomicUsize = AtomicUsize::new(0); // the preparations so far
fn act(k: usize) -> usize {
    plan().gens.get(TURN.load(SeqCst).wrapping_sub(1)).map_or(0, |g| g[k])
}
static OWN: AtomicBool = AtomicBool::new(false);
static RATE: AtomicU32 = AtomicU32::new(0);
static GEN: AtomicUsize = AtomicUsize::new(0);
static BRED: Mutex<Vec<String>> = Mutex::new(vec![]);
static STARTED: Mutex<Option<String>> = Mutex::new(None); // the initial individuals, if initialize_population is not overridden
fn bred() -> String {
    arr(std::mem::take(&mut *BRED.lock().unwrap_or_else(|e| e.into_inner())))
}

#[derive(Default)]
struct EM;
impl EvolutionModel for EM {
    type Individual = E;
    type Rng = HRng;
    fn rng() -> HRng {
        HRng::new(u64::from(NEXT.fetch_add(1, SeqCst)), false)
    }
    fn crossover(&self, a: &E, _: &E, _: &mut HRng) -> E {
        a.clone()
    }
    fn mutate(&self, i: &mut E, _: &mut HRng) {
        i.g = fresh();
        i.f = -5;
    }
    fn evaluate(&self, i: &mut E) {
        i.f = worth(i.g);
        if TURN.load(SeqCst) > 0 && !OWN.load(SeqCst) {
            BRED.lock().unwrap_or_else(|e| e.into_inner()).push(format!("[{},{},{}]", one(i), RATE.load(SeqCst), GEN.load(SeqCst)));
        }
    }
    fn can_survive(&self, _: &E, _: &E, _: &Population<E>, _: &mut HRng) -> bool {
        true
    }
    fn breed(&self, p: &Population<E>, b: &ReproductionParameters<Self>, rng: &mut HRng) -> E {
        if OWN.load(SeqCst) {
            // whatever is answered, it is the offspring: it may also be invalid, or equal to a member
            let g = if rng.gen_bool(0.1) { 7 * rng.gen_range(0..9) + 6 } else { fresh() };
            let e = if rng.gen_bool(0.2) { p.choose(rng).unwrap().clone() } else { E { g, f: worth(g) } };
            BRED.lock().unwrap_or_else(|e| e.into_inner()).push(format!("[{},{},{}]", one(&e), (b.crossover_rate * 1024.0).round(), p.generation()));
            e
        } else {
            // what the default does
            Inner.breed(p, &ReproductionParameters { crossover_rate: 0.0, mutation_rate: 1.0, parent_selector: SelectionStrategy::Rank.create_selector() }, rng)
        }
    }
    fn extend_population<T: Sync>(&self, v: &mut Vec<E>, n: usize, args: &T)
    where
        E: RandomIndividual<T>,
    {
        let had = all(v);
        let mut rng = HRng::new(7, false);
        ARG.store(0, SeqCst);
        for _ in 0..extended(n) {
            v.push(E::new_random(args, &mut rng));
        }
        emit(format!("{{\"k\":\"ext\",\"kind\":\"rand\",\"n\":{n},\"arg\":{},\"had\":{had},\"out\":{}}}", ARG.load(SeqCst), all(v)));
        *STARTED.lock().unwrap_or_else(|e| e.into_inner()) = Some(all(v));
    }
    fn extend_population_with(&self, v: &mut Vec<E>, n: usize, model: E) {
        let had = all(v);
        let mut rng = HRng::new(8, false);
        for _ in 0..extended(n) {
            let mut e = model.clone();
            self.mutate(&mut e, &mut rng);
            v.push(e);
        }
        emit(format!("{{\"k\":\"ext\",\"kind\":\"ind\",\"n\":{n},\"arg\":{},\"had\":{had},\"out\":{}}}", model.g, all(v)));
        *STARTED.lock().unwrap_or_else(|e| e.into_inner()) = Some(all(v));
    }
}
/// A model of a user's own may also generate more or less than it is asked for.
fn extended(n: usize) -> usize {
    match plan().extend {
        0 => n.max(1),
        1 => n + 2,
        _ => n.saturating_sub(1).max(1),
    }
}
/// The model without its own breeding.
#[derive(Default)]
struct Inner;
impl EvolutionModel for Inner {
    type Individual = E;
    type Rng = HRng;
    fn rng() -> HRng {
        EM::rng()
    }
    fn crossover(&self, a: &E, b: &E, rng: &mut HRng) -> E {
        EM.crossover(a, b, rng)
    }
    fn mutate(&self, i: &mut E, rng: &mut HRng) {
        EM.mutate(i, rng)
    }
    fn evaluate(&self, i: &mut E) {
        EM.evaluate(i)
    }
    fn can_survive(&self, _: &E, _: &E, _: &Population<E>, _: &mut HRng) -> bool {
        true
    }
}

struct Prm {
    first: usize,
    max: usize,
    name: usize,
}
impl EvolutionParameters for Prm {
    fn initial_population_size(&self) -> usize {
        self.first
    }
    fn max_population_size(&self) -> usize {
        self.max
    }
    fn validate(&self) {}
}

/// Only what is required.
struct Bare {
    model: EM,
    rp: ReproductionParameters<EM>,
    size: usize,
}
impl Default for Bare {
    fn default() -> Self {
        Bare { model: EM, rp: Default::default(), size: 0 }
    }
}
impl From<EM> for Bare {
    fn from(model: EM) -> Self {
        Bare { model, ..Default::default() }
    }
}
impl EvolutionAlgorithm<EM> for Bare {
    type Parameters = Prm;
    fn model(&self) -> &EM {
        &self.model
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<EM>, usize) {
        (&self.rp, self.size)
    }
    fn configure(&mut self, p: &Prm) {
        emit(format!("{{\"k\":\"conf\",\"p\":{}}}", p.name));
    }
    fn prepare_for_next_population(&mut self, p: &Population<E>) {
        let t = TURN.fetch_add(1, SeqCst);
        self.size = plan().gens.get(t).map_or(1, |g| g[0]);
        let rate = (t as u32 * 37 + 11) % 1000;
        self.rp.crossover_rate = f64::from(rate) / 1024.0;
        RATE.store(rate, SeqCst);
        GEN.store(p.generation(), SeqCst);
        self.rp.parent_selector.prepare(p);
        emit(format!("{{\"k\":\"prep\",\"mem\":{},\"gen\":{},\"want\":[{},{rate}]}}", all(p), p.generation(), self.size));
    }
}
/// Everything is overridden.
struct Full(Bare);
impl Default for Full {
    fn default() -> Self {
        Full(Default::default())
    }
}
impl From<EM> for Full {
    fn from(m: EM) -> Self {
        Full(m.into())
    }
}
impl EvolutionAlgorithm<EM> for Full {
    type Parameters = Prm;
    fn model(&self) -> &EM {
        self.0.model()
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<EM>, usize) {
        self.0.reproduction_parameters()
    }
    fn configure(&mut self, p: &Prm) {
        self.0.configure(p)
    }
    fn prepare_for_next_population(&mut self, p: &Population<E>) {
        self.0.prepare_for_next_population(p)
    }
    fn initialize_population(&self, mut v: Vec<E>) -> Population<E> {
        let ins = all(&v);
        let a = plan().init;
        let p = if a == 0 {
            self.0.initialize_population(v)
        } else {
            v.push(STRANGER);
            Population::new(v)
        };
        emit(format!("{{\"k\":\"init\",\"act\":{a},\"in\":{ins},\"out\":{},\"gen\":{}}}", all(&p), p.generation()));
        p
    }
    fn select_elites(&self, p: &Population<E>, e: &mut Vec<E>) {
        let before = all(e);
        let a = act(1);
        match a {
            0 => self.0.select_elites(p, e),
            1 => {}
            2 => e.extend([p[0].clone(), p[p.len() - 1].clone()]),
            3 => e.extend([STRANGER, p[p.len() - 1].clone()]),
            _ => e.extend(p.iter().cloned()),
        }
        emit(format!("{{\"k\":\"elites\",\"act\":{a},\"mem\":{},\"before\":{before},\"after\":{}}}", all(p), all(e)));
    }
    fn generate_new_population(&self, p: &Population<E>, o: &mut Vec<E>, pool: &Pool<HRng>) {
        let before = all(o);
        let mut a = act(2);
        if a == 0 && o.is_empty() && self.0.size == 0 {
            a = 2; // nothing would be left
        }
        bred();
        match a {
            0 => self.0.generate_new_population(p, o, pool),
            1 => {
                o.clear();
                o.push(STRANGER);
            }
            _ => o.push(STRANGER),
        }
        emit(format!("{{\"k\":\"gen\",\"act\":{a},\"mem\":{},\"before\":{before},\"after\":{},\"bred\":{}}}", all(p), all(o), bred()));
    }
    fn replace_population(&self, p: &mut Population<E>, o: &mut Vec<E>) {
        let (was, before) = (all(p), all(o));
        let a = act(3);
        match a {
            0 => self.0.replace_population(p, o),
            1 => {}
            2 => *p = Population::new(std::mem::take(o)),
            _ => {
                o.truncate(1);
                p.replace(o);
            }
        }
        emit(format!(
            "{{\"k\":\"rep\",\"act\":{a},\"mem\":{was},\"before\":{before},\"out\":{},\"gen\":{},\"stag\":{}}}",
            all(p),
            p.generation(),
            p.stagnation()
        ));
    }
}

/// A selection mechanism that answers what it is told to.
struct Told {
    first: usize,
    second: Option<usize>,
}
static FIRST: Mutex<Vec<u32>> = Mutex::new(vec![]);
static EXCL: Mutex<Vec<u32>> = Mutex::new(vec![]);
static CROSSED: Mutex<Vec<u32>> = Mutex::new(vec![]);
fn note(m: &Mutex<Vec<u32>>, g: u32) {
    m.lock().unwrap_or_else(|e| e.into_inner()).push(g);
}
fn noted(m: &Mutex<Vec<u32>>) -> String {
    arr(std::mem::take(&mut *m.lock().unwrap_or_else(|e| e.into_inner())))
}
impl SelectionMechanism<E, HRng> for Told {
    fn prepare(&mut self, _: &Population<E>) {}
    fn select<'a>(&self, p: &'a Population<E>, _: &mut HRng) -> (usize, &'a E) {
        note(&FIRST, p[self.first].g);
        (self.first, &p[self.first])
    }
    fn select_distinct<'a>(&self, p: &'a Population<E>, _: &mut HRng, _: usize, excluded: &E) -> Option<(usize, &'a E)> {
        note(&EXCL, excluded.g);
        self.second.map(|k| (k, &p[k]))
    }
}
struct Cross;
impl EvolutionModel for Cross {
    type Individual = E;
    type Rng = HRng;
    fn rng() -> HRng {
        EM::rng()
    }
    fn crossover(&self, a: &E, b: &E, _: &mut HRng) -> E {
        note(&CROSSED, a.g);
        note(&CROSSED, b.g);
        a.clone()
    }
    fn mutate(&self, _: &mut E, _: &mut HRng) {}
    fn evaluate(&self, i: &mut E) {
        i.f = worth(i.g);
    }
}
/// A model with a survival rule of its own, that answers what it is told to.
struct Ruled;
static MADE: AtomicU32 = AtomicU32::new(0);
static ANSWER: AtomicBool = AtomicBool::new(false);
static ASKED: Mutex<Vec<[u32; 2]>> = Mutex::new(vec![]);
impl EvolutionModel for Ruled {
    type Individual = E;
    type Rng = HRng;
    fn rng() -> HRng {
        EM::rng()
    }
    fn crossover(&self, a: &E, _: &E, _: &mut HRng) -> E {
        a.clone()
    }
    fn mutate(&self, i: &mut E, _: &mut HRng) {
        i.g = MADE.load(SeqCst);
    }
    fn evaluate(&self, i: &mut E) {
        i.f = worth(i.g);
    }
    fn can_survive(&self, o: &E, p: &E, _: &Population<E>, _: &mut HRng) -> bool {
        ASKED.lock().unwrap_or_else(|e| e.into_inner()).push([o.g, p.g]);
        ANSWER.load(SeqCst)
    }
}
fn rules(out: &mut Out, r: &mut SmallRng, rounds: usize) {
    for n in [1usize, 2, 3, 8] {
        let p = Population::new((0..n as u32).map(|k| E { g: 7 * k + k % 6, f: worth(7 * k + k % 6) }).collect());
        let n = p.len();
        for _ in 0..rounds {
            let first = r.gen_range(0..n);
            let second = if n == 1 || r.gen_bool(0.3) { None } else { Some((first + r.gen_range(1..n)) % n) };
            let g = r.gen_range(0..80);
            let e = E { g, f: worth(g) };
            MADE.store(g, SeqCst);
            ANSWER.store(r.gen(), SeqCst);
            at(format!("rule {n} {first} {second:?} {g}"));
            let b = ReproductionParameters::<Ruled> { crossover_rate: 1.0, mutation_rate: 1.0, parent_selector: Box::new(Told { first, second }) };
            let res = guard(|| Ruled.breed(&p, &b, &mut HRng::new(r.gen(), false)));
            let asked = std::mem::take(&mut *ASKED.lock().unwrap_or_else(|e| e.into_inner()));
            let parents = [Some(first), second].into_iter().flatten().map(|k| one(&p[k]));
            emit(format!(
                "{{\"k\":\"rule\",\"parents\":{},\"made\":{},\"valid\":{},\"asked\":{},\"answer\":{},\"res\":{}}}",
                arr(parents),
                one(&e),
                e.is_valid() as u8,
                arr(asked.iter().map(|[o, p]| format!("[{o},{p}]"))),
                ANSWER.load(SeqCst) as u8,
                res.as_ref().map_or("[-9,-9]".into(), one)
            ));
            let _ = (noted(&FIRST), noted(&EXCL));
        }
        put(out, &format!("rule/{n}"));
    }
}
fn picks(out: &mut Out, r: &mut SmallRng, rounds: usize) {
    for n in [2usize, 3, 5, 20] {
        let p = Population::new((0..n as u32).map(|k| E { g: 7 * k, f: i64::from(k / 2) }).collect());
        for t in 0..rounds {
            let first = r.gen_range(0..n);
            let second = if t % 4 == 0 { None } else { Some((first + r.gen_range(1..n)) % n) };
            at(format!("pick {n} {first} {second:?}"));
            let b = ReproductionParameters::<Cross> { crossover_rate: 1.0, mutation_rate: [0.0, 0.5, 1.0][t % 3], parent_selector: Box::new(Told { first, second }) };
            let _ = guard(|| Cross.breed(&p, &b, &mut HRng::new(r.gen(), false)));
            emit(format!(
                "{{\"k\":\"pick\",\"first\":{},\"excl\":{},\"second\":{},\"crossed\":{}}}",
                noted(&FIRST),
                noted(&EXCL),
                second.map_or(-1, |k| i64::from(p[k].g)),
                noted(&CROSSED)
            ));
        }
        put(out, &format!("pick/{n}"));
    }
}

#[derive(Clone, Debug)]
struct Job {
    mode: usize,
    full: bool,
    first: usize,
    max: usize,
    arg: u32,
    input: Vec<u32>,
    name: usize,
    plan: Plan,
}
fn one_run<A>(ev: &Evolution<A, EM>, j: &Job)
where
    A: EvolutionAlgorithm<EM, Parameters = Prm>,
{
    *PLAN.lock().unwrap_or_else(|e| e.into_inner()) = Some(j.plan.clone());
    TURN.store(0, SeqCst);
    OWN.store(j.plan.own_breed, SeqCst);
    bred();
    let raw = |g: &u32| E { g: *g, f: -5 };
    let input: Vec<E> = if j.mode == 0 { j.input.iter().map(raw).collect() } else { vec![] };
    emit(format!(
        "{{\"k\":\"begin\",\"cfg\":{{\"mode\":\"{}\",\"first\":{},\"arg\":{},\"in\":{},\"param\":{},\"seen\":{}}}}}",
        ["pop", "ind", "rand"][j.mode],
        j.first,
        j.arg,
        all(&input),
        j.name,
        j.full as u8
    ));
    *STARTED.lock().unwrap_or_else(|e| e.into_inner()) = Some(all(&input));
    let prm = Prm { first: j.first, max: j.max, name: j.name };
    let mut asked = 0;
    let mut progress = |p: &Population<E>| {
        if !j.full {
            // what the defaults did
            if asked == 0 {
                let ins = STARTED.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
                emit(format!("{{\"k\":\"init\",\"act\":0,\"in\":{ins},\"out\":{},\"gen\":{}}}", all(p), p.generation()));
            } else {
                emit(format!("{{\"k\":\"whole\",\"bred\":{},\"mem\":{},\"gen\":{},\"stag\":{}}}", bred(), all(p), p.generation(), p.stagnation()));
            }
        }
        let ans = asked < j.plan.gens.len();
        asked += 1;
        emit(format!("{{\"k\":\"cb\",\"mem\":{},\"gen\":{},\"stag\":{},\"ans\":{}}}", all(p), p.generation(), p.stagnation(), ans as u8));
        bred();
        ans
    };
    let e = match guard(|| match j.mode {
        0 => {
            let p = ev.evolve_population(input, &prm, &mut progress);
            format!("{{\"k\":\"endp\",\"mem\":{},\"gen\":{},\"stag\":{}}}", all(&p), p.generation(), p.stagnation())
        }
        1 => format!("{{\"k\":\"endi\",\"i\":{}}}", one(&ev.evolve_individual(raw(&j.arg), &prm, &mut progress))),
        _ => format!("{{\"k\":\"endi\",\"i\":{}}}", one(&ev.run(&j.arg, &prm, &mut progress))),
    }) {
        Ok(e) => e,
        Err(_) => "{\"k\":\"panic\"}".into(),
    };
    emit(e);
}
fn perform(out: &mut Out, id: &str, jobs: &[Job], how: usize) {
    at(format!("engine {id} {jobs:?}"));
    macro_rules! go {
        ($a:ty) => {{
            let ev: Evolution<$a, EM> = match how % 3 {
                0 => <$a>::build_evolution(EM),
                1 => Evolution::from(<$a>::from(EM)),
                _ => Default::default(),
            };
            for j in jobs {
                one_run(&ev, j);
            }
        }};
    }
    if jobs[0].full {
        go!(Full)
    } else {
        go!(Bare)
    }
    put(out, id);
}

pub fn engine(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let pools = pools();
    let mut r = rng(seed, 96);
    picks(out, &mut r, if thorough { 400 } else { 60 });
    rules(out, &mut r, if thorough { 1000 } else { 150 });
    for (k, l) in lines.iter().enumerate() {
        let s: Vec<Vec<usize>> = parse_nested(l).iter().map(|x| x.nums().into_iter().map(|n| n as usize).collect()).collect();
        NEXT.store(r.gen_range(0..900), SeqCst);
        let j = Job {
            mode: s[0][0],
            full: s[0][1] == 1,
            first: s[0][2],
            max: [s[0][2], 0, 9][k % 3],
            arg: [1, 3, 8][k / 3 % 3],
            input: (1..=s[0][2] as u32).collect(),
            name: k % 100,
            plan: Plan { init: s[0][3], extend: 0, own_breed: k % 4 != 0, gens: s[1..].iter().map(|g| [g[0], g[1], g[2], g[3]]).collect() },
        };
        pools[k % 4].install(|| perform(out, &format!("replay/{k}"), &[j], k));
    }
    for t in 0..(if thorough { 12_000 } else { 1200 }) {
        let full = r.gen_bool(0.7);
        let quiet = r.gen_bool(0.3); // all methods do what the defaults do
        let menu = |r: &mut SmallRng, n: usize| if full && !quiet && r.gen_bool(0.4) { r.gen_range(0..n) } else { 0 };
        let jobs: Vec<Job> = (0..r.gen_range(1..4))
            .map(|_| {
                let mode = r.gen_range(0..3);
                let gens = (0..r.gen_range(0..10)).map(|_| [if r.gen_bool(0.1) { r.gen_range(0..70) } else { r.gen_range(0..8) }, menu(&mut r, 5), menu(&mut r, 3), menu(&mut r, 4)]).collect();
                Job {
                    mode,
                    full,
                    first: r.gen_range(1..12),
                    max: r.gen_range(0..20),
                    arg: [1, 2, 3, 4, 5, 7, 8, 9][r.gen_range(0..8)],
                    input: (0..r.gen_range(1..9)).map(|_| r.gen_range(0..30)).collect(),
                    name: r.gen_range(0..1000),
                    plan: Plan { init: menu(&mut r, 2), extend: if mode > 0 && r.gen_bool(0.3) { r.gen_range(0..3) } else { 0 }, own_breed: r.gen_bool(0.7), gens },
                }
            })
            .collect();
        pools[t % 4].install(|| perform(out, &format!("random/{t}"), &jobs, t));
    }
}
