//! Runs of the evolution algorithms on a model given by tables (C04-C13, C15), for EvoTrace.
use crate::util::*;
use object_pool::Pool;
use rand::prelude::*;
use rusty_genes::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, RwLock};

/// ---- the world: what the model assigns to genomes, and what its hook does ----------------------
pub const NAN: i64 = -1;
pub const UNEV: i64 = -5;
pub const INF: i64 = 9000;
#[derive(Clone, Debug, Default)]
pub struct Script {
    pub sel: Vec<usize>,
    pub x: u32,
    pub m: u32,
    pub i: u32,
    pub k: u8,
}
#[derive(Clone, Debug, Default)]
pub struct HookAct {
    pub rates: Option<(i64, i64)>,
    pub sel: Option<SelectionStrategy>,
}
pub struct World {
    pub fit: Vec<i64>,
    pub bad: Vec<bool>, // only for individuals with a validity of their own
    pub imp: Vec<u32>,
    pub vals: Vals,
    pub shake: bool,
    pub unev: i64, // the fitness before the evaluation
    pub boom: AtomicI64, // the model panics when this many things were done
    pub hook: Vec<HookAct>,
    pub scripted: bool,
    pub scripts: Mutex<VecDeque<Script>>,
}
/// What the codes of fitness values stand for: always larger values for larger codes.
#[derive(Clone, Copy, Debug)]
pub enum Vals {
    Affine(f64, f64),
    Ulps(f64), // neighbouring numbers
    Tiny,      // subnormal numbers
    Powers,    // of very different magnitudes
}
/// The codes of the other tables start here: no exact calculations are done with them.
pub const FAR: i64 = 100;
impl Vals {
    pub fn affine(&self) -> bool {
        matches!(self, Vals::Affine(..))
    }
    pub fn start(&self) -> i64 {
        if self.affine() { 0 } else { FAR }
    }
    fn of(&self, k: i64) -> f64 {
        match self {
            Vals::Affine(base, scale) => base + k as f64 * scale,
            Vals::Ulps(base) if *base > 0.0 => f64::from_bits((base.to_bits() as i64 + k - FAR) as u64),
            Vals::Ulps(base) => f64::from_bits((base.to_bits() as i64 - (k - FAR)) as u64),
            Vals::Tiny => (k - FAR) as f64 * 5e-324,
            Vals::Powers => 10f64.powi(6 * (k - FAR) as i32 - 60),
        }
    }
}
impl World {
    pub fn value(&self, k: i64) -> f64 {
        match k {
            NAN => f64::NAN,
            INF => f64::INFINITY,
            k if k == -INF => f64::NEG_INFINITY,
            k if k < 0 => self.vals.of(self.vals.start() + k),
            k => self.vals.of(k),
        }
    }
    /// The fitness of an individual that was not evaluated.
    pub fn fresh(&self) -> f64 {
        self.value(self.unev)
    }
    /// The same, but zero is negative for some genomes.
    pub fn fitness(&self, g: u32, k: i64) -> f64 {
        let f = self.value(k);
        if f == 0.0 && g % 2 == 1 { -f } else { f }
    }
    pub fn code(&self, f: f64) -> i64 {
        if f.is_nan() {
            NAN
        } else if f.is_infinite() {
            if f > 0.0 {
                INF
            } else {
                -INF
            }
        } else {
            (UNEV..50).map(|k| k + self.vals.start()).find(|&k| self.vals.of(k) == f).unwrap_or(-8000)
        }
    }
}
static WORLD: RwLock<Option<Arc<World>>> = RwLock::new(None);
pub fn world() -> Arc<World> {
    WORLD.read().unwrap_or_else(|e| e.into_inner()).clone().unwrap()
}
pub fn set_world(w: Arc<World>) {
    *WORLD.write().unwrap_or_else(|e| e.into_inner()) = Some(w);
}

/// ---- the log of what the model and the selector were asked to do -------------------------------
#[derive(Clone, Debug)]
pub enum Ev {
    S(u32, usize, u32),
    X(u32, u32, u32),
    M(u32, u32),
    I(u32, u32),
    V(u32, i64),
    K(u32, i64, u32, i64, u8),
    R(u32, u32),
}
static LOG: Mutex<Vec<(usize, Ev)>> = Mutex::new(vec![]);
static EVS: Mutex<Vec<String>> = Mutex::new(vec![]);
static TIDS: AtomicUsize = AtomicUsize::new(0);
static SELS: AtomicUsize = AtomicUsize::new(0);
static CURSEL: AtomicUsize = AtomicUsize::new(0);
static SEEDS: AtomicU64 = AtomicU64::new(1);
static TICK: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static TID: usize = TIDS.fetch_add(1, SeqCst);
    static CUR: RefCell<(Script, usize, bool)> = RefCell::new((Script::default(), 0, true));
}
pub fn reseed(x: u64) {
    SEEDS.store(x.wrapping_mul(0x2545_F491_4F6C_DD1D), SeqCst);
}
fn log(w: &World, e: Ev) {
    let t = TID.with(|t| *t);
    if w.boom.fetch_sub(1, SeqCst) == 1 {
        panic!("the model gives up");
    }
    if w.shake {
        let x = TICK.fetch_add(1, SeqCst).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 59;
        match x {
            0 => std::thread::sleep(std::time::Duration::from_micros(20)),
            1..=7 => std::thread::yield_now(),
            _ => {}
        }
    }
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push((t, e));
}
pub fn drain() -> Vec<(usize, Ev)> {
    std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn emit(s: String) {
    EVS.lock().unwrap_or_else(|e| e.into_inner()).push(s);
}
pub fn take_events() -> Vec<String> {
    drain();
    std::mem::take(&mut *EVS.lock().unwrap_or_else(|e| e.into_inner()))
}
/// One breeding begins where a parent is selected after something else was done.
pub fn breeds(log: Vec<(usize, Ev)>) -> Vec<String> {
    let mut tids: Vec<usize> = log.iter().map(|x| x.0).collect();
    tids.sort();
    tids.dedup();
    let mut out = vec![];
    for t in tids {
        let mut cur: Vec<Ev> = vec![];
        for (_, e) in log.iter().filter(|x| x.0 == t) {
            if matches!(e, Ev::S(..)) && cur.iter().any(|x| !matches!(x, Ev::S(..))) {
                out.push(breed_json(&cur));
                cur.clear();
            }
            cur.push(e.clone());
        }
        if !cur.is_empty() {
            out.push(breed_json(&cur));
        }
    }
    out
}
fn breed_json(b: &[Ev]) -> String {
    let (mut s, mut x, mut m, mut i, mut v, mut k, mut o) = (vec![], vec![], vec![], vec![], vec![], vec![], vec![]);
    for e in b {
        match e {
            Ev::S(a, b, c) => {
                s.push(format!("[{a},{b},{c}]"));
                o.push(1)
            }
            Ev::X(a, b, c) => {
                x.push(format!("[{a},{b},{c}]"));
                o.push(2)
            }
            Ev::M(a, b) => {
                m.push(format!("[{a},{b}]"));
                o.push(3)
            }
            Ev::I(a, b) => {
                i.push(format!("[{a},{b}]"));
                o.push(4)
            }
            Ev::V(a, b) => {
                v.push(format!("[{a},{b}]"));
                o.push(5)
            }
            Ev::K(a, b, c, d, e) => {
                k.push(format!("[{a},{b},{c},{d},{e}]"));
                o.push(6)
            }
            Ev::R(..) => o.push(0),
        }
    }
    format!("{{\"s\":{},\"x\":{},\"m\":{},\"i\":{},\"v\":{},\"k\":{},\"o\":{}}}", arr(s), arr(x), arr(m), arr(i), arr(v), arr(k), arr(o))
}
/// Something was done although nothing should have been.
fn stray() {
    let l = drain();
    if !l.is_empty() {
        let s = l.iter().filter(|x| matches!(x.1, Ev::S(..))).count();
        emit(format!("{{\"k\":\"stray\",\"sel\":{s},\"n\":{}}}", l.len()));
    }
}

/// ---- individuals and models ---------------------------------------------------------------------
pub trait TInd: RandomIndividual<u32> + 'static {
    fn raw(g: u32, f: f64) -> Self;
    fn g(&self) -> u32;
    fn set(&mut self, g: u32, f: f64);
}
macro_rules! individual {
    ($t:ident, $($valid:item)?) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $t { g: u32, f: f64 }
        impl Individual for $t {
            fn fitness(&self) -> f64 { self.f }
            $($valid)?
        }
        impl TInd for $t {
            fn raw(g: u32, f: f64) -> Self { $t { g, f } }
            fn g(&self) -> u32 { self.g }
            fn set(&mut self, g: u32, f: f64) { self.g = g; self.f = f; }
        }
        impl RandomIndividual<u32> for $t {
            fn new_random<R: Rng>(args: &u32, rng: &mut R) -> Self {
                let w = world();
                let g = rng.gen_range(0..(*args).min(w.fit.len() as u32));
                log(&w, Ev::R(*args, g));
                $t { g, f: w.fresh() }
            }
        }
    };
}
individual!(IndD,);
individual!(
    IndV,
    fn is_valid(&self) -> bool {
        !world().bad[self.g as usize]
    }
);

pub fn ind<I: TInd>(w: &World, i: &I) -> String {
    format!("[{},{}]", i.g(), w.code(i.fitness()))
}
pub fn mem<I: TInd>(w: &World, p: &[I]) -> String {
    arr(p.iter().map(|i| ind(w, i)))
}
pub fn mill(x: f64) -> i64 {
    if x.is_finite() && x.abs() < 1e6 {
        (x * 1000.0).round() as i64
    } else {
        -7777
    }
}

/// Passes selections on to a real selector, or to the script, and records them.
pub struct RecSel<I: TInd> {
    pub id: u32,
    pub inner: Option<Box<dyn SelectionMechanism<I, HRng>>>,
}
impl<I: TInd> SelectionMechanism<I, HRng> for RecSel<I> {
    fn prepare(&mut self, p: &Population<I>) {
        stray();
        let w = world();
        if let Some(s) = self.inner.as_mut() {
            s.prepare(p)
        }
        emit(format!("{{\"k\":\"prep\",\"sel\":{},\"mem\":{}}}", self.id, mem(&w, p)));
    }
    fn select<'a>(&self, p: &'a Population<I>, rng: &mut HRng) -> (usize, &'a I) {
        let w = world();
        let (i, x) = match self.inner.as_ref() {
            Some(s) => s.select(p, rng),
            None => {
                let i = CUR.with(|c| {
                    let mut c = c.borrow_mut();
                    if c.2 {
                        *c = (w.scripts.lock().unwrap_or_else(|e| e.into_inner()).pop_front().unwrap_or_default(), 0, false);
                    }
                    c.1 += 1;
                    c.0.sel.get(c.1 - 1).copied().unwrap_or(0) % p.len()
                });
                (i, &p[i])
            }
        };
        log(&w, Ev::S(self.id, i, x.g()));
        (i, x)
    }
}
/// In a scripted breeding, marks that the selections are over.
fn script(w: &World) -> Option<Script> {
    w.scripted.then(|| {
        CUR.with(|c| {
            let mut c = c.borrow_mut();
            c.2 = true;
            c.0.clone()
        })
    })
}
pub struct TM<I, const OVR: bool>(std::marker::PhantomData<fn() -> I>);
impl<I, const OVR: bool> Default for TM<I, OVR> {
    fn default() -> Self {
        TM(std::marker::PhantomData)
    }
}
macro_rules! model {
    ($i:ident, $ovr:literal, $($surv:item)?) => {
        impl EvolutionModel for TM<$i, $ovr> {
            type Individual = $i;
            type Rng = HRng;
            fn rng() -> HRng {
                HRng::new(SEEDS.fetch_add(1, SeqCst), false)
            }
            fn crossover(&self, a: &$i, b: &$i, rng: &mut HRng) -> $i {
                let w = world();
                let c = match script(&w) { Some(s) => s.x, None => rng.gen_range(0..w.fit.len() as u32) };
                log(&w, Ev::X(a.g, b.g, c));
                $i::raw(c, w.fresh())
            }
            fn mutate(&self, i: &mut $i, rng: &mut HRng) {
                let w = world();
                let c = match script(&w) { Some(s) => s.m, None => rng.gen_range(0..w.fit.len() as u32) };
                log(&w, Ev::M(i.g, c));
                i.set(c, w.fresh());
            }
            fn improve(&self, i: &mut $i) {
                let w = world();
                let c = match script(&w) { Some(s) => s.i, None => w.imp[i.g as usize] };
                log(&w, Ev::I(i.g, c));
                if c != i.g { i.set(c, w.fresh()); }
            }
            fn evaluate(&self, i: &mut $i) {
                let w = world();
                let k = w.fit[i.g as usize];
                log(&w, Ev::V(i.g, k));
                let (g, f) = (i.g, w.fitness(i.g, k));
                i.set(g, f);
            }
            fn pre_generation(&mut self, p: &Population<$i>, b: &mut ReproductionParameters<Self>) {
                hook(p, b)
            }
            $($surv)?
        }
    };
}
macro_rules! survival {
    ($i:ident) => {
        model!(
            $i,
            true,
            fn can_survive(&self, o: &$i, p: &$i, _: &Population<$i>, rng: &mut HRng) -> bool {
                let w = world();
                let a = match script(&w) {
                    Some(s) => s.k != 0,
                    None => rng.gen(),
                };
                log(&w, Ev::K(o.g, w.code(o.f), p.g, w.code(p.f), a as u8));
                a
            }
        );
    };
}
model!(IndD, false,);
model!(IndV, false,);
survival!(IndD);
survival!(IndV);

/// What the hook of the model does: puts a recording selector in, and what the plan says.
fn hook<I: TInd, M: EvolutionModel<Individual = I, Rng = HRng>>(p: &Population<I>, b: &mut ReproductionParameters<M>) {
    stray();
    let w = world();
    let before = (mill(b.crossover_rate), mill(b.mutation_rate));
    let act = w.hook.get(p.generation()).cloned().unwrap_or_default();
    if let Some((x, m)) = act.rates {
        b.crossover_rate = x as f64 / 1000.0;
        b.mutation_rate = m as f64 / 1000.0;
    }
    if p.generation() == 0 || act.sel.is_some() {
        let id = SELS.fetch_add(1, SeqCst) as u32 + 1;
        let inner = if w.scripted {
            None
        } else {
            Some(match act.sel {
                Some(s) => s.create_selector(),
                None => std::mem::replace(&mut b.parent_selector, Box::new(RecSel { id: 0, inner: None })),
            })
        };
        b.parent_selector = Box::new(RecSel { id, inner });
        CURSEL.store(id as usize, SeqCst);
    }
    emit(format!(
        "{{\"k\":\"hook\",\"mem\":{},\"gen\":{},\"before\":[{},{}],\"after\":[{},{}],\"sel\":{}}}",
        mem(&w, p),
        p.generation(),
        before.0,
        before.1,
        mill(b.crossover_rate),
        mill(b.mutation_rate),
        CURSEL.load(SeqCst)
    ));
}

/// ---- an algorithm that shows every step of another ---------------------------------------------
pub struct RecAlg<A>(A);
impl<M: EvolutionModel, A: EvolutionAlgorithm<M> + From<M>> From<M> for RecAlg<A> {
    fn from(m: M) -> Self {
        RecAlg(A::from(m))
    }
}
impl<I: TInd, M: EvolutionModel<Individual = I>, A: EvolutionAlgorithm<M>> EvolutionAlgorithm<M> for RecAlg<A> {
    type Parameters = A::Parameters;
    fn model(&self) -> &M {
        self.0.model()
    }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<M>, usize) {
        self.0.reproduction_parameters()
    }
    fn configure(&mut self, p: &A::Parameters) {
        self.0.configure(p)
    }
    fn select_elites(&self, p: &Population<I>, e: &mut Vec<I>) {
        self.0.select_elites(p, e);
        stray();
        emit(format!("{{\"k\":\"elites\",\"e\":{}}}", mem(&world(), e)));
    }
    fn initialize_population(&self, v: Vec<I>) -> Population<I> {
        let made = made();
        let ins = arr(v.iter().map(|i| i.g()));
        emit_start(made.0, &ins, made.1);
        let p = self.0.initialize_population(v);
        emit_init(&world(), &p);
        p
    }
    fn prepare_for_next_population(&mut self, p: &Population<I>) {
        self.0.prepare_for_next_population(p)
    }
    fn generate_new_population(&self, p: &Population<I>, o: &mut Vec<I>, pool: &Pool<M::Rng>) {
        stray();
        self.0.generate_new_population(p, o, pool);
        emit(format!("{{\"k\":\"gen\",\"breeds\":{},\"out\":{}}}", arr(breeds(drain())), mem(&world(), o)));
    }
    fn replace_population(&self, p: &mut Population<I>, o: &mut Vec<I>) {
        self.0.replace_population(p, o);
        stray();
        emit(format!("{{\"k\":\"rep\",\"mem\":{},\"gen\":{},\"stag\":{}}}", mem(&world(), p), p.generation(), p.stagnation()));
    }
}
/// The genomes that were generated, or mutated, for the initial population; and the arguments.
pub fn made() -> (Vec<String>, Vec<u32>) {
    let l = drain();
    let m = l
        .iter()
        .filter_map(|x| match x.1 {
            Ev::R(_, g) => Some(format!("[-1,{g}]")),
            Ev::M(a, b) => Some(format!("[{a},{b}]")),
            _ => None,
        })
        .collect();
    let a = l
        .iter()
        .filter_map(|x| match x.1 {
            Ev::R(a, _) => Some(a),
            _ => None,
        })
        .collect();
    for (t, e) in l {
        if !matches!(e, Ev::R(..) | Ev::M(..)) {
            LOG.lock().unwrap_or_else(|e| e.into_inner()).push((t, e));
        }
    }
    (m, a)
}
fn emit_start(made: Vec<String>, ins: &str, args: Vec<u32>) {
    emit(format!("{{\"k\":\"start\",\"made\":{},\"in\":{ins},\"args\":{}}}", arr(made), arr(args)));
}
fn emit_init<I: TInd>(w: &World, p: &[I]) {
    let evals = drain().into_iter().filter_map(|x| match x.1 {
        Ev::V(g, k) => Some(format!("[{g},{k}]")),
        _ => None,
    });
    emit(format!("{{\"k\":\"init\",\"evals\":{},\"out\":{}}}", arr(evals), mem(w, p)));
}

/// ---- runs ----------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct RunCfg {
    pub aga: bool,
    pub mode: &'static str,
    pub n: usize,
    pub elite: usize,
    pub el_rate: f64,
    pub cr: i64,
    pub mr: i64,
    pub p: [i64; 4],
    pub int: usize,
    pub strat: SelectionStrategy,
    pub input: Vec<u32>, // "pop": the population; "ind": the one individual; "rand": the argument
    pub gens: usize,
    pub abort: bool, // the callback panics at the end
}
pub trait Params: EvolutionParameters {
    fn make(c: &RunCfg) -> Self;
}
impl Params for GeneticAlgorithmParameters {
    fn make(c: &RunCfg) -> Self {
        GeneticAlgorithmParameters {
            population_size: c.n,
            elitism_rate: c.el_rate,
            crossover_rate: c.cr as f64 / 1000.0,
            mutation_rate: c.mr as f64 / 1000.0,
            selection_strategy: c.strat,
        }
    }
}
impl Params for AdaptiveGeneticAlgorithmParameters {
    fn make(c: &RunCfg) -> Self {
        let t = |x: i64| x as f64 / 1000.0;
        AdaptiveGeneticAlgorithmParameters {
            population_size: c.n,
            elitism_rate: c.el_rate,
            crossover_rate_range: t(c.p[0])..t(c.p[1]),
            mutation_rate_range: t(c.p[2])..t(c.p[3]),
            selection_strategy: c.strat,
            parameter_adjustment_interval: c.int,
        }
    }
}
pub struct Seen {
    pub pops: Vec<String>,
    pub end: String,
}
pub trait Instance {
    fn go(&self, c: &RunCfg, ovr: bool, own: bool) -> Seen;
}
struct Inst<A: EvolutionAlgorithm<M>, M: EvolutionModel>(Evolution<A, M>, bool);
impl<I, M, A> Instance for Inst<A, M>
where
    I: TInd,
    M: EvolutionModel<Individual = I>,
    A: EvolutionAlgorithm<M>,
    A::Parameters: Params,
{
    fn go(&self, c: &RunCfg, ovr: bool, own: bool) -> Seen {
        let w = world();
        let wrapped = self.1;
        drain();
        let bad: Vec<usize> = (0..w.fit.len()).filter(|&g| if own { w.bad[g] } else { [NAN, INF, -INF].contains(&w.fit[g]) }).collect();
        emit(format!(
            "{{\"k\":\"begin\",\"cfg\":{{\"alg\":{},\"mode\":{},\"n\":{},\"elite\":{},\"cr\":{},\"mr\":{},\"p\":{{\"clo\":{},\"chi\":{},\"mlo\":{},\"mhi\":{},\"int\":{}}},\"in\":{},\"wrapped\":{}}},\"env\":{{\"fit\":{},\"bad\":{},\"ovr\":{}}}}}",
            qs(if c.aga { "aga" } else { "ga" }), qs(c.mode), c.n, c.elite, c.cr, c.mr, c.p[0], c.p[1], c.p[2], c.p[3], c.int, arr(&c.input), wrapped as u8,
            arr(&w.fit), arr(bad), ovr as u8
        ));
        let params = A::Parameters::make(c);
        let mut seen = Seen { pops: vec![], end: String::new() };
        let mut asked = 0;
        let new = |g: u32| I::raw(g, w.fresh());
        let mut init_done = false;
        let res = guard(|| {
            let pops = &mut seen.pops;
            let cb = |p: &Population<I>| {
                let m = mem(&w, p);
                if !wrapped {
                    if asked == 0 {
                        let made = made();
                        emit_start(made.0, "[]", made.1);
                        emit_init(&w, p);
                    } else {
                        emit(format!(
                            "{{\"k\":\"turn\",\"breeds\":{},\"mem\":{m},\"gen\":{},\"stag\":{}}}",
                            arr(breeds(drain())),
                            p.generation(),
                            p.stagnation()
                        ));
                    }
                    init_done = true;
                } else {
                    stray();
                }
                asked += 1;
                let ans = if asked <= c.gens {
                    1
                } else if c.abort {
                    2
                } else {
                    0
                };
                emit(format!("{{\"k\":\"cb\",\"mem\":{m},\"gen\":{},\"stag\":{},\"ans\":{ans}}}", p.generation(), p.stagnation()));
                pops.push(m);
                if ans == 2 {
                    panic!("the callback gives up");
                }
                ans == 1
            };
            match c.mode {
                "pop" => {
                    let v = c.input.iter().map(|&g| new(g)).collect();
                    let p = self.0.evolve_population(v, &params, cb);
                    stray();
                    format!("{{\"k\":\"endp\",\"mem\":{},\"gen\":{},\"stag\":{}}}", mem(&w, &p), p.generation(), p.stagnation())
                }
                "ind" => {
                    let i = self.0.evolve_individual(new(c.input[0]), &params, cb);
                    stray();
                    format!("{{\"k\":\"endi\",\"i\":{}}}", ind(&w, &i))
                }
                _ => {
                    let i = self.0.run(&c.input[0], &params, cb);
                    stray();
                    format!("{{\"k\":\"endi\",\"i\":{}}}", ind(&w, &i))
                }
            }
        });
        seen.end = match res {
            Ok(s) => s,
            Err(m) if m == "the callback gives up" => "{\"k\":\"aborted\"}".into(),
            Err(m) => {
                if !wrapped && !init_done {
                    let made = made();
                    emit_start(made.0, "[]", made.1);
                }
                drain();
                format!("{{\"k\":\"panic\",\"what\":{}}}", qs(&m))
            }
        };
        emit(seen.end.clone());
        seen
    }
}
/// kind: 0 default validity and survival, 1 own validity, 2 own survival, 3 both
pub fn instance(aga: bool, kind: usize, wrapped: bool) -> Box<dyn Instance> {
    type GA<M> = GeneticAlgorithm<M>;
    type AGA<M> = AdaptiveGeneticAlgorithm<M>;
    macro_rules! build {
        ($m:ty) => {
            match (aga, wrapped) {
                (false, false) => Box::new(Inst(GA::build_evolution(<$m>::default()), false)) as Box<dyn Instance>,
                (false, true) => Box::new(Inst(RecAlg::<GA<$m>>::build_evolution(<$m>::default()), true)),
                (true, false) => Box::new(Inst(AGA::build_evolution(<$m>::default()), false)),
                (true, true) => Box::new(Inst(RecAlg::<AGA<$m>>::build_evolution(<$m>::default()), true)),
            }
        };
    }
    match kind {
        0 => build!(TM<IndD, false>),
        1 => build!(TM<IndV, false>),
        2 => build!(TM<IndD, true>),
        _ => build!(TM<IndV, true>),
    }
}

/// ---- generated runs ------------------------------------------------------------------------------
pub fn pools() -> Vec<rayon::ThreadPool> {
    [1, 2, 4, 8].iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect()
}
pub fn gen_world(r: &mut SmallRng, own: bool, invalid: f64) -> World {
    let g = *[1, 2, 3, 4, 6, 9, 14, 20, 30].choose(r).unwrap();
    let top = *[0, 1, 2, 4, 16].choose(r).unwrap();
    let mut fit: Vec<i64> = (0..g).map(|_| r.gen_range(0..=top)).collect();
    let mut bad = vec![false; g];
    for x in 0..g {
        if r.gen_bool(invalid) {
            if own {
                bad[x] = true;
                if r.gen() {
                    fit[x] = top + 1 // the most attractive of all, but invalid
                }
            } else {
                fit[x] = *[NAN, INF, -INF].choose(r).unwrap();
            }
        }
    }
    let mut imp: Vec<u32> = (0..g as u32).collect();
    if r.gen_bool(0.6) {
        for x in imp.iter_mut() {
            if r.gen_bool(0.4) {
                *x = r.gen_range(0..g as u32)
            }
        }
    }
    use Vals::*;
    let vals = *[
        Affine(0.0, 1.0),
        Affine(-8.0, 0.5),
        Affine(1000.0, 0.125),
        Affine(0.0, 1e-3),
        Affine(-100.0, 1.0),
        Affine(0.0, 1e30),
        Ulps(1.0),
        Ulps(-1e-3),
        Ulps(1e15),
        Tiny,
        Powers,
    ]
    .choose(r)
    .unwrap();
    for x in fit.iter_mut().filter(|x| ![NAN, INF, -INF].contains(*x)) {
        *x += vals.start()
    }
    // a validity of its own may accept infinite values
    if own && !vals.affine() && r.gen_bool(0.6) {
        for x in fit.iter_mut() {
            if r.gen_bool(0.25) {
                *x = if r.gen_bool(0.7) { INF } else { -INF }
            }
        }
    }
    World { fit, bad, imp, vals, unev: *[UNEV, UNEV, NAN, INF, -INF].choose(r).unwrap(), shake: r.gen_bool(0.3), boom: AtomicI64::new(0), hook: vec![], scripted: false, scripts: Mutex::default() }
}
pub fn gen_strat(r: &mut SmallRng) -> SelectionStrategy {
    use SelectionStrategy::*;
    match r.gen_range(0..10) {
        0 => Tournament(1),
        1 => Tournament(2),
        2 => Tournament(5),
        3 => RouletteWheel,
        4 => Rank,
        5 => Linear(1.0),
        6 => Linear(1.5),
        7 => Elitist(0.0),
        8 => Elitist(0.5),
        _ => Boltzmann(5.0, 0.5),
    }
}
fn gen_rate(r: &mut SmallRng) -> i64 {
    *[0, 0, 1000, 1000, 500, 300, 800, 50].choose(r).unwrap()
}
pub fn gen_cfg(r: &mut SmallRng, w: &World, aga: bool, own: bool) -> RunCfg {
    let n: usize = *[1, 1, 2, 2, 3, 4, 5, 8, 13, 20, 40].choose(r).unwrap();
    // an elitism rate whose product with n is not next to an integer (or exactly one)
    let elite = match r.gen_range(0..6) {
        0 | 1 => 0,
        2 => n - 1,
        3 => 1.min(n - 1),
        _ => r.gen_range(0..n),
    };
    let el_rate = if elite == 0 && r.gen() {
        0.0
    } else if elite == n - 1 && r.gen() {
        0.999999
    } else if n.is_power_of_two() && r.gen() {
        elite as f64 / n as f64
    } else {
        (elite as f64 + 0.5) / n as f64
    };
    let g = w.fit.len() as u32;
    let mode = *["pop", "pop", "ind", "rand"].choose(r).unwrap();
    let valid: Vec<u32> = (0..g).filter(|&x| if own { !w.bad[x as usize] } else { ![NAN, INF, -INF].contains(&w.fit[x as usize]) }).collect();
    let input = match mode {
        "pop" => {
            let k = *[1, 1, 2, 3, n, n, n + 1, 2 * n, 7].choose(r).unwrap();
            (0..k).map(|_| r.gen_range(0..g)).collect()
        }
        "ind" => vec![if valid.is_empty() || r.gen_bool(0.1) { r.gen_range(0..g) } else { *valid.choose(r).unwrap() }],
        _ => vec![g],
    };
    let mut p = [gen_rate(r), gen_rate(r), gen_rate(r), gen_rate(r)];
    if r.gen_bool(0.3) {
        p = [250, 750, 100, 900];
    }
    let gens = *[0, 1, 2, 3, 5, 9].choose(r).unwrap();
    RunCfg {
        aga,
        mode,
        n,
        elite,
        el_rate,
        cr: gen_rate(r),
        mr: gen_rate(r),
        p,
        int: if w.vals.affine() { *[0, 1, 1, 2, 3].choose(r).unwrap() } else { 0 },
        strat: gen_strat(r),
        input,
        gens: if n >= 20 { gens.min(3) } else { gens },
        abort: false,
    }
}
fn gen_hook(r: &mut SmallRng, gens: usize) -> Vec<HookAct> {
    if r.gen() {
        return vec![];
    }
    (0..gens).map(|_| HookAct { rates: r.gen_bool(0.4).then(|| (gen_rate(r), gen_rate(r))), sel: r.gen_bool(0.3).then(|| gen_strat(r)) }).collect()
}
pub fn put(out: &mut Out, id: &str) {
    let ev = take_events();
    let n = ev.len() as u64;
    out.case(format!("{{\"id\":{},\"ev\":{}}}", qs(id), arr(ev)), n);
}

pub fn runs(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 70);
    let pools = pools();
    replay(out, &pools, lines, seed);
    let cases = if thorough { 4000 } else { 500 };
    for case in 0..cases {
        let (aga, wrapped, kind) = (case % 2 == 1, case / 2 % 2 == 1, case / 4 % 4);
        let own = kind % 2 == 1;
        let invalid = *[0.0, 0.1, 0.3, 0.9].choose(&mut r).unwrap();
        let threads = r.gen_range(0..4);
        reseed(r.gen());
        SELS.store(0, SeqCst);
        pools[threads].install(|| {
            let inst = instance(aga, kind, wrapped);
            for run in 0..r.gen_range(1..4) {
                let mut w = gen_world(&mut r, own, invalid);
                let mut c = gen_cfg(&mut r, &w, aga, own);
                w.hook = gen_hook(&mut r, c.gens + 1);
                c.abort = r.gen_bool(0.1);
                at(format!("run {run} of runs/{case} with {} threads: {c:?} in {:?} bad {:?} hook {:?}", 1 << threads, w.fit, w.bad, w.hook));
                set_world(Arc::new(w));
                inst.go(&c, kind >= 2, own);
            }
        });
        put(out, &format!("runs/{case}"));
    }
    // bigger populations bred by many threads, many generations on small ones that often converge
    for case in 0..(if thorough { 80 } else { 12 }) {
        let (aga, wrapped) = (case % 2 == 1, case / 2 % 2 == 1);
        let mut w = gen_world(&mut r, false, 0.1);
        let mut c = gen_cfg(&mut r, &w, aga, false);
        if case % 6 < 2 {
            (c.n, c.elite, c.el_rate, c.gens) = (120, 3, 0.03, 2);
        } else if case % 6 < 4 {
            (c.n, c.elite, c.el_rate, c.gens) = (4, 1, 0.3, 70);
        } else {
            let n = r.gen_range(1..4);
            (c.n, c.elite, c.el_rate, c.gens) = (n, n - 1, (n as f64 - 0.5) / n as f64, *[150, 270, 400].choose(&mut r).unwrap());
            if n == 1 {
                (c.elite, c.el_rate) = (0, 0.0);
            }
            if case % 12 < 6 {
                w.fit = vec![w.vals.start() + 1; 1 + n];
                (w.bad, w.imp) = (vec![false; 1 + n], (0..=n as u32).collect());
            }
            if aga && w.vals.affine() {
                c.int = *[1, 2, 7, 30].choose(&mut r).unwrap();
            }
        }
        w.shake = case % 6 < 4;
        c.mode = "rand";
        c.input = vec![w.fit.len() as u32];
        at(format!("runs/long{case}: {c:?} in {:?}", w.fit));
        set_world(Arc::new(w));
        pools[if case % 6 < 2 { 3 } else { case / 6 % 2 }].install(|| instance(aga, 0, wrapped).go(&c, false, false));
        put(out, &format!("runs/long{case}"));
    }
    crate::long::long(out, thorough, &pools);
    crate::long::singles(out, thorough, &pools);
}

/// The same run on a used and on a fresh instance (C15).
pub fn twins(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 72);
    let pools = pools();
    let twin = |r: &mut SmallRng, used: &dyn Instance, fresh: &dyn Instance, c: &RunCfg, kind: usize| {
        let s: u64 = r.gen();
        let mut two = vec![];
        for i in [used, fresh] {
            reseed(s);
            SELS.store(0, SeqCst);
            let e = i.go(c, kind >= 2, kind % 2 == 1);
            two.push(format!("[{},{}]", arr(e.pops), arr([e.end])));
        }
        emit(format!("{{\"k\":\"twin\",\"a\":{},\"b\":{}}}", two[0], two[1]));
    };
    // behaviours of MCTwins: [[alg], runs.. [n, elite, cr, mr, clo, chi, mlo, mhi, interval, strategy, gens, how]]
    for (case, l) in lines.iter().enumerate() {
        let v = parse_nested(l);
        let aga = v[0].nums()[0] == 1;
        for own in [false, true] {
            let kind = own as usize;
            reseed(r.gen());
            SELS.store(0, SeqCst);
            pools[0].install(|| {
                let used = instance(aga, kind, case % 2 == 0);
                let fresh = instance(aga, kind, case % 2 == 0);
                for (k, run) in v[1..].iter().enumerate() {
                    let x = run.nums();
                    let last = k + 2 == v.len();
                    let mut w = gen_world(&mut r, own, if x[11] == 2 { 1.0 } else { 0.0 });
                    while !w.vals.affine() {
                        w = gen_world(&mut r, own, if x[11] == 2 { 1.0 } else { 0.0 });
                    }
                    w.shake = false;
                    let n = x[0] as usize;
                    let c = RunCfg {
                        aga,
                        mode: "rand",
                        n,
                        elite: x[1] as usize,
                        el_rate: (x[1] as f64 + 0.5) / n as f64,
                        cr: x[2],
                        mr: x[3],
                        p: [x[4], x[5], x[6], x[7]],
                        int: x[8] as usize,
                        strat: match x[9] {
                            1 => SelectionStrategy::Rank,
                            2 => SelectionStrategy::Boltzmann(5.0, 0.5),
                            _ => SelectionStrategy::Tournament(2),
                        },
                        input: vec![w.fit.len() as u32],
                        gens: x[10] as usize,
                        abort: x[11] == 1,
                    };
                    at(format!("twins/{l} run {k}: {c:?} in {:?}", w.fit));
                    set_world(Arc::new(w));
                    if last {
                        twin(&mut r, &*used, &*fresh, &c, kind);
                    } else {
                        used.go(&c, false, own);
                    }
                }
            });
            put(out, &format!("twins/{l}"));
        }
    }
    for case in 0..(if thorough { 1500 } else { 200 }) {
        let (aga, kind) = (case % 2 == 1, case / 2 % 4);
        let own = kind % 2 == 1;
        reseed(r.gen());
        SELS.store(0, SeqCst);
        pools[0].install(|| {
            let used = instance(aga, kind, false);
            let fresh = instance(aga, kind, false);
            for _ in 0..r.gen_range(1..4) {
                let mut w = gen_world(&mut r, own, 0.2);
                let mut c = gen_cfg(&mut r, &w, aga, own);
                w.hook = gen_hook(&mut r, c.gens + 1);
                c.abort = r.gen_bool(0.3);
                at(format!("before twins/{case}: {c:?}"));
                // some runs break off where they must not leave anything behind; what they did is not recorded
                let before = EVS.lock().unwrap_or_else(|e| e.into_inner()).len();
                let broken = r.gen_range(0..4) / 2 * r.gen_range(0..3);
                if broken == 1 {
                    w.boom = AtomicI64::new(c.input.len() as i64 + r.gen_range(1..60));
                } else if broken == 2 {
                    match r.gen_range(0..3) {
                        0 => c.el_rate = 1.0,
                        1 => (c.n, c.el_rate) = (0, 0.0),
                        _ => (c.cr, c.p[1], c.p[2]) = (1001, -1, 2000),
                    }
                }
                set_world(Arc::new(w));
                used.go(&c, kind >= 2, own);
                if broken > 0 {
                    drain();
                    EVS.lock().unwrap_or_else(|e| e.into_inner()).truncate(before);
                }
            }
            let w = gen_world(&mut r, own, 0.05);
            let mut c = gen_cfg(&mut r, &w, aga, own);
            c.gens = c.gens.max(3);
            if r.gen() {
                (c.cr, c.mr, c.p) = (500, 500, [200, 800, 200, 800]);
            }
            // no random choice may depend on anything but the seed
            at(format!("twins/{case}: {c:?} in {:?}", w.fit));
            set_world(Arc::new(World { shake: false, ..w }));
            twin(&mut r, &*used, &*fresh, &c, kind);
        });
        put(out, &format!("twins/{case}"));
    }
}


/// Behaviours of MCEvolution: the parents that are selected, what crossover, mutation, improvement
/// and survival answer in each breeding are those of the specification.
fn replay(out: &mut Out, pools: &[rayon::ThreadPool], lines: &[String], seed: u64) {
    let mut r = rng(seed, 71);
    for (case, l) in lines.iter().enumerate() {
        let v = parse_nested(l);
        // [fit, bad, [n, elite, ovr, own, cr, mr], input, scripts..] where a script is [selections, x, m, i, k]
        let nums = |i: usize| v[i].nums();
        let (fit, bad, c, input) = (nums(0), nums(1), nums(2), nums(3));
        let g = fit.len();
        let own = c[3] == 1;
        let scripts: VecDeque<Script> = v[4]
            .list()
            .iter()
            .map(|s| {
                let s = s.list();
                Script {
                    sel: s[0].list().iter().map(|x| x.num() as usize).collect(),
                    x: s[1].num() as u32,
                    m: s[2].num() as u32,
                    i: s[3].num() as u32,
                    k: s[4].num() as u8,
                }
            })
            .collect();
        let gens = c[6] as usize;
        let w = World {
            fit: fit.iter().enumerate().map(|(x, &f)| if !own && bad.contains(&(x as i64)) { *[NAN, INF, -INF].choose(&mut r).unwrap() } else { f }).collect(),
            bad: (0..g).map(|x| own && bad.contains(&(x as i64))).collect(),
            imp: (0..g as u32).collect(),
            vals: Vals::Affine(0.0, 1.0),
            unev: *[UNEV, NAN, INF].choose(&mut r).unwrap(),
            shake: false,
            boom: AtomicI64::new(0),
            hook: vec![],
            scripted: true,
            scripts: Mutex::new(scripts),
        };
        let n = c[0] as usize;
        let cfg = RunCfg {
            aga: case % 3 == 2,
            mode: "pop",
            n,
            elite: c[1] as usize,
            el_rate: (c[1] as f64 + 0.5) / n as f64,
            cr: c[4],
            mr: c[5],
            p: [c[4], c[4], c[5], c[5]],
            int: 1,
            strat: SelectionStrategy::Rank,
            input: input.iter().map(|&x| x as u32).collect(),
            gens,
            abort: false,
        };
        at(format!("replay {l}"));
        reseed(case as u64 + 1);
        SELS.store(0, SeqCst);
        set_world(Arc::new(w));
        let kind = own as usize + 2 * (c[2] as usize);
        pools[if case % 5 == 4 { 1 } else { 0 }].install(|| instance(cfg.aga, kind, case % 2 == 0).go(&cfg, c[2] == 1, own));
        put(out, &format!("replay/{case}"));
    }
}
