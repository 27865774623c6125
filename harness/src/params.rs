//! Which parameters are accepted (C14), for ParamTrace.
use crate::adapt::{Plain, PlainModel};
use crate::util::*;
use rand::prelude::*;
use rusty_genes::*;

const NAN: i64 = 77777;
const INF: i64 = 99999;
/// Numbers in thousandths, and what they stand for.
fn table() -> Vec<(i64, f64)> {
    let up = |x: f64| f64::from_bits(x.to_bits() + 1);
    let down = |x: f64| f64::from_bits(x.to_bits() - 1);
    vec![
        (NAN, f64::NAN),
        (NAN, -f64::NAN),
        (-INF, f64::NEG_INFINITY),
        (-1000, -1.0),
        (-1000, -1e308),
        (-1000, -0.7),
        (-1, -5e-324),
        (-1, -1e-9),
        (0, 0.0),
        (0, -0.0),
        (1, 5e-324),
        (1, 1e-12),
        (1, f64::EPSILON),
        (300, 0.3),
        (500, 0.5),
        (999, down(1.0)),
        (999, 0.999999),
        (1000, 1.0),
        (1001, up(1.0)),
        (1001, 1.0001),
        (2000, 2.0),
        (2000, 1e308),
        (2000, 1.5),
        (INF, f64::INFINITY),
    ]
}
struct Ctx {
    t: Vec<(i64, f64)>,
    r: SmallRng,
}
impl Ctx {
    fn pick(&mut self, code: i64) -> f64 {
        let v: Vec<f64> = self.t.iter().filter(|x| x.0 == code).map(|x| x.1).collect();
        *v.choose(&mut self.r).unwrap()
    }
    fn any(&mut self) -> (i64, f64) {
        *self.t.choose(&mut self.r).unwrap()
    }
    /// [code, place in the table] of exactly this value
    fn pair(&self, f: f64) -> String {
        match self.t.iter().position(|x| x.1.to_bits() == f.to_bits()) {
            Some(i) => format!("[{},{i}]", self.t[i].0),
            None => "[-5,-5]".into(),
        }
    }
}
const KINDS: [&str; 6] = ["tour", "roul", "rank", "line", "elit", "bolt"];
enum Sel {
    Tour(TournamentSelection),
    Roul(RouletteWheelSelection),
    Rank(RankSelection),
    Line(LinearSelection),
    Elit(ElitistSelection),
    Bolt(BoltzmannSelection),
}
fn strategy(t: usize, a: &[f64], size: usize) -> SelectionStrategy {
    match KINDS[t] {
        "tour" => SelectionStrategy::Tournament(size),
        "roul" => SelectionStrategy::RouletteWheel,
        "rank" => SelectionStrategy::Rank,
        "line" => SelectionStrategy::Linear(a[0]),
        "elit" => SelectionStrategy::Elitist(a[0]),
        _ => SelectionStrategy::Boltzmann(a[0], a[1]),
    }
}
fn ok<T>(r: &Result<T, String>) -> u8 {
    r.is_ok() as u8
}
/// A size in the trace: small enough for TLC, zero exactly if it is zero.
fn sz(n: usize) -> i64 {
    n.min(2_000_000_000) as i64
}

fn selector(c: &mut Ctx, t: usize, codes: &[i64], sets: &[(usize, i64)], ev: &mut Vec<String>) {
    let kind = KINDS[t];
    let f: Vec<f64> = codes.iter().map(|&x| if kind == "tour" { 0.0 } else { c.pick(x) }).collect();
    let size = if kind == "tour" { codes[0] as usize } else { 0 };
    let back = |c: &Ctx, s: &Sel| match s {
        Sel::Tour(s) => format!("[[{0},{0}]]", sz(s.size())),
        Sel::Line(s) => arr([c.pair(s.bias())]),
        Sel::Elit(s) => arr([c.pair(s.ratio())]),
        Sel::Bolt(s) => arr([c.pair(s.temperature()), c.pair(s.cooling_rate())]),
        _ => "[]".into(),
    };
    let st = strategy(t, &f, size);
    let made = guard(|| {
        let _: Box<dyn SelectionMechanism<Plain, SmallRng>> = st.create_selector();
    });
    ev.push(format!("{{\"k\":\"make\",\"t\":{},\"a\":{},\"ok\":{}}}", qs(kind), arr(codes), ok(&made)));
    let s = guard(|| match kind {
        "tour" => Sel::Tour(TournamentSelection::new(size)),
        "roul" => Sel::Roul(RouletteWheelSelection::new()),
        "rank" => Sel::Rank(RankSelection::new()),
        "line" => Sel::Line(LinearSelection::new(f[0])),
        "elit" => Sel::Elit(ElitistSelection::new(f[0])),
        _ => Sel::Bolt(BoltzmannSelection::new(f[0], f[1])),
    });
    let args = if kind == "tour" { format!("[[{0},{0}]]", sz(size)) } else { arr(f.iter().map(|&x| c.pair(x))) };
    let b = s.as_ref().map_or("[]".into(), |s| back(c, s));
    ev.push(format!("{{\"k\":\"new\",\"t\":{},\"a\":{args},\"ok\":{},\"back\":{b}}}", qs(kind), ok(&s)));
    let Ok(mut s) = s else { return };
    for &(i, code) in sets {
        let x = if kind == "tour" { 0.0 } else { c.pick(code) };
        let res = guard(|| match &mut s {
            Sel::Tour(s) => s.set_size(code as usize),
            Sel::Line(s) => s.set_bias(x),
            Sel::Elit(s) => s.set_ratio(x),
            Sel::Bolt(s) if i == 1 => s.set_temperature(x),
            Sel::Bolt(s) => s.set_cooling_rate(x),
            Sel::Roul(_) | Sel::Rank(_) => {}
        });
        let v = if kind == "tour" { format!("[{code},{code}]") } else { c.pair(x) };
        ev.push(format!("{{\"k\":\"set\",\"i\":{i},\"v\":{v},\"ok\":{},\"back\":{}}}", ok(&res), back(c, &s)));
    }
}

fn drive<A, P>(p: &P, used: &Evolution<A, PlainModel>, how: Option<u64>) -> (Result<(), String>, Result<(), String>, Result<(), String>, u32)
where
    P: EvolutionParameters,
    A: EvolutionAlgorithm<PlainModel, Parameters = P> + From<PlainModel>,
{
    let valid = guard(|| p.validate());
    let conf = guard(|| A::from(PlainModel).configure(p));
    let mut asked = 0;
    let run = guard(|| {
        let cb = |_: &Population<Plain>| {
            asked += 1;
            false
        };
        match how {
            None => {}
            Some(0) => {
                used.evolve_population(vec![Plain { g: 1, f: 1.0 }, Plain { g: 2, f: 2.0 }], p, cb);
            }
            Some(1) => {
                used.evolve_individual(Plain { g: 1, f: 1.0 }, p, cb);
            }
            _ => {
                used.run(&1u32, p, cb);
            }
        }
    });
    (valid, conf, run, asked)
}
impl RandomIndividual<u32> for Plain {
    fn new_random<R: Rng>(a: &u32, r: &mut R) -> Self {
        Plain { g: *a + r.gen_range(0..9), f: 1.0 }
    }
}
struct Algs {
    ga: Evolution<GeneticAlgorithm<PlainModel>, PlainModel>,
    aga: Evolution<AdaptiveGeneticAlgorithm<PlainModel>, PlainModel>,
}
#[allow(clippy::too_many_arguments)]
fn algorithm(c: &mut Ctx, a: &Algs, size: usize, nums: &[i64], t: usize, targs: &[i64], run_too: bool, ev: &mut Vec<String>) {
    let f: Vec<f64> = nums.iter().map(|&x| c.pick(x)).collect();
    let tf: Vec<f64> = targs.iter().map(|&x| if t == 0 { 0.0 } else { c.pick(x) }).collect();
    let strat = strategy(t, &tf, if t == 0 { targs[0] as usize } else { 0 });
    let how = c.r.gen_range(0..3);
    let (v, o, r, asked) = if nums.len() == 3 {
        drive(
            &GeneticAlgorithmParameters { population_size: size, elitism_rate: f[0], crossover_rate: f[1], mutation_rate: f[2], selection_strategy: strat },
            &a.ga,
            run_too.then_some(how),
        )
    } else {
        drive(
            &AdaptiveGeneticAlgorithmParameters {
                population_size: size,
                elitism_rate: f[0],
                crossover_rate_range: f[1]..f[2],
                mutation_rate_range: f[3]..f[4],
                selection_strategy: strat,
                parameter_adjustment_interval: *[0, 1, 7, usize::MAX].choose(&mut c.r).unwrap(),
            },
            &a.aga,
            run_too.then_some(how),
        )
    };
    let p = format!("\"size\":{},\"el\":{},\"rates\":{},\"t\":{},\"a\":{}", sz(size), nums[0], arr(&nums[1..]), qs(KINDS[t]), arr(targs));
    ev.push(format!("{{\"k\":\"validate\",{p},\"ok\":{}}}", ok(&v)));
    ev.push(format!("{{\"k\":\"configure\",{p},\"ok\":{}}}", ok(&o)));
    if run_too {
        ev.push(format!("{{\"k\":\"run\",{p},\"ok\":{},\"asked\":{asked}}}", ok(&r)));
    }
}
fn put(out: &mut Out, id: String, ev: Vec<String>) {
    let n = ev.len() as u64;
    out.case(format!("{{\"id\":{},\"ev\":{}}}", qs(&id), arr(ev)), n);
}

pub fn params(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut c = Ctx { t: table(), r: rng(seed, 100) };
    let a = Algs { ga: GeneticAlgorithm::build_evolution(PlainModel), aga: AdaptiveGeneticAlgorithm::build_evolution(PlainModel) };
    for (k, l) in lines.iter().enumerate() {
        at(format!("params {l}"));
        let v = parse_nested(l);
        let mut ev = vec![];
        if v[0].nums() == [-1] {
            let n = v[1].nums();
            let sets: Vec<(usize, i64)> = v[3..].iter().map(|s| (s.nums()[0] as usize, s.nums()[1])).collect();
            selector(&mut c, n[0] as usize - 1, &n[1..], &sets, &mut ev);
        } else {
            let (size, nums, s) = (v[0].nums()[0] as usize, v[1].nums(), v[2].nums());
            // the values of a code are taken at random, so each set is tried more than once
            for _ in 0..(if thorough { 6 } else { 1 + k % 2 }) {
                algorithm(&mut c, &a, size, &nums, s[0] as usize - 1, &s[1..], true, &mut ev);
            }
        }
        put(out, format!("params/{l}"), ev);
    }
    for case in 0..(if thorough { 20000 } else { 1500 }) {
        let mut ev = vec![];
        at(format!("params/{case}"));
        let t = c.r.gen_range(0..6);
        let arity = [1, 0, 0, 1, 1, 2][t];
        let mut arg = |c: &mut Ctx, t: usize| -> i64 {
            if t == 0 {
                *[0, 1, 2, 3, 50, 2_000_000_000].choose(&mut c.r).unwrap()
            } else {
                c.any().0
            }
        };
        let codes: Vec<i64> = (0..arity).map(|_| arg(&mut c, t)).collect();
        let sets: Vec<(usize, i64)> = (0..if arity == 0 { 0 } else { c.r.gen_range(0..12) }).map(|_| (c.r.gen_range(1..=arity), arg(&mut c, t))).collect();
        selector(&mut c, t, &codes, &sets, &mut ev);
        for m in [3, 5] {
            let nums: Vec<i64> = (0..m).map(|_| if c.r.gen_bool(0.7) { *[0, 1, 300, 500, 999].choose(&mut c.r).unwrap() } else { c.any().0 }).collect();
            let size = *[0, 1, 2, 5, 1 << 31, usize::MAX].choose(&mut c.r).unwrap();
            algorithm(&mut c, &a, size, &nums, t, &codes, size < 100, &mut ev);
        }
        put(out, format!("params/{case}"), ev);
    }
}
