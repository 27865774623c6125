//! The rates of the adaptive algorithm over histories of populations (C13), for AdaptTrace.
use crate::evo::mill;
use crate::util::*;
use rand::prelude::*;
use rusty_genes::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Plain {
    pub g: u32,
    pub f: f64,
}
impl Individual for Plain {
    fn fitness(&self) -> f64 {
        self.f
    }
}
#[derive(Default)]
pub struct PlainModel;
impl EvolutionModel for PlainModel {
    type Individual = Plain;
    type Rng = SmallRng;
    fn rng() -> SmallRng {
        SmallRng::seed_from_u64(1)
    }
    fn crossover(&self, a: &Plain, _: &Plain, _: &mut SmallRng) -> Plain {
        a.clone()
    }
    fn mutate(&self, _: &mut Plain, _: &mut SmallRng) {}
    fn evaluate(&self, _: &mut Plain) {}
}
/// clo, chi, mlo, mhi in thousandths, interval
type Conf = ([i64; 4], usize);
fn params(c: &Conf, strat: SelectionStrategy) -> AdaptiveGeneticAlgorithmParameters {
    let t = |k: usize| c.0[k] as f64 / 1000.0;
    AdaptiveGeneticAlgorithmParameters {
        population_size: 10,
        elitism_rate: 0.1,
        crossover_rate_range: t(0)..t(1),
        mutation_rate_range: t(2)..t(3),
        selection_strategy: strat,
        parameter_adjustment_interval: c.1,
    }
}
struct Alg {
    a: AdaptiveGeneticAlgorithm<PlainModel>,
    ev: Vec<String>,
}
impl Alg {
    fn new() -> Self {
        Alg { a: AdaptiveGeneticAlgorithm::from(PlainModel), ev: vec![] }
    }
    fn conf(&mut self, c: &Conf, s: SelectionStrategy) {
        self.a.configure(&params(c, s));
        self.ev.push(format!("{{\"k\":\"conf\",\"p\":{{\"clo\":{},\"chi\":{},\"mlo\":{},\"mhi\":{},\"int\":{}}}}}", c.0[0], c.0[1], c.0[2], c.0[3], c.1));
    }
    /// One life of a population: the fitness values of the generations one after the other.
    fn life(&mut self, gens: &[Vec<i64>], value: impl Fn(i64) -> f64) {
        let mk = |v: &Vec<i64>| v.iter().enumerate().map(|(g, &k)| Plain { g: g as u32, f: value(k) }).collect::<Vec<_>>();
        let mut pop = Population::new(mk(&gens[0]));
        for (n, v) in gens.iter().enumerate() {
            if n > 0 {
                pop.replace(&mut mk(v));
            }
            let gen = pop.generation();
            match guard(|| self.a.prepare_for_next_population(&pop)) {
                Ok(()) => {
                    let r = self.a.reproduction_parameters().0;
                    self.ev.push(format!("{{\"k\":\"gen\",\"g\":{gen},\"fs\":{},\"rates\":[{},{}]}}", arr(v), mill(r.crossover_rate), mill(r.mutation_rate)));
                }
                Err(_) => self.ev.push("{\"k\":\"pan\"}".into()),
            }
        }
    }
    /// The same with populations of two fitness values: (size, hundredths with the lower one, difference).
    fn crowds(&mut self, gens: &[(usize, usize, i64)], value: impl Fn(i64) -> f64, r: &mut SmallRng) {
        let mut pop: Option<Population<Plain>> = None;
        for &(n, q, v) in gens {
            let mut members: Vec<Plain> = (0..n).map(|g| Plain { g: g as u32, f: value(if g < n / 100 * q { 1 } else { 1 + v }) }).collect();
            members.shuffle(r);
            match pop.as_mut() {
                None => pop = Some(Population::new(members)),
                Some(p) => p.replace(&mut members),
            }
            let p = pop.as_ref().unwrap();
            match guard(|| self.a.prepare_for_next_population(p)) {
                Ok(()) => {
                    let r = self.a.reproduction_parameters().0;
                    self.ev.push(format!(
                        "{{\"k\":\"crowd\",\"g\":{},\"x\":{{\"n\":{n},\"q\":{q},\"v\":{v}}},\"rates\":[{},{}]}}",
                        p.generation(),
                        mill(r.crossover_rate),
                        mill(r.mutation_rate)
                    ));
                }
                Err(_) => self.ev.push("{\"k\":\"pan\"}".into()),
            }
        }
    }
    fn put(self, out: &mut Out, id: &str) {
        let n = self.ev.len() as u64;
        out.case(format!("{{\"id\":{},\"ev\":{}}}", qs(id), arr(self.ev)), n);
    }
}
/// k >= 0: a multiple of the scale; 9000 and above (and their negatives): far apart
fn value(k: i64, base: f64, scale: f64) -> f64 {
    match k {
        9001 => 1e200,
        -9001 => -1e200,
        9002 => f64::MAX,
        -9002 => -f64::MAX,
        9003 => 1e-300,
        9004 => 5e-324,
        k => base + k as f64 * scale,
    }
}
pub fn adapt(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 90);
    let scales = [(0.0, 1.0), (-9.0, 1.0), (1000.0, 0.125), (0.0, 1e-3), (-3.0, 0.25), (0.0, 1e60), (0.0, 1e-60)];
    let step = if thorough { 1 } else { 4 };
    let off = r.gen_range(0..step);
    for (k, l) in lines.iter().enumerate().filter(|x| x.0 % step == off) {
        let v = parse_nested(l);
        let p = v[0].nums();
        let c: Conf = ([p[0], p[1], p[2], p[3]], p[4] as usize);
        let gens: Vec<Vec<i64>> = v[1].list().iter().map(J::nums).collect();
        let (b, s) = scales[k % scales.len()];
        at(format!("adapt replay {l} at {b} + k * {s}"));
        let mut a = Alg::new();
        a.conf(&c, SelectionStrategy::Rank);
        a.life(&gens, |k| value(k, b, s));
        a.put(out, &format!("replay/{l}"));
    }
    for case in 0..(if thorough { 20000 } else { 1500 }) {
        let mut a = Alg::new();
        for _ in 0..r.gen_range(1..4) {
            let rate = |r: &mut SmallRng| *[0, 1000, 500, 300, 100, 999, 1, 800].choose(r).unwrap();
            let c: Conf = ([rate(&mut r), rate(&mut r), rate(&mut r), rate(&mut r)], *[0, 1, 1, 1, 2, 3, 5, 1000, usize::MAX].choose(&mut r).unwrap() & 0x7fff_ffff);
            let wild = case % 3 == 2;
            let (b, s) = *scales.choose(&mut r).unwrap();
            let gens: Vec<Vec<i64>> = (0..r.gen_range(1..9))
                .map(|_| {
                    let top = *[0, 1, 3, 17].choose(&mut r).unwrap();
                    (0..*[1, 1, 2, 3, 5, 10, 25, 30].choose(&mut r).unwrap())
                        .map(|_| if wild && r.gen_bool(0.2) { *[9001, -9001, 9002, -9002, 9003, 9004].choose(&mut r).unwrap() } else { r.gen_range(0..=top) })
                        .collect()
                })
                .collect();
            at(format!("adapt/{case}: {c:?} {gens:?} at {b} + k * {s}"));
            a.conf(&c, crate::evo::gen_strat(&mut r));
            a.life(&gens, |k| value(k, b, s));
        }
        a.put(out, &format!("adapt/{case}"));
    }
    // long lives
    for case in 0..(if thorough { 300 } else { 24 }) {
        let mut a = Alg::new();
        let c: Conf = ([300, 900, 50, 700], [1, 2, 3, 7, 16, 100, 250, 1][case % 8]);
        let (b, s) = *scales.choose(&mut r).unwrap();
        let len = if case == 7 { 3000 } else { *[70, 130, 300, 520].choose(&mut r).unwrap() };
        let flat = r.gen_bool(0.3);
        let gens: Vec<Vec<i64>> = (0..len)
            .map(|k| {
                let top = if k == 0 { 9 } else if flat { 0 } else { *[0, 3, 17].choose(&mut r).unwrap() };
                (0..r.gen_range(1..6)).map(|_| r.gen_range(0..=top)).collect()
            })
            .collect();
        at(format!("adapt/long{case}: {c:?} {gens:?} at {b} + k * {s}"));
        a.conf(&c, SelectionStrategy::Rank);
        a.life(&gens, |k| value(k, b, s));
        a.put(out, &format!("adapt/long{case}"));
    }
    // large populations
    for case in 0..(if thorough { 120 } else { 16 }) {
        let mut a = Alg::new();
        let c: Conf = ([300, 900, 50, 700], *[1, 1, 2].choose(&mut r).unwrap());
        let (b, s) = *scales.choose(&mut r).unwrap();
        let top = if case % 8 == 7 { 70_000 } else { 9_000 };
        let gens: Vec<(usize, usize, i64)> = (0..r.gen_range(2..7))
            .map(|k| {
                let n: &usize = [100, 200, 300, 600, 1100, 2500, 4200, 9000, 66_000, 70_000].iter().filter(|&&n| n <= top).collect::<Vec<_>>().choose(&mut r).copied().unwrap();
                (*n, if k == 0 { *[50, 90, 97].choose(&mut r).unwrap() } else { r.gen_range(1..100) }, if k == 0 { 9 } else { *[1, 2, 5, 9, 12].choose(&mut r).unwrap() })
            })
            .collect();
        at(format!("adapt/crowds{case}: {c:?} {gens:?} at {b} + k * {s}"));
        a.conf(&c, SelectionStrategy::Rank);
        a.crowds(&gens, |k| value(k, b, s), &mut r);
        a.put(out, &format!("adapt/crowds{case}"));
    }
}
