//! Selection strategies (C16-C19).
use crate::pop::PInd;
use crate::util::*;
use rand::prelude::*;
use rusty_genes::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

fn population(fit: &[f64]) -> Population<PInd> {
    Population::new(fit.iter().enumerate().map(|(i, &f)| PInd { g: i as u32 + 1, f, tag: 0 }).collect())
}
fn mem(p: &Population<PInd>) -> String {
    arr(p.iter().map(|i| i.g))
}
fn put(out: &mut Out, id: String, m: String, ev: Vec<String>) {
    let n = ev.len() as u64;
    out.case(format!("{{\"id\":{},\"mem\":{m},\"ev\":{}}}", qs(&id), arr(ev)), n);
}

/// Every way to build a selector of a strategy.
fn selector<R: Rng>(s: SelectionStrategy, via: usize) -> Box<dyn SelectionMechanism<PInd, R>> {
    if via % 2 == 0 {
        return s.create_selector();
    }
    match s {
        SelectionStrategy::Tournament(k) => {
            let mut x = TournamentSelection::new(1);
            x.set_size(k);
            Box::new(x)
        }
        SelectionStrategy::RouletteWheel => Box::<RouletteWheelSelection>::default(),
        SelectionStrategy::Rank => Box::<RankSelection>::default(),
        SelectionStrategy::Linear(b) => {
            let mut x = LinearSelection::new(1.5);
            x.set_bias(b);
            Box::new(x)
        }
        SelectionStrategy::Elitist(q) => {
            let mut x = ElitistSelection::new(0.0);
            x.set_ratio(q);
            Box::new(x)
        }
        SelectionStrategy::Boltzmann(t, c) => {
            let mut x = BoltzmannSelection::new(1.0, 1.0);
            x.set_temperature(t);
            x.set_cooling_rate(c);
            Box::new(x)
        }
    }
}

/// ---- C16 --------------------------------------------------------------------------------------
pub fn any(out: &mut Out, seed: u64, thorough: bool) {
    use SelectionStrategy::*;
    let mut r = rng(seed, 40);
    let mut strategies: Vec<SelectionStrategy> = vec![Tournament(1), Tournament(2), Tournament(3), Tournament(60), Tournament(65), Tournament(300), Tournament(1025), Tournament(4099), RouletteWheel, Rank];
    for b in [1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON, 1.0 + 1e-12, 1.000001, 1.25, 1.5, 2.0, 0.0, 0.5, 3.0, -1.0, 1e300, f64::INFINITY, f64::NAN] {
        strategies.push(Linear(b));
    }
    for q in [0.0, 1e-300, 0.1, 0.5, 0.7, 0.9, 0.99, 0.9999999, 1.0 - f64::EPSILON / 2.0] {
        strategies.push(Elitist(q));
    }
    for t in [1.0, 5.0, 1e-3, 1e-300, 1e300, 1e3, 0.0, -1.0, f64::INFINITY] {
        for c in [1.0, 0.5, 0.9, 2.0, 1e-200, 1e200, -1.0] {
            strategies.push(Boltzmann(t, c));
        }
    }
    let sizes: &[usize] = if thorough { &[1, 2, 3, 4, 5, 6, 7, 8, 13, 50, 200, 1000, 70_000] } else { &[1, 2, 3, 5, 8, 50, 130, 300, 66_000] };
    for &n in sizes {
        for kind in 0..NPAL + 3 {
            if (kind == 8 || kind == 9) && n > 60 {
                continue;
            }
            if n > 60_000 && kind != 0 && kind != NPAL {
                continue;
            }
            if n > 100 && kind % 4 != 0 && kind != NPAL {
                continue;
            }
            let fit: Vec<f64> = match kind {
                k if k < NPAL => {
                    let m = 1 + r.gen_range(0..n.max(2));
                    let p = palette(k, if r.gen() { n } else { m.min(n) });
                    (0..n).map(|i| p.v[i % p.v.len()]).collect()
                }
                k if k == NPAL => vec![0.0; n],
                k if k == NPAL + 1 => vec![-3.5; n],
                _ => (0..n).map(|i| if i % 3 == 0 { f64::MAX } else { -f64::MAX }).collect(),
            };
            let p = population(&fit);
            let m = mem(&p);
            let mut ev = vec![];
            for (j, s) in strategies.iter().enumerate() {
                if n > 8 && j % if n > 60_000 { 7 } else { 3 } != kind % 3 && !(thorough && n < 60_000) {
                    continue;
                }
                at(format!("{s:?} on {n} members, fitness {:?}..", &fit[..n.min(6)]));
                let mut sel = selector::<HRng>(*s, j + kind);
                let res = guard(|| {
                    let mut g = HRng::new(r.gen(), true);
                    let mut v = vec![];
                    for _ in 0..3 {
                        for _ in 0..r.gen_range(1..4) {
                            sel.prepare(&p);
                        }
                        for _ in 0..10 {
                            let (i, x) = sel.select(&p, &mut g);
                            v.push(format!("[{i},{}]", x.g));
                        }
                    }
                    v.sort();
                    v.dedup();
                    v
                });
                ev.push(match res {
                    Ok(v) => format!("{{\"k\":\"sel\",\"s\":{},\"res\":{}}}", qs(&format!("{s:?}")), arr(v)),
                    Err(_) => format!("{{\"k\":\"pan\",\"s\":{}}}", qs(&format!("{s:?}"))),
                });
            }
            ev.push(format!("{{\"k\":\"mem\",\"mem\":{}}}", mem(&p)));
            put(out, format!("any/{n}/{kind}"), m, ev);
        }
    }
    edges(out, &mut r, &strategies, thorough);
}
/// Large populations and random numbers next to the smallest and largest ones.
fn edges(out: &mut Out, r: &mut SmallRng, strategies: &[SelectionStrategy], thorough: bool) {
    let sizes: &[usize] = if thorough { &[10, 200, 1000, 2500, 4000, 5000, 7001, 9000, 12_345, 20_000, 33_000, 65_536, 100_000, 262_144, 1_000_003] } else { &[10, 1000, 3001, 5000, 9000, 20_000, 70_000] };
    for &n in sizes {
        let mut ev = vec![];
        let fit: Vec<f64> = (0..n).map(|i| 0.5 + i as f64).collect();
        let p = population(&fit);
        let draws = (3_000_000 / n).clamp(30, 3000);
        for (j, s) in strategies.iter().enumerate() {
            at(format!("{s:?} on {n} members, extreme random numbers"));
            let mut sel = selector::<HRng>(*s, j);
            let seed = r.gen();
            let bad = guard(|| {
                let mut g = HRng::new(seed, true);
                sel.prepare(&p);
                (0..draws)
                    .filter(|_| {
                        let (i, x) = sel.select(&p, &mut g);
                        i >= p.len() || p[i].g != x.g
                    })
                    .count()
            });
            ev.push(format!("{{\"k\":\"edge\",\"s\":{},\"n\":{n},\"N\":{draws},\"bad\":{}}}", qs(&format!("{s:?}")), bad.unwrap_or(draws)));
        }
        put(out, format!("edge/{n}"), "[]".into(), ev);
    }
}

const N: usize = 200_000;
#[allow(clippy::too_many_arguments)]
fn counted(out: &mut Out, prop: &str, id: String, name: &str, s: SelectionStrategy, via: usize, preps: usize, par: i64, shown: &[i64], fit: &[f64], seed: u64) {
    // the other preparations are on other populations (before the last replacement, or of its own):
    // only the last one counts
    let other = population(&(0..7).map(|i| i as f64 * 1.75 + 0.25).collect::<Vec<_>>());
    let top = fit.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let past: Vec<f64> = match seed % 4 {
        0 => vec![top, fit[0], top],                        // no improvement
        1 => vec![if top > 0.0 { top * 1.5 } else { 1.0 }, 0.25], // worse
        _ => vec![fit.iter().copied().fold(f64::INFINITY, f64::min)],
    };
    let mut p = population(if seed % 4 == 3 { fit } else { &past });
    at(format!("{id} {s:?}"));
    let mut sel = selector::<SmallRng>(s, via);
    let res = guard(|| {
        let renewed = if seed % 4 == 3 { 0 } else { 1 + (seed / 4 % 3) as usize };
        for k in 0..preps {
            if k + 1 == preps {
                for t in 0..renewed {
                    let last = t + 1 == renewed;
                    p.replace(&mut population(if last { fit } else { &past }).to_vec());
                }
            }
            sel.prepare(if k + 1 == preps || k % 2 == 0 { &p } else { &other });
        }
    });
    // the exponent or weight of each member, in the order of the population
    let w: Vec<i64> = p.iter().map(|i| shown.get(i.g as usize - 1).copied().unwrap_or(-1)).collect();
    let res = res.and_then(|_| guard(|| {
        let mut g = SmallRng::seed_from_u64(seed);
        let mut c = vec![0usize; fit.len()];
        for _ in 0..N {
            c[sel.select(&p, &mut g).0] += 1;
        }
        c
    }));
    let e = match res {
        Err(_) => format!("{{\"k\":\"cpan\",\"prop\":\"{prop}\"}}"),
        Ok(c) if name == "mono" => format!("{{\"k\":\"mono\",\"prop\":\"{prop}\",\"cnt\":{},\"fit\":{}}}", arr(c), arr(w)),
        Ok(c) => format!("{{\"k\":\"cnt\",\"prop\":\"{prop}\",\"s\":\"{name}\",\"par\":{par},\"fit\":{},\"N\":{N},\"cnt\":{}}}", arr(w), arr(c)),
    };
    put(out, id, "[]".into(), vec![e]);
}

/// Populations of many thousands, whose ranks are counted in equally large bins.
/// w: the weight or exponent of the members of each bin.
#[allow(clippy::too_many_arguments)]
fn bulk(out: &mut Out, prop: &str, name: &str, s: SelectionStrategy, par: i64, w: &[i64], m: usize, unit: f64, n: usize, seed: u64) {
    let id = format!("bulk/{name}/{par}/{}x{m}/{unit:e}", w.len());
    let fit: Vec<f64> = w.iter().flat_map(|&x| std::iter::repeat(x as f64 * unit).take(m)).collect();
    at(id.clone());
    let res = guard(|| {
        let p = population(&fit);
        let mut sel = selector::<SmallRng>(s, seed as usize);
        sel.prepare(&p);
        let mut g = SmallRng::seed_from_u64(seed);
        let mut c = vec![0usize; w.len()];
        let mut bad = 0;
        for _ in 0..n {
            let (i, x) = sel.select(&p, &mut g);
            c[i / m] += 1;
            bad += usize::from(p[i].g != x.g);
        }
        (c, bad)
    });
    let e = match res {
        Err(_) => format!("{{\"k\":\"cpan\",\"prop\":\"{prop}\"}}"),
        Ok((c, bad)) => format!("{{\"k\":\"bulk\",\"prop\":\"{prop}\",\"s\":\"{name}\",\"par\":{par},\"fit\":{},\"N\":{n},\"cnt\":{},\"bad\":{bad}}}", arr(w), arr(c)),
    };
    put(out, id, "[]".into(), vec![e]);
}

/// ---- C17 --------------------------------------------------------------------------------------
pub fn ranks(out: &mut Out, seed: u64, thorough: bool) {
    use SelectionStrategy::*;
    let mut r = rng(seed, 41);
    // beyond 16 bits; and where the square of the size, or the sum of the ranks, is beyond 32 bits
    for m in if thorough { vec![60, 5000, 10_000, 25_000] } else { vec![5000] } {
        let up: Vec<i64> = (0..20).collect();
        let same = vec![1; 20];
        for k in [1usize, 2, 3, 5] {
            bulk(out, "C17", "tournament", Tournament(k), k as i64, if k == 2 { &same } else { &up }, m, 1.0, 60_000, r.gen());
        }
        for k in [7usize, 30, 70, 260] {
            bulk(out, "C17", "tourbins", Tournament(k), k as i64, if k == 30 { &same } else { &up }, if k > 7 { m.min(50) } else { m }, 1.0, if k > 100 { 20_000 } else { 60_000 }, r.gen());
        }
        for h in [0, 5, 35, 50, 90, 95] {
            bulk(out, "C17", "elitist", Elitist(h as f64 / 100.0), h, if h == 50 { &same } else { &up }, m, 1.0, 60_000, r.gen());
        }
        for b in [100, 130, 150, 200] {
            bulk(out, "C17", "linear", Linear(b as f64 / 100.0), b, if b == 150 { &same } else { &up }, m, 1.0, 60_000, r.gen());
        }
        for w in [&up, &same] {
            bulk(out, "C17", "rankbins", Rank, m as i64, w, m, 1.0, 4_000, r.gen());
        }
    }
    for rep in 0..if thorough { 8 } else { 1 } {
        let mut go = |name: &str, s: SelectionStrategy, par: i64, n: usize| {
            // the fitness values are anything, even all equal
            let kind = r.gen_range(0..NPAL + 1);
            let fit: Vec<f64> = if kind == NPAL { vec![1.0; n] } else { palette(kind, n.min(40)).v.into_iter().cycle().take(n).collect() };
            let id = format!("{name}{rep}/{par}/{n}/pal{kind}");
            counted(out, "C17", id, name, s, r.gen_range(0..2), r.gen_range(1..4), par, &vec![0; n], &fit, r.gen());
        };
        for (k, n) in [(1, 1), (3, 1), (1, 2), (2, 2), (3, 2), (16, 2), (1, 5), (2, 5), (3, 5), (7, 5), (2, 10), (4, 10), (5, 10), (10, 3), (6, 6), (1, 30), (2, 30), (3, 30), (2, 60), (1, 300), (2, 300), (3, 270), (2, 1000)] {
            go("tournament", Tournament(k), k as i64, n);
        }
        for n in [1, 2, 3, 4, 7, 10, 25, 60, 300, 1000] {
            go("rank", Rank, 0, n);
        }
        for (h, n) in [(0, 1), (50, 1), (99, 1), (0, 7), (25, 4), (25, 6), (50, 2), (50, 3), (50, 9), (75, 4), (75, 10), (70, 6), (70, 17), (90, 7), (99, 30), (99, 4), (33, 10), (12, 25), (50, 300), (90, 1000), (0, 400)] {
            go("elitist", Elitist(h as f64 / 100.0), h, n);
        }
        for b in [100, 101, 110, 125, 150, 175, 190, 200] {
            for n in [1, 2, 3, 8, 20] {
                go("linear", Linear(b as f64 / 100.0), b, n);
            }
        }
        for (b, n) in [(150, 300), (200, 300), (120, 700)] {
            go("linear", Linear(b as f64 / 100.0), b, n);
        }
        for n in [2, 9] {
            for b in [1.0 + f64::EPSILON, 1.0 + 1e-14, 1.0 + 1e-11, 1.0 + 1e-9, 1.0 + 1e-7] {
                go("linear", Linear(b), 100, n);
            }
            for b in [2.0 - f64::EPSILON, 2.0 - 1e-11, 2.0 - 1e-8] {
                go("linear", Linear(b), 200, n);
            }
        }
    }
}

/// ---- C18 --------------------------------------------------------------------------------------
pub fn fitness(out: &mut Out, seed: u64, thorough: bool) {
    use SelectionStrategy::*;
    let mut r = rng(seed, 42);
    for m in if thorough { vec![500, 5000, 10_000] } else { vec![5000] } {
        for (w, unit) in [((1..=20).collect::<Vec<i64>>(), 1.0), ((0..20).map(|i| i / 5).collect(), 0.1), (vec![3; 20], 1.0 / 3.0), (vec![0, 0, 0, 0, 1], 1e-300)] {
            bulk(out, "C18", "roulette", RouletteWheel, 0, &w, m, unit, 4_000, r.gen());
        }
        let ln2 = std::f64::consts::LN_2;
        for (w, unit) in [((0..20).map(|i| i / 4).collect::<Vec<i64>>(), 1.0), (vec![7; 20], 1.0 / 3.0), ((0..10).collect(), 1e-3), (vec![0, 0, 0, 3], 2.0)] {
            bulk(out, "C18", "boltzmann", Boltzmann(2.0 * unit / ln2, 0.5), 0, &w, m, unit, 4_000, r.gen());
        }
    }
    let ln2 = std::f64::consts::LN_2;
    for rep in 0..if thorough { 8 } else { 1 } {
        // roulette: integer weights under scales
        let tables: Vec<Vec<i64>> = vec![
            vec![5], vec![1, 1], vec![1, 9], vec![0, 1], vec![0, 0, 7, 0], vec![1, 2, 3, 4, 5], vec![1, 1, 1, 1, 1, 1, 1], vec![10, 0, 100, 1000],
            vec![3, 3, 1], (1..=12).collect(), (0..25).map(|i| i * i % 17).collect(), vec![1, 0, 0, 0, 0, 0, 0, 0, 0, 99],
            (0..300).map(|i| i * 7 % 50).collect(), (0..1000).map(|i| if i % 9 == 0 { 20 } else { 1 }).collect(),
        ];
        for (ti, t) in tables.iter().enumerate() {
            for scale in [1.0, 0.125, 1e-300, 1e290, 1.0 / 3.0] {
                if !thorough && t.len() > 100 && scale != [1.0, 1e-300][ti % 2] {
                    continue;
                }
                let fit: Vec<f64> = t.iter().map(|&x| x as f64 * scale).collect();
                counted(out, "C18", format!("roulette{rep}/{ti}/{scale:e}"), "roulette", RouletteWheel, ti, r.gen_range(1..4), 0, t, &fit, r.gen());
            }
        }
        // Boltzmann: fitness = base + e * unit at a temperature of unit / ln 2 after the preparations
        let exps: Vec<Vec<i64>> = vec![vec![0], vec![0, 0], vec![0, 1], vec![0, 1, 2, 3], vec![2, 2, 0, 1], vec![0, 3, 3, 6], vec![0, 4, 8], (0..9).collect(), vec![1, 0, 1, 0, 1, 2], (0..300).map(|i| i % 7).collect()];
        for (ti, e) in exps.iter().enumerate() {
            for (base, unit) in [(0.0f64, 1.0f64), (-1000.0, 1.0), (100_000.0, 0.5), (0.0, 1e-200), (0.0, 1e150), (1.0e6, 64.0), (-1e9, 1024.0)] {
                for (c, preps) in [(1.0f64, 1), (1.0, 3), (0.5, 1), (0.5, 4), (0.9, 2), (2.0, 3), (0.25, 1)] {
                    if !thorough && (ti + preps + (c * 100.0) as usize + f64::abs(base) as usize % 7) % if e.len() > 100 { 25 } else { 5 } != 0 {
                        continue;
                    }
                    let t0 = unit / ln2 / c.powi(preps as i32);
                    let fit: Vec<f64> = e.iter().map(|&x| base + x as f64 * unit).collect();
                    counted(out, "C18", format!("boltzmann{rep}/{ti}/{base:e}/{unit:e}/{c}^{preps}"), "boltzmann", Boltzmann(t0, c), ti + preps, preps, 0, e, &fit, r.gen());
                }
            }
        }
        // temperatures far below, or far above, every difference
        for (ti, e) in exps.iter().enumerate() {
            for (name, t0, c, preps, base) in [
                ("cold", 1e-3, 1.0, 1, 5.0), ("cold", 1e-300, 1.0, 1, 0.0), ("cold", 1.0, 0.5, 3000, 2.0), ("cold", 0.01, 1.0, 2, 1e7), ("cold", 1e-2, 0.1, 1, -1e6),
                ("cold", 10.0, 1e-200, 2, 1.0), ("hot", 1e300, 1.0, 1, 0.0), ("hot", 1.0, 2.0, 3000, 3.0), ("hot", 1e12, 1.0, 1, 1e6), ("hot", 1e9, 1.0, 2, -1e4),
            ] {
                if !thorough && (ti + preps) % 2 == 1 && name == "hot" {
                    continue;
                }
                let fit: Vec<f64> = e.iter().map(|&x| base + x as f64).collect();
                counted(out, "C18", format!("{name}{rep}/{ti}/{t0:e}*{c}^{preps}"), name, Boltzmann(t0, c), ti, preps, 0, e, &fit, r.gen());
            }
        }
        // in between: never less often for a fitter one
        for x in (-12..14).step_by(2) {
            let e: Vec<i64> = vec![0, 1, 2, 3, 5, 8, 13, 21, 34, 55];
            let fit: Vec<f64> = e.iter().map(|&x| 700.0 + x as f64).collect();
            counted(out, "C18", format!("mono{rep}/1e{x}"), "mono", Boltzmann(10f64.powi(x) * 3.0, 1.0), 0, 1, 0, &e, &fit, r.gen());
        }
    }
    // the temperature is multiplied by the cooling rate once for every preparation
    let mut ev = vec![];
    let p = population(&[1.0, 2.0]);
    for (t0, num, den, steps) in [(8.0, 1, 2, 8), (1000.0, 1, 10, 6), (1.0, 2, 1, 10), (3.0, 1, 1, 5), (512.0, 3, 4, 5), (0.125, 4, 1, 5)] {
        let mut b = BoltzmannSelection::new(t0, num as f64 / den as f64);
        for n in 0..=steps {
            let t = (b.temperature() * 1000.0 + 1e-6) as i64;
            ev.push(format!("{{\"k\":\"temp\",\"t0\":{},\"num\":{num},\"den\":{den},\"n\":{n},\"t\":{t}}}", (t0 * 1000.0) as i64));
            let mut g = SmallRng::seed_from_u64(n as u64);
            // selecting does not change it
            let _ = guard(|| {
                SelectionMechanism::<PInd, SmallRng>::prepare(&mut b, &p);
                SelectionMechanism::<PInd, SmallRng>::select(&b, &p, &mut g);
                SelectionMechanism::<PInd, SmallRng>::select_distinct(&b, &p, &mut g, 3, &p[0]);
            });
        }
    }
    put(out, "temperature".into(), "[]".into(), ev);
}

/// ---- C19 --------------------------------------------------------------------------------------
/// A mechanism that follows a script; only `select` is its own.
struct Scripted {
    script: Vec<usize>,
    used: AtomicUsize,
}
impl<R: Rng> SelectionMechanism<PInd, R> for Scripted {
    fn prepare(&mut self, _: &Population<PInd>) {}
    fn select<'a>(&self, p: &'a Population<PInd>, _: &mut R) -> (usize, &'a PInd) {
        let k = self.used.fetch_add(1, SeqCst);
        // beyond the script: attempts that were not allowed
        let i = self.script.get(k).copied().unwrap_or(0);
        (i, &p[i])
    }
}

pub fn distinct(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 43);
    let mut scripts: Vec<(usize, usize, usize, Vec<usize>)> = vec![];
    for l in lines {
        let v = crate::pop::parse_ints(&format!("[{l}]"));
        let v = &v[0];
        let u = |x: &[i64]| x.iter().map(|&y| y as usize).collect::<Vec<_>>();
        scripts.push((v[0].len(), v[1][0] as usize, v[1][1] as usize, u(&v[2])));
    }
    for _ in 0..if thorough { 6000 } else { 600 } {
        let n = r.gen_range(1..9);
        let max = r.gen_range(0..20);
        let ex = r.gen_range(0..=n);
        // mostly the excluded one
        let s = (0..max).map(|_| if ex > 0 && r.gen_bool(0.8) { ex - 1 } else { r.gen_range(0..n) }).collect();
        scripts.push((n, ex, max, s));
    }
    for (i, (n, ex, max, script)) in scripts.into_iter().enumerate() {
        // with all fitness equal the order is the one given, up to the sort; read it back
        let p = population(&(0..n).map(|k| if i % 2 == 0 { k as f64 } else { 1.0 }).collect::<Vec<_>>());
        let f = |g: usize| p.iter().find(|x| x.g == g as u32).map_or(-7.0, |x| x.f);
        let excluded = PInd { g: ex as u32, f: f(ex), tag: 99 };
        at(format!("select_distinct {script:?} {ex} {max}"));
        let sel = Scripted { script: script.clone(), used: AtomicUsize::new(0) };
        let mut g = SmallRng::seed_from_u64(1);
        let e = match guard(|| sel.select_distinct(&p, &mut g, max, &excluded).map(|(k, x)| (k, x.g))) {
            Err(_) => "{\"k\":\"dpan\"}".to_string(),
            Ok(o) => format!(
                "{{\"k\":\"dis\",\"script\":{},\"ex\":{ex},\"max\":{max},\"used\":{},\"res\":{}}}",
                arr(&script), sel.used.load(SeqCst), o.map_or("[]".into(), |(k, g)| format!("[{k},{g}]"))
            ),
        };
        put(out, format!("script{i}"), mem(&p), vec![e]);
    }
    // the real mechanisms
    use SelectionStrategy::*;
    for (si, s) in [Tournament(1), Tournament(3), RouletteWheel, Rank, Linear(1.5), Elitist(0.5), Boltzmann(2.0, 0.9)].into_iter().enumerate() {
        for n in [1usize, 2, 3, 9] {
            let p = population(&(0..n).map(|k| k as f64 + 1.0).collect::<Vec<_>>());
            let mut ev = vec![];
            at(format!("select_distinct {s:?} {n}"));
            let mut sel = s.create_selector::<PInd, HRng>();
            sel.prepare(&p);
            for j in 0..60usize {
                let max = j % 5;
                let ex = r.gen_range(0..=n);
                let excluded = PInd { g: ex as u32, f: ex as f64, tag: 5 };
                let mut g = HRng::new(r.gen(), j % 2 == 0);
                ev.push(match guard(|| sel.select_distinct(&p, &mut g, max, &excluded).map(|(k, x)| (k, x.g))) {
                    Err(_) => "{\"k\":\"dpan\"}".to_string(),
                    Ok(o) => format!("{{\"k\":\"weak\",\"ex\":{ex},\"max\":{max},\"res\":{}}}", o.map_or("[]".into(), |(k, g)| format!("[{k},{g}]"))),
                });
            }
            put(out, format!("real{si}/{n}"), mem(&p), ev);
        }
    }
    for (n, max) in [(2usize, 1usize), (2, 3), (2, 5), (3, 1), (3, 3), (4, 2), (8, 3)] {
        let p = population(&(0..n).map(|k| k as f64 + 1.0).collect::<Vec<_>>());
        at(format!("select_distinct frequencies {n} {max}"));
        let mut sel = Tournament(1).create_selector::<PInd, SmallRng>();
        sel.prepare(&p);
        let mut g = SmallRng::seed_from_u64(r.gen());
        let ex = p[0].clone();
        let mut c = vec![0usize; n];
        let ok = guard(|| {
            for _ in 0..N {
                match sel.select_distinct(&p, &mut g, max, &ex) {
                    None => c[0] += 1,
                    Some((i, _)) => c[i] += 1,
                }
            }
        });
        let e = if ok.is_err() { "{\"k\":\"dpan\"}".into() } else { format!("{{\"k\":\"dfreq\",\"n\":{n},\"max\":{max},\"N\":{N},\"cnt\":{}}}", arr(&c)) };
        put(out, format!("freq{n}/{max}"), mem(&p), vec![e]);
    }
}
