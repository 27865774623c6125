//! The default methods of a model, called directly: breeding (C05, C09, C10) and the generation of
//! initial individuals (C12), for ModelTrace.
use crate::evo::*;
use crate::util::*;
use rand::prelude::*;
use rusty_genes::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

fn env_json(w: &World, own: bool, ovr: bool) -> String {
    let bad = (0..w.fit.len()).filter(|&g| if own { w.bad[g] } else { [NAN, INF, -INF].contains(&w.fit[g]) });
    format!("{{\"fit\":{},\"bad\":{},\"ovr\":{}}}", arr(&w.fit), arr(bad), ovr as u8)
}
fn put(out: &mut Out, id: String, ev: &mut Vec<String>) {
    let n = ev.len() as u64;
    out.case(format!("{{\"id\":{},\"ev\":{}}}", qs(&id), arr(ev.drain(..))), n);
}

trait Breeds {
    fn breed(&self, genes: &[u32], cr: i64, mr: i64, sel: Option<SelectionStrategy>, times: usize, seed: u64, ev: &mut Vec<String>, env: &str);
}
struct Model<M>(M);
impl<I: TInd, M: EvolutionModel<Individual = I, Rng = HRng>> Breeds for Model<M> {
    fn breed(&self, genes: &[u32], cr: i64, mr: i64, sel: Option<SelectionStrategy>, times: usize, seed: u64, ev: &mut Vec<String>, env: &str) {
        let w = world();
        let pop = Population::new(genes.iter().map(|&g| I::raw(g, w.fitness(g, w.fit[g as usize]))).collect());
        let mut inner = sel.map(|s| s.create_selector());
        if let Some(s) = inner.as_mut() {
            s.prepare(&pop)
        }
        let params = ReproductionParameters::<M> { crossover_rate: cr as f64 / 1000.0, mutation_rate: mr as f64 / 1000.0, parent_selector: Box::new(RecSel { id: 1, inner }) };
        let mut rng = HRng::new(seed, seed % 3 == 0);
        let m = mem(&w, &pop);
        drain();
        for _ in 0..times {
            let res = guard(|| self.0.breed(&pop, &params, &mut rng));
            let b = breeds(drain());
            let res = match res {
                Ok(i) => ind(&w, &i),
                Err(_) => "[-9,-9]".into(),
            };
            ev.push(format!("{{\"k\":\"breed\",\"env\":{env},\"mem\":{m},\"cr\":{cr},\"mr\":{mr},\"sel\":1,\"rs\":{},\"res\":{res}}}", arr(b)));
        }
        if mem(&w, &pop) != m {
            ev.push("{\"k\":\"altered\"}".into());
        }
    }
}
fn model(kind: usize) -> Box<dyn Breeds> {
    match kind {
        0 => Box::new(Model(TM::<IndD, false>::default())),
        1 => Box::new(Model(TM::<IndV, false>::default())),
        2 => Box::new(Model(TM::<IndD, true>::default())),
        _ => Box::new(Model(TM::<IndV, true>::default())),
    }
}

pub fn breed(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 80);
    let mut ev = vec![];
    // the behaviours of MCBreed
    let step = if thorough { 1 } else { 1 + lines.len() / 12000 };
    let off = seed as usize % step;
    for (k, l) in lines.iter().enumerate().filter(|(k, _)| k % step == off) {
        let v = parse_nested(l);
        let (fit, bad, c, members) = (v[0].nums(), v[1].nums(), v[2].nums(), v[3].nums());
        let (ovr, own) = (c[0] == 1, c[1] == 1);
        let s = v[4].list();
        let script = Script { sel: s[0].nums().iter().map(|&x| x as usize).collect(), x: s[1].num() as u32, m: s[2].num() as u32, i: s[3].num() as u32, k: s[4].num() as u8 };
        let w = World {
            fit: (0..fit.len()).map(|g| if !own && bad.contains(&(g as i64)) { [NAN, INF, -INF][(k + g) % 3] } else { fit[g] }).collect(),
            bad: (0..fit.len()).map(|g| own && bad.contains(&(g as i64))).collect(),
            imp: (0..fit.len() as u32).collect(),
            vals: Vals::Affine(0.0, 1.0),
            unev: [UNEV, NAN, INF, UNEV][k % 4], shake: false, boom: Default::default(),
            hook: vec![],
            scripted: true,
            scripts: Mutex::new([script].into()),
        };
        at(format!("breed {l}"));
        let env = env_json(&w, own, ovr);
        set_world(Arc::new(w));
        model(own as usize + 2 * ovr as usize).breed(&members.iter().map(|&g| g as u32).collect::<Vec<_>>(), c[2], c[3], None, 1, k as u64, &mut ev, &env);
        if ev.len() >= 25 {
            put(out, format!("replay/{k}"), &mut ev);
        }
    }
    if !ev.is_empty() {
        put(out, "replay/last".into(), &mut ev);
    }
    // breedings of its own: larger populations, real selections and rates in between
    for case in 0..(if thorough { 3000 } else { 400 }) {
        let kind = case % 4;
        let (own, ovr) = (kind % 2 == 1, kind >= 2);
        let invalid = *[0.0, 0.2, 0.5].choose(&mut r).unwrap();
        let mut w = gen_world(&mut r, own, invalid);
        w.shake = false;
        let valid: Vec<u32> = (0..w.fit.len() as u32).filter(|&g| if own { !w.bad[g as usize] } else { ![NAN, INF, -INF].contains(&w.fit[g as usize]) }).collect();
        if valid.is_empty() {
            continue;
        }
        let n = r.gen_range(1..=valid.len());
        let genes: Vec<u32> = valid.choose_multiple(&mut r, n).copied().collect();
        // an individual's own validity may have nothing to do with its fitness
        if own && r.gen() {
            for x in (0..w.fit.len()).filter(|&x| !genes.contains(&(x as u32))).collect::<Vec<_>>() {
                if r.gen_bool(0.4) {
                    w.fit[x] = *[NAN, NAN, INF, -INF].choose(&mut r).unwrap();
                }
            }
        }
        let rate = |r: &mut SmallRng| *[0, 1, 250, 500, 999, 1000, 1000].choose(r).unwrap();
        let (cr, mr) = (rate(&mut r), rate(&mut r));
        let strat = gen_strat(&mut r);
        at(format!("breed/{case}: {strat:?} {cr} {mr} on {genes:?} in {:?}", w.fit));
        let env = env_json(&w, own, ovr);
        set_world(Arc::new(w));
        model(kind).breed(&genes, cr, mr, Some(strat), 20, r.gen(), &mut ev, &env);
        put(out, format!("breed/{case}"), &mut ev);
    }
    // how often crossover and mutation happen
    for (cr, mr) in [(300, 500), (500, 100), (900, 700), (100, 900), (800, 100), (500, 500), (100, 100), (1000, 300), (600, 0), (2, 500), (998, 500), (500, 2), (500, 998), (5, 1000), (1000, 4)] {
        at(format!("frequencies of crossover and mutation at {cr} and {mr}"));
        ev.push(frequencies(cr, mr, r.gen()));
    }
    put(out, "frequencies".into(), &mut ev);
}

/// A model that only counts.
struct Counts;
static CELLS: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];
#[derive(Clone, PartialEq)]
struct CInd(u32, u8);
impl Individual for CInd {
    fn fitness(&self) -> f64 {
        self.0 as f64
    }
}
impl EvolutionModel for Counts {
    type Individual = CInd;
    type Rng = HRng;
    fn rng() -> HRng {
        HRng::new(1, false)
    }
    fn crossover(&self, a: &CInd, _: &CInd, _: &mut HRng) -> CInd {
        CInd(100 + a.0, 1)
    }
    fn mutate(&self, i: &mut CInd, _: &mut HRng) {
        i.1 |= 2
    }
    fn evaluate(&self, i: &mut CInd) {
        let upper = i.0 % 100 >= 32;
        CELLS[upper as usize * 4 + (i.1 as usize & 3)].fetch_add(1, SeqCst);
    }
}
fn frequencies(cr: i64, mr: i64, seed: u64) -> String {
    const N: usize = 160_000;
    let pop = Population::new((0..64).map(|g| CInd(g, 0)).collect());
    let params = ReproductionParameters::<Counts> { crossover_rate: cr as f64 / 1000.0, mutation_rate: mr as f64 / 1000.0, parent_selector: SelectionStrategy::Tournament(1).create_selector() };
    CELLS.iter().for_each(|c| c.store(0, SeqCst));
    let mut rng = HRng::new(seed, false);
    for _ in 0..N {
        Counts.breed(&pop, &params, &mut rng);
    }
    // none, crossover, mutation, both, with a first parent in the lower half; in the upper half
    format!("{{\"k\":\"freq\",\"N\":{N},\"cr\":{cr},\"mr\":{mr},\"cells\":{}}}", arr(CELLS.iter().map(|c| c.load(SeqCst))))
}

/// ---- C12 --------------------------------------------------------------------------------------
pub fn extend(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 81);
    let pools = pools();
    let mut ev = vec![];
    let mut w = gen_world(&mut r, false, 0.2);
    w.fit = (0..17).map(|k| k % 5).collect();
    w.bad = vec![false; 17];
    w.imp = (0..17).collect();
    // the same, with other values of individuals that were not evaluated
    let ws: Vec<Arc<World>> = [UNEV, NAN, INF, -INF]
        .into_iter()
        .map(|unev| Arc::new(World { fit: w.fit.clone(), bad: w.bad.clone(), imp: w.imp.clone(), vals: Vals::Affine(-2.0, 0.5), unev, ..gen_world(&mut r, false, 0.2) }))
        .collect();
    let mut turn = 0;
    let mut go = |before: Vec<u32>, n: usize, what: Option<u32>, arg: u32, threads: usize, fresh: bool| {
        turn += 1;
        let w = ws[turn % 4].clone();
        set_world(w.clone());
        // individuals that were there before are evaluated; the model individual may be
        let old = |g: u32| IndD::raw(g, w.value(w.fit[g as usize]));
        let mut v: Vec<IndD> = before.iter().map(|&g| old(g)).collect();
        let b = mem(&w, &v);
        drain();
        at(format!("extend {b} by {n} {what:?} {arg}"));
        let m = TM::<IndD, false>::default();
        let modl = what.map(|g| if fresh { IndD::raw(g, w.fresh()) } else { old(g) });
        let res = guard(|| {
            pools[threads].install(|| match modl.clone() {
                None => m.extend_population(&mut v, n, &arg),
                Some(i) => m.extend_population_with(&mut v, n, i),
            })
        });
        let (made, args) = made();
        let stray = drain().len();
        format!(
            "{{\"k\":\"ext\",\"kind\":{},\"n\":{n},\"arg\":{arg},\"model\":{},\"before\":{b},\"after\":{},\"made\":{},\"args\":{},\"ok\":{},\"stray\":{stray}}}",
            qs(if what.is_some() { "with" } else { "rand" }),
            modl.map_or("[-1,-1]".into(), |i| ind(&w, &i)),
            mem(&w, &v),
            arr(made),
            arr(args),
            res.is_ok() as u8
        )
    };
    // the behaviours of MCExtend: [before, n, kind]
    for (k, l) in lines.iter().enumerate() {
        let v = parse_nested(l);
        let before: Vec<u32> = v[0].nums().iter().map(|&x| x as u32).collect();
        let what = (v[2].num() >= 0).then(|| v[2].num() as u32);
        ev.push(go(before, v[1].num() as usize, what, 1 + k as u32 % 17, k % 4, k % 3 == 0));
        if ev.len() == 10 {
            put(out, format!("replay/{k}"), &mut ev);
        }
    }
    for k in 0..(if thorough { 3000 } else { 300 }) {
        let before: Vec<u32> = (0..r.gen_range(0..6)).map(|_| r.gen_range(0..17)).collect();
        let n = *[0, 1, 2, 3, 4, 7, 16, 33, 100, 257].choose(&mut r).unwrap();
        let what = r.gen::<bool>().then(|| r.gen_range(0..17));
        ev.push(go(before, n, what, r.gen_range(1..=17), r.gen_range(0..4), r.gen()));
        if k % 10 == 9 {
            put(out, format!("extend/{k}"), &mut ev);
        }
    }
    if !ev.is_empty() {
        put(out, "extend/last".into(), &mut ev);
    }
    let mut sizes: Vec<usize> = (0..130).collect();
    sizes.extend([200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2049, 4095, 4096, 4097, 10_000, 16_385, 65_535, 65_536, 65_537, 100_000, 131_071, 131_072, 131_073, 150_000, 262_145, 600_000, 1_048_577]);
    for (k, &n) in sizes.iter().enumerate() {
        for (j, had) in [0usize, 1, 37, 5000].into_iter().enumerate() {
            for with in [false, true] {
                if n < 130 && (j + k + with as usize) % 3 != 0 {
                    continue;
                }
                at(format!("extend {had} by {n} {with}"));
                ev.push(pools[(j + k) % 4].install(|| tally(n, had, with, k as u32)));
            }
        }
        if k % 10 == 9 {
            put(out, format!("extend/many{k}"), &mut ev);
        }
    }
    put(out, "extend/many".into(), &mut ev);
}

/// Individuals that know what was done to them.
#[derive(Clone, PartialEq)]
struct Tallied {
    g: u32,
    born: u32,
    mutated: u32,
    evaluated: u32,
}
static BORN: AtomicU64 = AtomicU64::new(0);
static MUTATED: AtomicU64 = AtomicU64::new(0);
impl Individual for Tallied {
    fn fitness(&self) -> f64 {
        1.0
    }
}
impl RandomIndividual<u32> for Tallied {
    fn new_random<R: Rng>(n: &u32, _: &mut R) -> Self {
        BORN.fetch_add(1, SeqCst);
        Tallied { g: 5, born: 1 + n, mutated: 0, evaluated: 0 }
    }
}
struct Tallies;
impl EvolutionModel for Tallies {
    type Individual = Tallied;
    type Rng = HRng;
    fn rng() -> HRng {
        HRng::new(1, false)
    }
    fn crossover(&self, i: &Tallied, _: &Tallied, _: &mut HRng) -> Tallied {
        Tallied { g: 7, ..i.clone() }
    }
    fn mutate(&self, i: &mut Tallied, _: &mut HRng) {
        MUTATED.fetch_add(1, SeqCst);
        i.mutated += 1
    }
    fn improve(&self, i: &mut Tallied) {
        i.evaluated += 100
    }
    fn evaluate(&self, i: &mut Tallied) {
        i.evaluated += 1
    }
}
fn tally(n: usize, had: usize, with: bool, arg: u32) -> String {
    let mut v: Vec<Tallied> = (0..had as u32).map(|k| Tallied { g: 1000 + k, born: 0, mutated: 3, evaluated: 2 }).collect();
    let first = v.clone();
    let model = Tallied { g: 9, born: 4, mutated: 0, evaluated: 1 };
    BORN.store(0, SeqCst);
    MUTATED.store(0, SeqCst);
    let ok = guard(|| if with { Tallies.extend_population_with(&mut v, n, model.clone()) } else { Tallies.extend_population(&mut v, n, &arg) }).is_ok();
    let kept = v.iter().zip(&first).filter(|(a, b)| a == b).count();
    let new = &v[had.min(v.len())..];
    let lead = new.first().map_or(0, |i| (*i == model) as u8);
    let want = if with { Tallied { mutated: 1, ..model } } else { Tallied { g: 5, born: 1 + arg, mutated: 0, evaluated: 0 } };
    let right = new.iter().filter(|i| **i == want).count();
    format!(
        "{{\"k\":\"many\",\"with\":{},\"n\":{n},\"had\":{had},\"ok\":{},\"len\":{},\"kept\":{kept},\"lead\":{lead},\"right\":{right},\"born\":{},\"mutated\":{}}}",
        with as u8, ok as u8, v.len(), BORN.load(SeqCst), MUTATED.load(SeqCst)
    )
}
