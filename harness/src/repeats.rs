//! Operators are functions of their arguments and the generator they are given (C35), for RepeatTrace.
use crate::pop::PInd;
use crate::util::*;
use rand::prelude::*;
use rusty_genes::*;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

struct Bred;
impl EvolutionModel for Bred {
    type Individual = PInd;
    type Rng = SmallRng;
    fn rng() -> SmallRng {
        SmallRng::from_entropy()
    }
    fn crossover(&self, a: &PInd, b: &PInd, r: &mut SmallRng) -> PInd {
        PInd { g: if r.gen() { a.g } else { b.g } ^ r.gen_range(0..4), f: 0.0, tag: 0 }
    }
    fn mutate(&self, i: &mut PInd, r: &mut SmallRng) {
        i.g = i.g.wrapping_add(r.gen_range(0..9));
    }
    fn evaluate(&self, i: &mut PInd) {
        i.f = f64::from(i.g % 1000);
    }
}
type Sel = Box<dyn SelectionMechanism<PInd, SmallRng>>;
/// What the calls are given besides a generator; nothing of it changes.
struct Given {
    a: Vec<u32>,
    b: Vec<u32>,
    bits: [Vec<bool>; 2],
    pop: Population<PInd>,
    sels: Vec<Sel>,
    breeding: Vec<ReproductionParameters<Bred>>,
}
fn strategies() -> [SelectionStrategy; 6] {
    use SelectionStrategy::*;
    [Tournament(3), RouletteWheel, Rank, Linear(1.6), Elitist(0.4), Boltzmann(50.0, 0.9)]
}
const X: [CrossoverStrategy; 7] = [
    CrossoverStrategy::GeneralizedPartition2,
    CrossoverStrategy::SequentialConstructive,
    CrossoverStrategy::EdgeRecombination,
    CrossoverStrategy::PartiallyMapped,
    CrossoverStrategy::Order,
    CrossoverStrategy::Cycle,
    CrossoverStrategy::SinglePoint,
];
const MU: [MutationStrategy; 5] = [
    MutationStrategy::Swap,
    MutationStrategy::Scramble,
    MutationStrategy::Inversion,
    MutationStrategy::Insertion,
    MutationStrategy::Duplicate,
];
fn given(n: usize, r: &mut SmallRng) -> Given {
    let a: Vec<u32> = (0..n as u32).collect();
    let mut b = a.clone();
    match r.gen_range(0..3) {
        0 => b.shuffle(r),
        1 => b.rotate_left(n / 3),
        _ => (0..3).for_each(|_| b.swap(r.gen_range(0..n), r.gen_range(0..n))),
    }
    let bits = [0, 1].map(|_| (0..n).map(|_| r.gen()).collect());
    // whole numbers, so sums do not depend on the order
    let pop = Population::new((0..n.min(5000) as u32).map(|g| PInd { g, f: f64::from(r.gen_range(1..=20)), tag: 0 }).collect());
    let prepared = |s: SelectionStrategy| {
        let mut x: Sel = s.create_selector();
        x.prepare(&pop);
        x
    };
    let sels = strategies().map(prepared).into();
    let breeding = strategies()
        .map(|s| ReproductionParameters { crossover_rate: 0.6, mutation_rate: 0.5, parent_selector: prepared(s) })
        .into();
    Given { a, b, bits, pop, sels, breeding }
}
const CALLS: usize = 3 + 5 + 5 + 7 + 1 + 6 + 6 + 3 + 6 + 6;
fn call(k: usize, x: &Given, r: &mut SmallRng) -> String {
    let n = x.a.len();
    let mut k = k;
    let mut of = |count: usize| {
        if k < count {
            Some(k)
        } else {
            k -= count;
            None
        }
    };
    if let Some(k) = of(3) {
        return match k {
            0 => format!("{:?}", random_pair(n, r)),
            1 => format!("{:?}", random_range(n, r)),
            _ => format!("{:?}", bounded_random_range(n, 1, n.div_ceil(2), r)),
        };
    }
    if let Some(k) = of(5) {
        let mut g = x.a.clone();
        [swap_mutation, scramble_mutation, inversion_mutation, insertion_mutation, duplicate_mutation][k](&mut g[..], r);
        return format!("{g:?}");
    }
    if let Some(k) = of(5) {
        let mut g = x.bits[0].clone();
        MU[k].mutate(&mut g, r);
        return format!("{g:?}");
    }
    if let Some(k) = of(7) {
        let g = X[k].crossover(&x.a, &x.b, r);
        // it may decide ties as it likes, except for the gene it starts with
        return if X[k] == CrossoverStrategy::EdgeRecombination { format!("{}", g[0]) } else { format!("{g:?}") };
    }
    if of(1).is_some() {
        return format!("{:?}", generalized_partition_2_crossover(&x.a, &x.b, |_, p| r.gen_range(0..p.len())));
    }
    if let Some(k) = of(6) {
        let (i, who) = x.sels[k].select(&x.pop, r);
        return format!("{i} {}", who.g);
    }
    if let Some(k) = of(6) {
        let not = &x.pop[x.pop.len() - 1];
        return format!("{:?}", x.sels[k].select_distinct(&x.pop, r, 2, not).map(|(i, who)| (i, who.g)));
    }
    if let Some(k) = of(3) {
        let [p, q] = x.bits.clone().map(one_max::OneMax::from);
        let m = one_max::OneMaxEvolutionModel;
        return match k {
            0 => format!("{:?}", one_max::OneMax::new_random(&n, r)),
            1 => format!("{:?}", m.crossover(&p, &q, r)),
            _ => {
                let mut p = p;
                m.mutate(&mut p, r);
                format!("{p:?}")
            }
        };
    }
    if let Some(k) = of(6) {
        let i = Bred.breed(&x.pop, &x.breeding[k], r);
        return format!("{} {}", i.g, i.f);
    }
    // no randomness at all
    match of(6) {
        Some(0) => format!("{:?}", common_neighbors(&x.a, &x.b)),
        Some(1) => format!("{:?}", common_partitions(&x.a, &x.b)),
        Some(2) => format!("{:?}", order_crossover(&x.a, &x.b, n / 4..n / 2)),
        Some(3) => format!("{:?}", partially_mapped_crossover(&x.a, &x.b, n / 4..n / 2)),
        Some(4) => format!("{:?}", cycle_crossover(&x.a, &x.b)),
        _ => format!("{:?}", sequential_constructive_crossover(&x.a, &x.b, x.b[n / 2])),
    }
}
/// A generator's state is known by the next numbers it would yield.
fn state(r: &SmallRng) -> String {
    let mut r = r.clone();
    format!("state {:x} {:x} {:x}", r.next_u64(), r.next_u64(), r.next_u64())
}
/// In pools of 1, 2, 3 and more threads, or in none.
fn within<T: Send>(w: usize, f: impl FnOnce() -> T + Send) -> T {
    use std::sync::OnceLock;
    static POOLS: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    let pools = POOLS.get_or_init(|| (1..6).map(|n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect());
    match w {
        3 => f(),
        w => pools[w % 5].install(f),
    }
}
#[derive(Default)]
struct Names(HashMap<String, usize>);
impl Names {
    fn of(&mut self, s: String) -> usize {
        let n = self.0.len();
        *self.0.entry(s).or_insert(n)
    }
}
struct Seen {
    who: usize,
    call: usize,
    from: String,
    res: Option<String>,
    to: String,
}
fn make(who: usize, k: usize, x: &Given, r: &mut SmallRng) -> Seen {
    let from = state(r);
    let res = guard(|| call(k, x, r)).ok();
    Seen { who, call: k, from, res, to: state(r) }
}
fn log(names: &mut Names, s: Seen) -> String {
    let panic = s.res.is_none() as u8;
    let (g, res, to) = (names.of(s.from), names.of(s.res.unwrap_or_default()), names.of(s.to));
    format!("{{\"k\":\"call\",\"w\":{},\"c\":{},\"g\":{g},\"r\":{res},\"to\":{to},\"panic\":{panic}}}", s.who, s.call)
}
fn put(out: &mut Out, id: String, ev: Vec<String>) {
    let n = ev.len() as u64;
    out.case(format!("{{\"id\":{},\"ev\":{}}}", qs(&id), arr(ev)), n);
}
fn seeds(names: &mut Names, rngs: &[SmallRng]) -> Vec<String> {
    rngs.iter().enumerate().map(|(w, r)| format!("{{\"k\":\"seed\",\"w\":{},\"g\":{}}}", w + 1, names.of(state(r)))).collect()
}

pub fn repeats(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 135);
    // orders of MCRepeats: who makes which of two calls
    let rounds = if thorough { 12 } else { 2 };
    for (j, l) in lines.iter().enumerate() {
        let v: Vec<Vec<i64>> = parse_nested(l).iter().map(J::nums).collect();
        for round in 0..rounds {
            let k = [(j * rounds + round) % CALLS, (j * rounds + round) * 7 / CALLS % CALLS];
            at(format!("repeats {l} {k:?}"));
            let n = *[2, 3, 4, 6, 10, 33].choose(&mut r).unwrap();
            let x = given(n, &mut r);
            let mut rngs = vec![SmallRng::seed_from_u64(r.gen()); 2];
            let mut names = Names::default();
            let mut ev = seeds(&mut names, &rngs);
            for c in &v {
                let s = make(c[0] as usize, k[c[1] as usize - 1], &x, &mut rngs[c[0] as usize - 1]);
                ev.push(log(&mut names, s));
            }
            put(out, format!("replay {l} {k:?} n={n}"), ev);
        }
    }
    // the same calls by several clients: in turn, one after the other, or at the same time
    for case in 0..if thorough { 1500 } else { 200 } {
        let n = *[2, 5, 9, 20, 70, 150, 400, 1100].choose(&mut r).unwrap();
        at(format!("repeats/{case} n={n}"));
        let x = given(n, &mut r);
        let clients = r.gen_range(2..=4);
        let len = if n > 300 { 8 } else { 25 };
        let script: Vec<usize> = (0..len).map(|i| if n <= 300 && i < 4 { (case * 4 + i) % CALLS } else { r.gen_range(0..CALLS) }).collect();
        let s = r.gen();
        let mut rngs: Vec<SmallRng> = (0..clients).map(|_| SmallRng::seed_from_u64(s)).collect();
        let mut names = Names::default();
        let mut ev = seeds(&mut names, &rngs);
        let seen: Vec<Seen> = match case % 4 {
            0 => {
                let mut v = Vec::new();
                for &k in &script {
                    for w in 0..clients {
                        v.push(make(w + 1, k, &x, &mut rngs[w]));
                    }
                }
                v
            }
            1 => (0..clients).flat_map(|w| script.iter().map(|&k| make(w + 1, k, &x, &mut rngs[w])).collect::<Vec<_>>()).collect(),
            2 => rngs.iter_mut().enumerate().flat_map(|(w, r)| within(w, || script.iter().map(|&k| make(w + 1, k, &x, r)).collect::<Vec<_>>())).collect(),
            _ => std::thread::scope(|t| {
                let (x, script) = (&x, &script);
                let hs: Vec<_> = rngs
                    .iter_mut()
                    .enumerate()
                    .map(|(w, r)| t.spawn(move || script.iter().map(|&k| make(w + 1, k, x, r)).collect::<Vec<_>>()))
                    .collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            }),
        };
        for s in seen {
            ev.push(log(&mut names, s));
        }
        put(out, format!("repeats/{case} n={n} clients={clients}"), ev);
    }
    // what is cheap, of large things
    for n in [1500usize, 4500, 9000, 70_000] {
        let x = given(n, &mut r);
        let script: Vec<usize> = (0..CALLS).filter(|&k| k < 13 || k == 19 || (21..36).contains(&k)).collect();
        for round in 0..if thorough { 5 } else { 1 } {
            at(format!("repeats/large n={n} {round}"));
            let s = r.gen();
            let mut rngs: Vec<SmallRng> = (0..3).map(|_| SmallRng::seed_from_u64(s)).collect();
            let mut names = Names::default();
            let mut ev = seeds(&mut names, &rngs);
            for (w, own) in rngs.iter_mut().enumerate() {
                for s in within(w, || script.iter().map(|&k| make(w + 1, k, &x, own)).collect::<Vec<_>>()) {
                    ev.push(log(&mut names, s));
                }
            }
            put(out, format!("repeats/large n={n} {round}"), ev);
        }
    }
    // long series of one call, seen as one call: alone, then with others in between
    for k in 0..CALLS {
        for (n, per) in [(5, 1), (16, 1), (24, 1), (64, 2), (200, 8)] {
            let cost = per * if k < 3 { 1 } else if k < 13 { 4 } else { 40 };
            let len = if thorough { 60_000 } else { 12_000 } / cost + 2;
            at(format!("repeats/series call={k} n={n}"));
            let (x, other) = (given(n, &mut r), given(n, &mut r));
            let s = r.gen();
            let mut rngs: Vec<SmallRng> = (0..3).map(|_| SmallRng::seed_from_u64(s)).collect();
            let mut names = Names::default();
            let mut ev = seeds(&mut names, &rngs);
            let mut noise = SmallRng::seed_from_u64(r.gen());
            for (w, own) in rngs.iter_mut().enumerate() {
                let from = state(own);
                let res = guard(|| within(w, || {
                    let mut all = std::collections::hash_map::DefaultHasher::new();
                    for j in 0..len {
                        call(k, &x, own).hash(&mut all);
                        match w {
                            1 => drop(call(k, &x, &mut noise)),
                            2 if j % 4 == 0 => drop(call(noise.gen_range(0..CALLS), &other, &mut noise)),
                            2 => drop(call(k, &other, &mut noise)),
                            _ => {}
                        }
                    }
                    format!("{:x}", all.finish())
                }));
                ev.push(log(&mut names, Seen { who: w + 1, call: CALLS + k, from, res: res.ok(), to: state(own) }));
            }
            put(out, format!("repeats/series call={k} n={n} len={len}"), ev);
        }
    }
}
