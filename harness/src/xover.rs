//! Crossover operators and strategies, common neighbors and partitions (C20-C25).
use crate::util::*;
use rand::prelude::*;
use rusty_genes::*;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// A type of genes; `mk(i)` are different genes for different i.
pub trait Gene: Copy + PartialOrd + Eq + Hash + Debug {
    const NAME: &'static str;
    fn mk(i: usize) -> Self;
}
macro_rules! gene {
    ($t:ty, $n:expr, $f:expr) => {
        impl Gene for $t {
            const NAME: &'static str = $n;
            fn mk(i: usize) -> Self {
                ($f)(i)
            }
        }
    };
}
gene!(usize, "usize", |i| i);
gene!(u8, "u8", |i| (250 - i) as u8);
gene!(i64, "i64", |i| if i % 2 == 0 { -(i as i64) } else { i as i64 * 1000 });
gene!(char, "char", |i| char::from_u32(0x3b1 + (i as u32 * 7) % 400).unwrap());
gene!((u8, i8), "pair", |i| ((i % 3) as u8, -((i / 3) as i8)));
gene!(&'static str, "str", |i| ["a", "B", "", "aa", "z", "Z", "b", "ab", "ba", "c", "cc", "d"][i]);
/// All genes of this type have the same hash.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Debug)]
pub struct Clash(i32);
impl Hash for Clash {
    fn hash<H: Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}
gene!(Clash, "clash", |i| Clash(5 - i as i32));
/// Even and odd ones are not ordered with each other.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Loose(usize);
impl PartialOrd for Loose {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        (self.0 % 2 == o.0 % 2).then(|| self.0.cmp(&o.0))
    }
}
gene!(Loose, "loose", |i| Loose(i));
gene!([u64; 4], "wide", |i| [7, u64::MAX - i as u64 / 5, 1 << 40, i as u64 % 5]);

#[derive(Clone, Copy, PartialEq)]
pub struct Want {
    pub ops: &'static [&'static str],
}
impl Want {
    fn has(&self, o: &str) -> bool {
        self.ops.contains(&o)
    }
}

fn back<T: Gene>(g: &T, n: usize) -> i64 {
    (0..n).find(|&i| T::mk(i) == *g).map_or(-1, |i| i as i64 + 1)
}
fn show<T: Gene>(v: &[T], n: usize) -> String {
    arr(v.iter().map(|g| back(g, n)))
}
fn pan(op: &str) -> String {
    format!("{{\"k\":\"pan\",\"op\":\"{op}\"}}")
}

/// Runs one operator with one choice; `a`, `b` are 0-based gene numbers.
fn one<T: Gene>(op: &str, a: &[usize], b: &[usize], par: &[usize], r: &mut SmallRng) -> String {
    let n = a.iter().chain(b).copied().max().map_or(0, |m| m + 1);
    let (x, y): (Vec<T>, Vec<T>) = (a.iter().map(|&i| T::mk(i)).collect(), b.iter().map(|&i| T::mk(i)).collect());
    at(format!("{op} on {} genes {x:?} {y:?} {par:?}", T::NAME));
    let res = |r: Result<Vec<T>, String>, s: usize, e: usize| match r {
        Ok(o) => format!("{{\"k\":\"{op}\",\"s\":{s},\"e\":{e},\"o\":{}}}", show(&o, n)),
        Err(_) => pan(op),
    };
    match op {
        "ox" => res(guard(|| order_crossover(&x, &y, par[0]..par[1])), par[0], par[1]),
        "pmx" => res(guard(|| partially_mapped_crossover(&x, &y, par[0]..par[1])), par[0], par[1]),
        "spx" => res(guard(|| single_point_crossover(&x, &y, par[0])), par[0], 0),
        "cx" => res(guard(|| cycle_crossover(&x, &y)), 0, 0),
        "erx" => res(guard(|| edge_recombination_crossover(&x, &y, T::mk(par[0]))), par[0] + 1, 0),
        "scx" => res(guard(|| sequential_constructive_crossover(&x, &y, T::mk(par[0]))), par[0] + 1, 0),
        "gpx" => {
            let mut calls: Vec<String> = vec![];
            let q = guard(|| {
                generalized_partition_2_crossover(&x, &y, |last, parts| {
                    let c = match par.first().copied().unwrap_or(0) {
                        0 => r.gen_range(0..parts.len()),
                        1 => 0,
                        2 => parts.len() - 1,
                        _ => parts.len() / 2,
                    };
                    let l = last.map_or(0, |g| back(g, n));
                    calls.push(format!("[{l},{},{c}]", arr(parts.iter().map(|p| show(p, n)))));
                    c
                })
            });
            match q {
                Ok(o) => format!("{{\"k\":\"gpx\",\"calls\":{},\"o\":{}}}", arr(calls), show(&o, n)),
                Err(_) => pan(op),
            }
        }
        "cn" => match guard(|| common_neighbors(&x, &y)) {
            Ok(p) => format!("{{\"k\":\"cn\",\"o\":{}}}", arr(p.iter().map(|(u, v)| format!("[{},{}]", back(u, n), back(v, n))))),
            Err(_) => pan(op),
        },
        "cp" => match guard(|| common_partitions(&x, &y)) {
            Ok(p) => format!("{{\"k\":\"cp\",\"o\":{}}}", arr(p.iter().map(|q| show(q, n)))),
            Err(_) => pan(op),
        },
        _ => unreachable!(),
    }
}
fn typed(t: usize, op: &str, a: &[usize], b: &[usize], par: &[usize], r: &mut SmallRng) -> String {
    let big = a.iter().chain(b).copied().max().unwrap_or(0);
    match t % 9 {
        1 if big < 250 => one::<u8>(op, a, b, par, r),
        2 => one::<i64>(op, a, b, par, r),
        3 if big < 400 => one::<char>(op, a, b, par, r),
        4 if big < 300 => one::<(u8, i8)>(op, a, b, par, r),
        5 if big < 12 => one::<&'static str>(op, a, b, par, r),
        6 => one::<Clash>(op, a, b, par, r),
        7 => one::<Loose>(op, a, b, par, r),
        8 => one::<[u64; 4]>(op, a, b, par, r),
        _ => one::<usize>(op, a, b, par, r),
    }
}

fn case(out: &mut Out, id: String, a: &[usize], b: &[usize], ev: Vec<String>) {
    let n = ev.len() as u64;
    let p = |v: &[usize]| arr(v.iter().map(|x| x + 1));
    out.case(format!("{{\"id\":{},\"a\":{},\"b\":{},\"ev\":{}}}", qs(&id), p(a), p(b), arr(ev)), n);
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

/// Runs what the specification generated, ["op",[b],[par]] with the identity as the first parent, under
/// renamings of the genes: all of them for up to four genes, some for more.
pub fn replay(out: &mut Out, lines: &[String], w: Want, seed: u64, thorough: bool) {
    use std::collections::BTreeMap;
    let mut r = rng(seed, 20);
    let mut by: BTreeMap<Vec<usize>, Vec<(String, Vec<usize>)>> = BTreeMap::new();
    for l in lines {
        let op = l.split('"').nth(1).unwrap().to_string();
        let rest = &l[l.find(',').unwrap() + 1..l.len() - 1];
        let both: Vec<Vec<usize>> = rest
            .split(']')
            .take(2)
            .map(|s| s.chars().map(|c| if c.is_ascii_digit() { c } else { ' ' }).collect::<String>().split_whitespace().map(|x| x.parse().unwrap()).collect())
            .collect();
        let b: Vec<usize> = both[0].iter().map(|x| x - 1).collect();
        let mut par = both[1].clone();
        if op == "erx" || op == "scx" {
            par[0] -= 1;
        }
        by.entry(b).or_default().push((op, par));
    }
    let mut t = 0;
    for (b, ops) in by {
        let n = b.len();
        let all = perms(n);
        let sigmas: Vec<Vec<usize>> = if n <= 4 {
            all
        } else {
            let k = if thorough { if n == 5 { 24 } else { 3 } } else { 2 };
            (0..k).map(|_| all.choose(&mut r).unwrap().clone()).collect()
        };
        for s in sigmas {
            let a: Vec<usize> = (0..n).map(|i| s[i]).collect();
            let bb: Vec<usize> = b.iter().map(|&i| s[i]).collect();
            let mut ev = vec![];
            for (op, par) in &ops {
                if !w.has(op) {
                    continue;
                }
                t += 1;
                if op == "gpx" {
                    for p in 0..4 {
                        ev.push(typed(t + p, op, &a, &bb, &[p], &mut r));
                    }
                    if w.has("cn") {
                        ev.push(typed(t, "cn", &a, &bb, &[], &mut r));
                        ev.push(typed(t + 1, "cp", &a, &bb, &[], &mut r));
                    }
                } else {
                    let par: Vec<usize> = if op == "erx" || op == "scx" { vec![s[par[0]]] } else { par.clone() };
                    ev.push(typed(t, op, &a, &bb, &par, &mut r));
                }
            }
            case(out, format!("spec{t}"), &a, &bb, ev);
        }
    }
}

/// A second ordering that is related to the first one in some way.
fn partner(a: &[usize], r: &mut SmallRng) -> Vec<usize> {
    let n = a.len();
    let mut b = a.to_vec();
    match r.gen_range(0..9) {
        0 => {}
        1 => b.reverse(),
        2 => b.rotate_left(r.gen_range(0..n)),
        3 => {
            let (i, j) = (r.gen_range(0..n), r.gen_range(0..n));
            b.swap(i, j)
        }
        4 => {
            let i = r.gen_range(0..n);
            let j = r.gen_range(i..n);
            b[i..=j].reverse()
        }
        5 => {
            // blocks in another order, some reversed
            let mut cuts: Vec<usize> = (0..r.gen_range(1..6)).map(|_| r.gen_range(0..n)).collect();
            cuts.extend([0, n]);
            cuts.sort_unstable();
            let mut blocks: Vec<Vec<usize>> = cuts.windows(2).map(|w| a[w[0]..w[1]].to_vec()).collect();
            blocks.shuffle(r);
            for x in &mut blocks {
                if r.gen() {
                    x.reverse();
                }
            }
            b = blocks.concat();
        }
        6 => {
            b.reverse();
            b.rotate_left(r.gen_range(0..n));
        }
        _ => b.shuffle(r),
    }
    b
}

pub fn record(out: &mut Out, seed: u64, thorough: bool, w: Want) {
    let mut r = rng(seed, 21);
    let mult = if thorough { 12 } else { 1 };
    let sizes: Vec<usize> = [6usize, 7, 8, 9, 11].iter().cycle().take(60 * mult).copied()
        .chain([14, 20, 33].iter().cycle().take(15 * mult).copied())
        .chain([60, 90].iter().cycle().take(4 * mult).copied())
        .chain([260, 300].iter().cycle().take(4 * mult.min(4)).copied())
        .chain([1030, 2100, 1100, 1500].iter().cycle().take(4 * mult.min(4)).copied())
        .collect();
    for (t, n) in sizes.into_iter().enumerate() {
        let mut a: Vec<usize> = (0..n).collect();
        a.shuffle(&mut r);
        let b = if n > 1000 {
            // long common runs, or none
            let mut b = a.clone();
            match t % 4 {
                0 => b.reverse(),
                1 => b.shuffle(&mut r),
                2 => b.rotate_left(n / 3),
                _ => {
                    b[n / 2..].reverse();
                    b.swap(1, n / 4);
                }
            }
            b
        } else {
            partner(&a, &mut r)
        };
        let mut ev = vec![];
        for op in w.ops {
            if n > 200 && (*op == "gpx" || *op == "cp") && common_neighbors(&a, &b).len() + 40 < n {
                continue; // too many partitions
            }
            let k = if n <= 11 { 8 } else if n < 200 { 5 } else if n < 1000 { 3 } else { 2 };
            for j in 0..k {
                // the places around which the neighborhoods wrap, and others
                let p = match j + t % 2 { 0 => b[n - 1], 1 => a[n - 1], 2 => b[0], 3 => a[0], _ => r.gen_range(0..n) };
                let par: Vec<usize> = match *op {
                    "ox" | "pmx" => {
                        let mut q = [r.gen_range(0..=n), r.gen_range(0..=n)];
                        match j {
                            0 if n > 1000 => {}
                            0 => q = [0, n],
                            1 => q = [0, r.gen_range(0..=n)],
                            2 => q = [r.gen_range(0..=n), n],
                            _ => {}
                        }
                        q.sort_unstable();
                        q.to_vec()
                    }
                    "spx" => vec![if j == 0 { n + 3 } else { r.gen_range(0..=n) }],
                    "erx" | "scx" => vec![p],
                    "gpx" => vec![j % 4],
                    "cx" | "cn" | "cp" if j > 0 => continue,
                    _ => vec![],
                };
                ev.push(typed(t + j, op, &a, &b, &par, &mut r));
            }
        }
        case(out, format!("rnd{t}/{n}"), &a, &b, ev);
    }
    if w.has("ox") {
        // ranges at the ends of longer genomes
        for n in [12usize, 13, 16, 17, 24, 32, 33, 64, 65, 100, 129] {
            for t in 0..(6 * mult) {
                let mut a: Vec<usize> = (0..n).collect();
                a.shuffle(&mut r);
                let mut b = a.clone();
                match t % 6 {
                    0 => b.reverse(),
                    1 => b.rotate_left(1),
                    2 => b.rotate_right(1),
                    3 => b.swap(0, n - 1),
                    4 => b.rotate_left(n / 2),
                    _ => b.shuffle(&mut r),
                }
                let m = r.gen_range(2..n - 2);
                let mut ev = vec![];
                for (k, (x, y)) in [(0, n - 1), (1, n), (0, 1), (n - 1, n), (1, n - 1), (0, n), (0, 0), (n, n), (m, m), (m, m + 1), (0, m), (m, n), (1, 2), (n - 2, n - 1), (2, n)].into_iter().enumerate() {
                    if w.has("ox") {
                        ev.push(typed(t + k, "ox", &a, &b, &[x, y], &mut r));
                    }
                    if w.has("pmx") {
                        ev.push(typed(t + k + 1, "pmx", &a, &b, &[x, y], &mut r));
                    }
                }
                case(out, format!("ends{n}/{t}"), &a, &b, ev);
            }
        }
    }
    if w.has("gpx") {
        // parents that have no neighbors in common: as many partitions as genes
        for (t, n) in [5usize, 40, 127, 129, 255, 256, 257, 258, 300, 400, 520, 700].into_iter().enumerate() {
            let mut a: Vec<usize> = (0..n).collect();
            a.shuffle(&mut r);
            let b = loop {
                // every second gene, or a shuffled order that is mended
                let mut b: Vec<usize> = if n < 30 { (0..n).map(|i| a[(2 * i) % n]).collect() } else { a.clone() };
                if n >= 30 {
                    b.shuffle(&mut r);
                    for _ in 0..60 {
                        let cm = common_neighbors(&a, &b);
                        for (x, _) in cm {
                            let i = b.iter().position(|g| *g == x).unwrap();
                            b.swap(i, r.gen_range(0..n));
                        }
                    }
                }
                let near = |v: &[usize]| (0..n).flat_map(|i| [(v[i], v[(i + 1) % n]), (v[(i + 1) % n], v[i])]).collect::<BTreeSet<_>>();
                if near(&a).is_disjoint(&near(&b)) {
                    break b;
                }
            };
            let mut ev = vec![];
            for how in 0..4 {
                at(format!("gpx of {n} without common neighbors {how}"));
                let mut calls: Vec<String> = vec![];
                let q = guard(|| {
                    generalized_partition_2_crossover(&a, &b, |last, parts| {
                        let c = match how { 0 => r.gen_range(0..parts.len()), 1 => 0, 2 => parts.len() - 1, _ => parts.len() / 2 };
                        let single = parts.iter().all(|p| p.len() == 1) as usize;
                        let sum: usize = parts.iter().map(|p| p[0] + 1).sum();
                        calls.push(arr([last.map_or(0, |g| g + 1), parts.len(), single, sum, parts[c][0] + 1]));
                        c
                    })
                });
                ev.push(match q {
                    Ok(o) => format!("{{\"k\":\"apart\",\"calls\":{},\"o\":{}}}", arr(calls), arr(o.iter().map(|g| g + 1))),
                    Err(_) => pan("gpx"),
                });
            }
            case(out, format!("apart{t}/{n}"), &a, &b, ev);
        }
    }
    if w.has("cx") {
        // long cycles, with short ones before, behind and among them; few and many
        for (t, n) in [5500usize, 9000, 12_000, 20_000, 9000, 300].into_iter().enumerate() {
            let mut a: Vec<usize> = (0..n).collect();
            a.shuffle(&mut r);
            let mut b = a.clone();
            match t {
                0 => b[..n - 5].rotate_left(1),
                1 => b[7..].rotate_left(1),
                2 => {
                    for from in [0, 1] {
                        let mut half: Vec<usize> = a.iter().skip(from).step_by(2).copied().collect();
                        half.rotate_left(1);
                        (0..half.len()).for_each(|i| b[2 * i + from] = half[i]);
                    }
                }
                3 => b.shuffle(&mut r),
                _ => (0..n / 3).for_each(|i| b.swap(i, n - 1 - 2 * i)),
            }
            b[n - 4..].rotate_left(1);
            b.swap(2, 4);
            at(format!("cx of {n} genes in long cycles, {t}"));
            let (mut inv, mut cyc, mut rank) = (vec![0; n], vec![0; n], vec![0; n]);
            (0..n).for_each(|k| inv[b[k]] = k);
            let mut count = 0;
            for k in 0..n {
                if cyc[k] == 0 {
                    count += 1;
                    let (mut m, mut steps) = (k, 0);
                    while cyc[m] == 0 {
                        (cyc[m], rank[m]) = (count, steps);
                        steps += 1;
                        m = inv[a[m]];
                    }
                }
            }
            let up = |v: &[usize]| arr(v.iter().map(|x| x + 1));
            let e = match guard(|| cycle_crossover(&a, &b)) {
                Ok(o) => format!("{{\"k\":\"cxl\",\"inv\":{},\"cyc\":{},\"rank\":{},\"o\":{}}}", up(&inv), arr(cyc), arr(rank), up(&o)),
                Err(_) => pan("cx"),
            };
            case(out, format!("cycles{t}/{n}"), &a, &b, vec![e]);
        }
    }
    if w.has("cn") {
        // genomes over different genes and of different lengths
        for t in 0..(150 * mult) {
            let mut all: Vec<usize> = (0..9).collect();
            all.shuffle(&mut r);
            let (n1, n2) = (r.gen_range(0..8), r.gen_range(0..8));
            let a = all[..n1].to_vec();
            if r.gen() {
                all.shuffle(&mut r);
            } else {
                let k = r.gen_range(0..9);
                all.rotate_left(k);
            }
            let b = all[..n2].to_vec();
            let ev = vec![typed(t, "cn", &a, &b, &[], &mut r), typed(t + 3, "cp", &a, &b, &[], &mut r)];
            case(out, format!("diff{t}"), &a, &b, ev);
        }
    }
    if w.has("spx") {
        let mut ev = vec![];
        for n in [2500usize, 5000, 66_000] {
            let x: Vec<bool> = (0..n).map(|_| r.gen()).collect();
            let y: Vec<bool> = (0..n).map(|i| if n == 5000 { !x[i] } else { r.gen() }).collect();
            for p in [1, n / 2 - 3, n - 1001, r.gen_range(0..n)] {
                at(format!("spx of {n} bits at {p}"));
                let sh = |v: &[bool]| arr(v.iter().map(|&z| z as u8));
                ev.push(match guard(|| single_point_crossover(&x, &y, p)) {
                    Ok(o) => format!("{{\"k\":\"bits\",\"a\":{},\"b\":{},\"s\":{p},\"o\":{}}}", sh(&x), sh(&y), sh(&o)),
                    Err(_) => pan("spx"),
                });
            }
        }
        case(out, "bits".into(), &[], &[], ev);
        // any genes will do for single-point crossover: repeated ones, and bits
        for t in 0..(120 * mult) {
            let n = r.gen_range(0..12);
            let a: Vec<usize> = (0..n).map(|_| r.gen_range(0..3)).collect();
            let b: Vec<usize> = (0..n).map(|_| r.gen_range(0..3)).collect();
            let mut ev = vec![];
            for p in 0..=n + 1 {
                ev.push(typed(t + p, "spx", &a, &b, &[p], &mut r));
                let bit = |v: &[usize]| v.iter().map(|x| x % 2 == 1).collect::<Vec<bool>>();
                let (x, y) = (bit(&a), bit(&b));
                let o = guard(|| single_point_crossover(&x, &y, p));
                if let Ok(o) = o {
                    let sh = |v: &[bool]| arr(v.iter().map(|&z| z as u8));
                    ev.push(format!("{{\"k\":\"bits\",\"a\":{},\"b\":{},\"s\":{p},\"o\":{}}}", sh(&x), sh(&y), sh(&o)));
                } else {
                    ev.push(pan("spx"));
                }
            }
            case(out, format!("rep{t}"), &a, &b, ev);
        }
    }
}

/// ---- C25 ------------------------------------------------------------------------------------
pub const STRATS: [(CrossoverStrategy, &str); 7] = [
    (CrossoverStrategy::GeneralizedPartition2, "gpx"),
    (CrossoverStrategy::SequentialConstructive, "scx"),
    (CrossoverStrategy::EdgeRecombination, "erx"),
    (CrossoverStrategy::PartiallyMapped, "pmx"),
    (CrossoverStrategy::Order, "ox"),
    (CrossoverStrategy::Cycle, "cx"),
    (CrossoverStrategy::SinglePoint, "spx"),
];

fn strat<T: Gene>(out: &mut Out, a: &[usize], b: &[usize], calls: usize, seed: u64, id: String) {
    let n = a.len();
    let (x, y): (Vec<T>, Vec<T>) = (a.iter().map(|&i| T::mk(i)).collect(), b.iter().map(|&i| T::mk(i)).collect());
    let mut ev = vec![];
    for (s, name) in STRATS {
        at(format!("strategy {name} {x:?} {y:?}"));
        let mut seen: BTreeSet<Vec<i64>> = BTreeSet::new();
        let mut g = SmallRng::seed_from_u64(seed ^ 0x77);
        let mut died = false;
        for _ in 0..calls {
            match guard(|| s.crossover(&x, &y, &mut g)) {
                Ok(o) => {
                    seen.insert(o.iter().map(|q| back(q, n)).collect());
                }
                Err(_) => {
                    died = true;
                    break;
                }
            }
        }
        if died {
            ev.push(format!("{{\"k\":\"stpan\",\"op\":\"{name}\"}}"));
            continue;
        }
        let parts = if name == "gpx" { guard(|| common_partitions(&x, &y)).unwrap_or_default() } else { vec![] };
        let seen = arr(seen.iter().map(|v| arr(v)));
        ev.push(format!("{{\"k\":\"st\",\"op\":\"{name}\",\"full\":{},\"parts\":{},\"seen\":{seen}}}", (calls > 1000) as u8, arr(parts.iter().map(|p| show(p, n)))));
    }
    case(out, id, a, b, ev);
}

pub fn strategies(out: &mut Out, seed: u64, thorough: bool) {
    let mut r = rng(seed, 22);
    let mult = if thorough { 8 } else { 1 };
    for t in 0..(36 * mult) {
        let n = [1, 2, 3, 4, 5, 3, 4, 5, 4][t % 9];
        let mut a: Vec<usize> = (0..n).collect();
        a.shuffle(&mut r);
        let b = partner(&a, &mut r);
        let id = format!("strategy{t}/{n}");
        match t % 4 {
            0 => strat::<usize>(out, &a, &b, 6000, r.gen(), id),
            1 => strat::<i64>(out, &a, &b, 6000, r.gen(), id),
            2 => strat::<char>(out, &a, &b, 6000, r.gen(), id),
            _ => strat::<Clash>(out, &a, &b, 6000, r.gen(), id),
        }
    }
    // many partitions: no common neighbors at all, and one
    for t in 0..(4 * mult) {
        let n = [5, 5, 6, 6][t % 4];
        let mut a: Vec<usize> = (0..n).collect();
        a.shuffle(&mut r);
        let mut b = a.clone();
        while guard(|| common_partitions(&a, &b)).map_or(true, |p| p.len() < [5, 4, 6, 5][t % 4]) {
            b.shuffle(&mut r);
        }
        strat::<usize>(out, &a, &b, if n == 5 { 12_000 } else { 60_000 }, r.gen(), format!("strategyP{t}/{n}"));
    }
    for t in 0..(30 * mult) {
        let n = r.gen_range(6..14);
        let mut a: Vec<usize> = (0..n).collect();
        a.shuffle(&mut r);
        let b = partner(&a, &mut r);
        strat::<usize>(out, &a, &b, 12, r.gen(), format!("strategyL{t}/{n}"));
    }
    // every place of longer parents is within reach
    for n in [70usize, 300, 600, 1100, 2600, 70_000] {
        let a: Vec<usize> = (0..n).collect();
        let mut b = a.clone();
        b.rotate_left(1);
        let mut ev = vec![];
        for (s, name) in STRATS {
            let most = match name {
                "cx" => 0,
                "spx" => 100_000,
                "scx" => 2600,
                "gpx" => 1100,
                "erx" if thorough => 1100,
                "erx" => 600,
                _ if thorough || n != 300 => 1100,
                _ => 299,
            };
            if n > most || n == 600 && name != "erx" {
                continue;
            }
            // no neighbors in common
            let mut b = b.clone();
            if matches!(name, "ox" | "pmx") {
                b.shuffle(&mut r);
            }
            let (n, a, b) = if name == "gpx" { (n + 1, (0..=n).collect(), (0..=n).map(|i| (i * 7 + 3) % (n + 1)).collect()) } else { (n, a.clone(), b) };
            at(format!("reach of {name} in {n}"));
            let mut g = SmallRng::seed_from_u64(seed ^ n as u64);
            let (mut start, mut end) = ([0; 10], [0; 10]);
            let calls = match name { "gpx" | "erx" => 150,
                "scx" if n > 300 => 200, "ox" | "pmx" => 2000, _ => 300 };
            let res = guard(|| {
                for _ in 0..calls {
                    let o = s.crossover(&a, &b, &mut g);
                    let (x, y) = match name {
                        "spx" => {
                            let p = (0..n).find(|&k| o[k] != a[k]).unwrap_or(n - 1);
                            (p, p)
                        }
                        // the longest run of the first parent
                        "ox" | "pmx" => {
                            let (mut best, mut k) = ((0, 0), 0);
                            while k < n {
                                let s = k;
                                while k < n && o[k] == a[k] {
                                    k += 1;
                                }
                                if k - s > best.1 - best.0 {
                                    best = (s, k);
                                }
                                k += 1;
                            }
                            (best.0, best.1.saturating_sub(1))
                        }
                        _ => (o[0], if name == "gpx" { o[n - 1] } else { o[0] }),
                    };
                    start[x * 10 / n] += 1;
                    end[y * 10 / n] += 1;
                }
            });
            ev.push(match res {
                Ok(_) => format!("{{\"k\":\"reach\",\"op\":\"{name}\",\"n\":{n},\"start\":{},\"end\":{}}}", arr(start), arr(end)),
                Err(_) => format!("{{\"k\":\"stpan\",\"op\":\"{name}\"}}"),
            });
        }
        case(out, format!("reach{n}"), &[], &[], ev);
    }
    // parents of different lengths, and empty ones
    let mut ev = vec![];
    for la in 0..6usize {
        for lb in 0..6usize {
            let x: Vec<usize> = (0..la).collect();
            let y: Vec<usize> = (0..lb).rev().collect();
            at(format!("lengths {la} {lb}"));
            let f = |r: Result<Vec<usize>, String>| match r {
                Ok(v) => v.len() as i64,
                Err(_) => -1,
            };
            for (s, name) in STRATS {
                for sd in 0..8 {
                    let mut g = SmallRng::seed_from_u64(sd);
                    let o = f(guard(|| s.crossover(&x, &y, &mut g)));
                    ev.push(format!("{{\"k\":\"len\",\"op\":\"{name}\",\"via\":1,\"la\":{la},\"lb\":{lb},\"o\":{o}}}"));
                }
            }
            let mut push = |name: &str, o: i64| ev.push(format!("{{\"k\":\"len\",\"op\":\"{name}\",\"via\":0,\"la\":{la},\"lb\":{lb},\"o\":{o}}}"));
            let m = la.min(lb);
            push("gpx", f(guard(|| generalized_partition_2_crossover(&x, &y, |_, _| 0))));
            push("cx", f(guard(|| cycle_crossover(&x, &y))));
            for p in 0..=m {
                push("spx", f(guard(|| single_point_crossover(&x, &y, p))));
                for q in p..=m {
                    push("ox", f(guard(|| order_crossover(&x, &y, p..q))));
                    push("pmx", f(guard(|| partially_mapped_crossover(&x, &y, p..q))));
                }
            }
            for p in 0..m.max(1) {
                push("scx", f(guard(|| sequential_constructive_crossover(&x, &y, p))));
                push("erx", f(guard(|| edge_recombination_crossover(&x, &y, p))));
            }
        }
    }
    case(out, "lengths".into(), &[], &[], ev);
}
