//! Mutations (C26) and the sampling of places and ranges (C27).
use crate::util::*;
use rand::prelude::*;
use rusty_genes::*;
use std::collections::{BTreeMap, BTreeSet};

const OPS: [(MutationStrategy, &str); 5] = [
    (MutationStrategy::Swap, "swap"),
    (MutationStrategy::Scramble, "scramble"),
    (MutationStrategy::Inversion, "inversion"),
    (MutationStrategy::Insertion, "insertion"),
    (MutationStrategy::Duplicate, "duplicate"),
];
fn direct<G: Copy, R: Rng>(s: MutationStrategy, g: &mut [G], r: &mut R) {
    match s {
        MutationStrategy::Swap => swap_mutation(g, r),
        MutationStrategy::Scramble => scramble_mutation(g, r),
        MutationStrategy::Inversion => inversion_mutation(g, r),
        MutationStrategy::Insertion => insertion_mutation(g, r),
        MutationStrategy::Duplicate => duplicate_mutation(g, r),
    }
}
fn run<R: Rng>(k: usize, via: usize, a: &[u32], r: &mut R) -> Result<Vec<u32>, String> {
    let (s, name) = OPS[k];
    at(format!("{name} of {} genes {:?}", a.len(), &a[..a.len().min(300)]));
    match via % 3 {
        0 => guard(|| {
            let mut g = a.to_vec();
            s.mutate(&mut g, r);
            g
        }),
        1 => guard(|| {
            let mut g = a.to_vec();
            direct(s, &mut g, r);
            g
        }),
        _ => guard(|| {
            let mut g: Vec<char> = a.iter().map(|&x| char::from_u32(0x4e00 + x).unwrap()).collect();
            s.mutate(&mut g, r);
            g.into_iter().map(|c| c as u32 - 0x4e00).collect()
        }),
    }
}
fn event<R: Rng>(k: usize, via: usize, a: &[u32], r: &mut R) -> String {
    match run(k, via, a, r) {
        Ok(o) => format!("{{\"k\":\"mut\",\"op\":\"{}\",\"a\":{},\"o\":{}}}", OPS[k].1, arr(a), arr(&o)),
        Err(_) => format!("{{\"k\":\"pan\",\"op\":\"{}\",\"a\":{}}}", OPS[k].1, arr(a)),
    }
}

pub fn mutations(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 30);
    let mult = if thorough { 12 } else { 1 };
    // the genomes of the specification
    for (i, l) in lines.iter().enumerate() {
        let v = crate::pop::parse_ints(&format!("[[{l}]]"));
        let a: Vec<u32> = v[0][0].iter().map(|&x| x as u32).collect();
        let mut ev = vec![];
        for k in 0..5 {
            for j in 0..(4 * mult.min(6)) {
                if j % 4 == 3 {
                    ev.push(event(k, j, &a, &mut HRng::new(r.gen(), true)));
                } else {
                    ev.push(event(k, j, &a, &mut r));
                }
            }
        }
        let n = ev.len() as u64;
        out.case(format!("{{\"id\":\"spec{i}\",\"ev\":{}}}", arr(ev)), n);
    }
    for i in 0..(300 * mult) {
        let n = match i % 10 { 0..=5 => r.gen_range(2..12), 6..=8 => r.gen_range(12..40), _ if i % 50 == 9 => r.gen_range(250..1100), _ => r.gen_range(40..150) };
        let a: Vec<u32> = if i % 3 == 0 {
            let m = r.gen_range(1..4);
            (0..n).map(|_| r.gen_range(0..m)).collect()
        } else {
            let mut a: Vec<u32> = (0..n as u32).collect();
            a.shuffle(&mut r);
            a
        };
        let mut ev = vec![];
        for k in 0..5 {
            for j in 0..4 {
                if j == 3 {
                    ev.push(event(k, j + i, &a, &mut HRng::new(r.gen(), true)));
                } else {
                    ev.push(event(k, j + i, &a, &mut r));
                }
            }
        }
        let n = ev.len() as u64;
        out.case(format!("{{\"id\":\"rnd{i}/{}\",\"ev\":{}}}", a.len(), arr(ev)), n);
    }
}

/// Many thousands of genes.
pub fn long(out: &mut Out, seed: u64, thorough: bool) {
    let mut r = rng(seed, 32);
    for (i, n) in [2500usize, 9001, 2500, 66_003].into_iter().enumerate() {
        let mut a: Vec<u32> = (0..n as u32).collect();
        if i % 2 == 0 {
            a.shuffle(&mut r);
        }
        for k in 0..5 {
            let ev: Vec<String> = (0..if thorough { 6 } else { 2 } * if n < 10_000 { 3 } else { 1 }).map(|j| event(k, if n < 10_000 { j } else { j % 2 }, &a, &mut r)).collect();
            let n = ev.len() as u64;
            out.case(format!("{{\"id\":\"long{i}/{k}/{}\",\"ev\":{}}}", a.len(), arr(ev)), n);
        }
    }
}

/// Requests that cannot be met, among ones that just can.
fn refusals(put: &mut impl FnMut(String, String), r: &mut SmallRng, reps: usize) {
    const TOP: usize = 1_000_000_000;
    let mut ask: Vec<(&str, usize, usize, usize)> = vec![];
    for n in [0, 1, 2, 3, TOP] {
        ask.push(("pair", n, 0, 0));
        ask.push(("range", n, 0, 0));
    }
    for n in [1usize, 2, 3, 4, 5, 8, 9, 40, 300, TOP] {
        for lo in [0, 1, 2, 3, n / 2, n.saturating_sub(1), n] {
            for hi in [0, 1, 2, lo.saturating_sub(2), lo.saturating_sub(1), lo, lo + 1, n / 3, n - 1, n] {
                if lo <= n && hi <= n {
                    ask.push(("bounded", n, lo, hi));
                }
            }
        }
    }
    ask.sort();
    ask.dedup();
    for rep in 0..reps * 4 {
        for &(op, n, lo, hi) in &ask {
            at(format!("refusal {op} {n} {lo} {hi}"));
            let res = guard(|| match op {
                "pair" => drop(random_pair(n, r)),
                "range" => drop(random_range(n, r)),
                _ => drop(bounded_random_range(n, lo, hi, r)),
            });
            put(format!("refuse{rep}/{op}/{n}/{lo}/{hi}"), format!("{{\"k\":\"refuse\",\"op\":{},\"n\":{n},\"lo\":{lo},\"hi\":{hi},\"panic\":{}}}", qs(op), res.is_err() as u8));
        }
    }
}

pub fn sampling(out: &mut Out, seed: u64, thorough: bool) {
    let mut r = rng(seed, 31);
    const N: usize = 200_000;
    let mut put = |id: String, e: String| out.case(format!("{{\"id\":{},\"ev\":[{e}]}}", qs(&id)), 1);
    let reps = if thorough { 8 } else { 1 };
    for rep in 0..reps {
        for n in 2..=9usize {
            at(format!("random_pair {n}"));
            let mut c: BTreeMap<(usize, usize), usize> = BTreeMap::new();
            let res = guard(|| {
                for _ in 0..N {
                    *c.entry(random_pair(n, &mut r)).or_default() += 1;
                }
            });
            put(format!("pair{rep}/{n}"), match res {
                Err(_) => "{\"k\":\"rpan\"}".into(),
                Ok(()) => format!("{{\"k\":\"pair\",\"n\":{n},\"N\":{N},\"cnt\":{}}}", arr(c.iter().map(|((i, j), x)| format!("[{i},{j},{x}]")))),
            });
        }
        let mut bounds: Vec<(usize, usize, usize, bool)> = (1..=8).map(|n| (n, 1, n, true)).collect();
        bounds.extend((2..=8).map(|n| (n, 2, n, false)));
        bounds.extend([(5, 0, 3, false), (6, 3, 3, false), (7, 2, 5, false), (8, 8, 8, false), (4, 0, 0, false), (9, 4, 6, false), (3, 1, 2, false)]);
        for (n, lo, hi, plain) in bounds {
            at(format!("random range {n} {lo} {hi}"));
            let mut c: BTreeMap<(usize, usize), usize> = BTreeMap::new();
            let res = guard(|| {
                for _ in 0..N {
                    let q = if plain { random_range(n, &mut r) } else { bounded_random_range(n, lo, hi, &mut r) };
                    *c.entry((q.start, q.end)).or_default() += 1;
                }
            });
            put(format!("range{rep}/{n}/{lo}/{hi}"), match res {
                Err(_) => "{\"k\":\"rpan\"}".into(),
                Ok(()) => format!("{{\"k\":\"range\",\"n\":{n},\"lo\":{lo},\"hi\":{hi},\"N\":{N},\"cnt\":{}}}", arr(c.iter().map(|((i, j), x)| format!("[{i},{j},{x}]")))),
            });
        }
    }
    // many places: counts of tenths, of halves, and of single places
    let tens = |x: usize, of: usize| (x as u128 * 10 / of as u128) as usize;
    for n in [20usize, 60, 100, 200, 300, 1000, 4100, 10_000, 65_540, 100_000, 1_000_000, 5_000_000_000, 1_000_000_000_000] {
        at(format!("random_pair {n}"));
        let (mut i10, mut j10, mut m, mut half, mut ends) = ([0usize; 10], [0usize; 10], vec![0usize; 100], [0usize; 3], [0usize; 4]);
        let full = n <= 300;
        let (mut hi, mut hj) = (vec![0usize; if full { n } else { 0 }], vec![0usize; if full { n } else { 0 }]);
        let res = guard(|| {
            for _ in 0..N {
                let (i, j) = random_pair(n, &mut r);
                assert!(i != j && i < n && j < n);
                i10[tens(i, n)] += 1;
                j10[tens(j, n)] += 1;
                m[tens(i, n) * 10 + tens(j, n)] += 1;
                half[0] += (i % 2 == 0) as usize;
                half[1] += (j % 2 == 0) as usize;
                half[2] += (i < j) as usize;
                ends[0] += (i == 0) as usize;
                ends[1] += (i + 1 == n) as usize;
                ends[2] += (j == 0) as usize;
                ends[3] += (j + 1 == n) as usize;
                if full {
                    hi[i] += 1;
                    hj[j] += 1;
                }
            }
        });
        put(format!("pairs/{n}"), match res {
            Err(_) => "{\"k\":\"rpan\"}".into(),
            Ok(()) => format!("{{\"k\":\"many\",\"n\":{},\"N\":{N},\"tens\":{},\"both\":{},\"half\":{},\"ends\":{},\"each\":{}}}",
                n.min(1_000_000_000), arr([arr(i10), arr(j10)]), arr(m), arr(half), arr(ends), arr(hi.iter().chain(&hj))),
        });
    }
    // (places, shortest, longest): twenty lengths or a multiple of it; or only one
    let mut bounds: Vec<(usize, usize, usize, bool)> = [20, 60, 100, 200, 300, 500, 1000, 4100, 10_000, 65_540, 100_000].iter().map(|&n| (n, 1, n, true)).collect();
    bounds.extend([(41, 2, 41, false), (301, 2, 301, false), (1001, 2, 1001, false), (70_001, 2, 70_001, false), (1000, 101, 300, false), (1000, 601, 1000, false), (5000, 1, 20, false), (5000, 4981, 5000, false),
        (300, 300, 300, false), (309, 300, 300, false), (1009, 10, 10, false), (1009, 700, 700, false), (1_000_000, 1, 100, false), (1_000_000_000_000, 1, 200_000_000_000, false), (1_000_000_000_000, 1, 1_000_000_000_000, true),
        (1_000_000_000_000, 600_000_000_001, 900_000_000_000, false), (70_000_000_000, 1, 70_000_000_000, true)]);
    for (n, lo, hi, plain) in bounds {
        at(format!("random range {n} {lo} {hi}"));
        let one = lo == hi;
        let (mut len, mut start, mut half, mut ends) = ([0usize; 10], [0usize; 20], [0usize; 2], [0usize; 2]);
        let (mut total, mut kept, mut keptall) = (0, 0, 0);
        let room1 = one && n - lo + 1 < 10;
        let res = guard(|| {
            while total < N || (kept < N && !room1) {
                let q = if plain { random_range(n, &mut r) } else { bounded_random_range(n, lo, hi, &mut r) };
                assert!(q.start < q.end && q.end <= n);
                let l = q.end - q.start;
                assert!(l >= lo && l <= hi);
                if total < N {
                    total += 1;
                    len[tens(l - lo, hi - lo + 1)] += 1;
                    half[0] += (l % 2 == 0) as usize;
                    ends[0] += (l == lo) as usize;
                    ends[1] += (l == hi) as usize;
                }
                let room = n - l + 1;
                keptall += 1;
                assert!(keptall < 50 * N);
                if room % 10 == 0 && kept < N {
                    kept += 1;
                    let longer = if one { 0 } else { ((l - lo) * 2 / (hi - lo + 1)) * 10 };
                    start[longer + tens(q.start, room)] += 1;
                    half[1] += (q.start % 2 == 0) as usize;
                }
            }
        });
        put(format!("ranges/{n}/{lo}/{hi}"), match res {
            Err(_) => "{\"k\":\"rpan\"}".into(),
            Ok(()) => format!("{{\"k\":\"wide\",\"n\":{},\"lens\":{},\"one\":{},\"room\":{},\"N\":{N},\"len\":{},\"start\":{},\"half\":{},\"ends\":{}}}",
                n.min(1_000_000_000), (hi - lo + 1).min(1_000_000_000), one as u8, (n - lo + 1).min(1_000_000_000), arr(len), arr(start), arr(half), arr(ends)),
        });
    }
    usage(&mut put, &mut r, N);
    refusals(&mut put, &mut r, reps);
    // extreme random numbers: legal results only
    let mut cnt = vec![];
    for i in 0..4000u64 {
        let mut h = HRng::new(seed ^ i, true);
        let n = 2 + (i % 40) as usize;
        at(format!("spiky {n}"));
        let ok = guard(|| {
            let (p, q) = random_pair(n, &mut h);
            let x = random_range(n, &mut h);
            let (lo, hi) = (1 + n / 3, 1 + n / 2);
            let y = bounded_random_range(n, lo, hi, &mut h);
            p != q && p < n && q < n && x.start < x.end && x.end <= n && y.end <= n && (lo..=hi).contains(&(y.end - y.start))
        });
        cnt.push(matches!(ok, Ok(true)));
    }
    if cnt.iter().any(|x| !x) {
        put("spiky".into(), "{\"k\":\"rpan\"}".into());
    }
    // what the mutations reach
    for (k, (_, name)) in OPS.iter().enumerate() {
        for n in 2..=7usize {
            for via in 0..2 {
                let a: Vec<u32> = (1..=n as u32).collect();
                let mut seen: BTreeSet<Vec<u32>> = BTreeSet::new();
                let m = if *name == "scramble" && n > 4 { 150 } else { 3000 };
                let mut bad = false;
                for _ in 0..m {
                    match run(k, via, &a, &mut r) {
                        Ok(o) => drop(seen.insert(o)),
                        Err(_) => bad = true,
                    }
                }
                if bad {
                    put(format!("reach/{name}/{n}/{via}"), "{\"k\":\"rpan\"}".into());
                } else {
                    put(format!("reach/{name}/{n}/{via}"), format!("{{\"k\":\"reach\",\"op\":\"{name}\",\"a\":{},\"seen\":{}}}", arr(&a), arr(seen.iter().map(arr))));
                }
            }
        }
        for n in [12usize, 40, 100, 300, 1100] {
            let a: Vec<u32> = (1..=n as u32).collect();
            let (mut places, mut spans) = (BTreeSet::new(), [0; 10]);
            for j in 0..(if n > 1000 { 34_000 } else { 20_000 }) {
                if let Ok(o) = run(k, j, &a, &mut r) {
                    let d: Vec<usize> = (0..n).filter(|&i| o[i] != a[i]).collect();
                    if d.len() > 1 {
                        spans[tens(d[d.len() - 1] - d[0], n)] += 1;
                    }
                    places.extend(d.iter().map(|i| i + 1));
                }
            }
            put(format!("touch/{name}/{n}"), format!("{{\"k\":\"touch\",\"op\":\"{name}\",\"n\":{n},\"places\":{},\"spans\":{}}}", arr(&places), arr(spans)));
        }
    }
}

/// Which places and ranges the mutations take, told from what they change.
fn usage(put: &mut impl FnMut(String, String), r: &mut SmallRng, big: usize) {
    let tens = |x: usize, of: usize| x * 10 / of;
    let spoiled = || "{\"k\":\"rpan\"}".to_string();
    // the two places of a swap (in any order), and the source and the target of a duplicate
    for (k, name) in [(0usize, "swap"), (4, "duplicate")] {
        for n in [20usize, 40, 60, 80, 100, 140, 200, 260, 300, 600] {
            at(format!("places of {name} {n}"));
            let a: Vec<u32> = (1..=n as u32).collect();
            let (mut i10, mut j10, mut m, mut half, mut ends) = ([0usize; 10], [0usize; 10], vec![0usize; 100], [0usize; 3], [0usize; 4]);
            let (mut hi, mut hj) = (vec![0usize; n], vec![0usize; n]);
            let res = guard(|| {
                let mut o = a.clone();
                for t in 0..big {
                    o.copy_from_slice(&a);
                    if t % 2 == 0 { OPS[k].0.mutate(&mut o, r) } else { direct(OPS[k].0, &mut o, r) }
                    let d: Vec<usize> = (0..n).filter(|&i| o[i] != a[i]).collect();
                    let (i, j) = if k == 0 {
                        assert!(d.len() == 2);
                        if r.gen() { (d[0], d[1]) } else { (d[1], d[0]) }
                    } else {
                        assert!(d.len() == 1);
                        (o[d[0]] as usize - 1, d[0])
                    };
                    i10[tens(i, n)] += 1;
                    j10[tens(j, n)] += 1;
                    m[tens(i, n) * 10 + tens(j, n)] += 1;
                    half[0] += (i % 2 == 0) as usize;
                    half[1] += (j % 2 == 0) as usize;
                    half[2] += (i < j) as usize;
                    ends[0] += (i == 0) as usize;
                    ends[1] += (i + 1 == n) as usize;
                    ends[2] += (j == 0) as usize;
                    ends[3] += (j + 1 == n) as usize;
                    hi[i] += 1;
                    hj[j] += 1;
                }
            });
            put(format!("places/{name}/{n}"), match res {
                Err(_) => spoiled(),
                Ok(()) => format!("{{\"k\":\"many\",\"n\":{n},\"N\":{big},\"tens\":{},\"both\":{},\"half\":{},\"ends\":{},\"each\":{}}}",
                    arr([arr(i10), arr(j10)]), arr(m), arr(half), arr(ends), arr(hi.iter().chain(&hj))),
            });
        }
    }
    // the range of an inversion; a number of lengths that is a multiple of twenty
    for n in [21usize, 41, 61, 81, 141, 301] {
        at(format!("ranges of inversion {n}"));
        let a: Vec<u32> = (1..=n as u32).collect();
        let (mut len, mut start, mut half, mut ends) = ([0usize; 10], [0usize; 20], [0usize; 2], [0usize; 2]);
        let (mut total, mut kept) = (0, 0);
        let res = guard(|| {
            let mut o = a.clone();
            let mut all = 0;
            while kept < big {
                all += 1;
                assert!(all < 50 * big);
                o.copy_from_slice(&a);
                if all % 2 == 0 { OPS[2].0.mutate(&mut o, r) } else { direct(OPS[2].0, &mut o, r) }
                let s = (0..n).find(|&i| o[i] != a[i]).unwrap();
                let l = o[s] as usize - s;
                if total < big {
                    total += 1;
                    len[tens(l - 2, n - 1)] += 1;
                    half[0] += (l % 2 == 0) as usize;
                    ends[0] += (l == 2) as usize;
                    ends[1] += (l == n) as usize;
                }
                let room = n - l + 1;
                if room % 10 == 0 {
                    kept += 1;
                    start[((l - 2) * 2 / (n - 1)) * 10 + tens(s, room)] += 1;
                    half[1] += (s % 2 == 0) as usize;
                }
            }
        });
        put(format!("places/inversion/{n}"), match res {
            Err(_) => spoiled(),
            Ok(()) => format!("{{\"k\":\"wide\",\"n\":{n},\"lens\":{},\"one\":0,\"room\":{},\"N\":{big},\"len\":{},\"start\":{},\"half\":{},\"ends\":{}}}",
                n - 1, n - 1, arr(len), arr(start), arr(half), arr(ends)),
        });
    }
    // the results of scrambling few genes, and how many of many genes it moves
    for n in 2..=5usize {
        at(format!("results of scramble {n}"));
        let a: Vec<u32> = (1..=n as u32).collect();
        let mut c: BTreeMap<Vec<u32>, usize> = BTreeMap::new();
        let res = guard(|| {
            for t in 0..big {
                let mut o = a.clone();
                if t % 2 == 0 { OPS[1].0.mutate(&mut o, r) } else { direct(OPS[1].0, &mut o, r) }
                *c.entry(o).or_default() += 1;
            }
        });
        put(format!("scrambled/{n}"), match res {
            Err(_) => spoiled(),
            Ok(()) => format!("{{\"k\":\"orders\",\"n\":{n},\"N\":{big},\"cnt\":{}}}", arr(c.iter().map(|(o, x)| format!("[{},{x}]", arr(o))))),
        });
    }
    for n in [6usize, 10, 20, 33, 50, 100, 129, 260, 700, 1500] {
        at(format!("moves of scramble {n}"));
        let times = big / 10;
        let a: Vec<u32> = (1..=n as u32).collect();
        let (mut moved, mut up, mut lower, mut upper) = (0usize, 0usize, 0usize, 0usize);
        let res = guard(|| {
            let mut o = a.clone();
            for t in 0..times {
                o.copy_from_slice(&a);
                if t % 2 == 0 { OPS[1].0.mutate(&mut o, r) } else { direct(OPS[1].0, &mut o, r) }
                for i in 0..n {
                    if o[i] != a[i] {
                        moved += 1;
                        up += (o[i] > a[i]) as usize;
                        lower += (i < n / 2) as usize;
                        upper += (i >= n - n / 2) as usize;
                    }
                }
            }
        });
        // in thousandths of the number of genes, on average; and the parts of them
        let per = |x: usize| x * 1000 / times / n;
        put(format!("moved/{n}"), match res {
            Err(_) => spoiled(),
            Ok(()) => format!("{{\"k\":\"moved\",\"n\":{n},\"moved\":{},\"up\":{},\"lower\":{},\"upper\":{}}}", per(moved), per(up), per(lower), per(upper)),
        });
    }
}
