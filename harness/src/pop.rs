//! Histories of populations (C01, C02, C03) and of statistics (C28) and ordered wrappers (C29).
use crate::util::*;
use rand::prelude::*;
use rusty_genes::*;

#[derive(Debug, Clone)]
pub struct PInd {
    pub g: u32,
    pub f: f64,
    pub tag: u32,
}
impl PartialEq for PInd {
    fn eq(&self, o: &Self) -> bool {
        self.g == o.g && self.f == o.f
    }
}
impl Individual for PInd {
    fn fitness(&self) -> f64 {
        self.f
    }
}
fn idx(p: &Palette, f: f64) -> i64 {
    p.v.iter().position(|x| *x == f).map_or(-1, |i| i as i64)
}
fn show(p: &Palette, v: &[PInd]) -> String {
    arr(v.iter().map(|i| format!("[{},{}]", i.g, idx(p, i.f))))
}
/// The same number: zero is the negative one every other time.
pub fn signed(f: f64, k: usize) -> f64 {
    if f == 0.0 && k % 2 == 1 { -f } else { f }
}
/// Can the moments of n samples be told exactly?
fn exact(p: &Palette, n: usize) -> bool {
    let x = (n * n) as f64 * (p.v.len() * p.v.len()) as f64;
    p.scale != 0.0 && x < if p.base.abs() > 1e7 { 2e5 } else { 2e8 }
}
/// Mean and variance as the integers sum and n*sum(x^2)-sum(x)^2 of the palette indices.
pub fn moments(p: &Palette, n: usize, avg: f64, var: f64) -> (i64, i64, i64) {
    moments_as(p, n, avg, var, exact(p, n))
}
fn moments_as(p: &Palette, n: usize, avg: f64, var: f64, exact: bool) -> (i64, i64, i64) {
    if !exact {
        return (0, 0, 0);
    }
    let nn = n as f64;
    let a = (avg - p.base) / p.scale * nn;
    // (a single sample has no spread: nothing but zero will do)
    let v = var / p.scale / p.scale * nn * (nn - 1.0).max(1.0);
    let r = |x: f64| if x.is_finite() && x.abs() < 2.1e9 { x.round() as i64 } else { -999_999_999 };
    (1, r(a), r(v))
}
fn stat(p: &Palette, s: &PopulatedStats) -> String {
    stat_as(p, s, exact(p, s.count()))
}
fn stat_as(p: &Palette, s: &PopulatedStats, exact: bool) -> String {
    let (num, a, v) = moments_as(p, s.count(), s.avg(), s.var(), exact);
    arr([s.count() as i64, idx(p, s.min()), s.arg_min() as i64, idx(p, s.max()), s.arg_max() as i64, num, a, v])
}
fn snap(p: &Palette, q: &Population<PInd>) -> String {
    let fit = guard(|| q.fittest().clone());
    format!(
        "\"out\":{},\"gen\":{},\"stag\":{},\"st\":{},\"fit\":{}",
        show(p, q),
        q.generation(),
        q.stagnation(),
        stat(p, q.stats()),
        match fit {
            Ok(i) => format!("[{},{}]", i.g, idx(p, i.f)),
            Err(_) => "[-1,-1]".into(),
        }
    )
}

/// One history: the collections given to the population, as (gene, fitness index) pairs.
fn history(p: &Palette, bags: &[Vec<(u32, usize)>], end: u8, id: &str) -> (String, u64) {
    let mut ev: Vec<String> = vec![];
    at(format!("population history {id} {bags:?}"));
    let mk = |b: &[(u32, usize)]| b.iter().enumerate().map(|(t, &(g, f))| PInd { g, f: signed(p.v[f], t), tag: t as u32 }).collect::<Vec<_>>();
    let ins = |b: &[(u32, usize)]| arr(b.iter().map(|&(g, f)| format!("[{g},{f}]")));
    let mut q: Option<Population<PInd>> = None;
    for (k, b) in bags.iter().enumerate() {
        match q.as_mut() {
            None => {
                let v = mk(b);
                let r = if end % 2 == 0 { guard(|| Population::new(v)).ok() } else { guard(|| Population::try_from(v).ok()).ok().flatten() };
                match r {
                    Some(x) => {
                        ev.push(format!("{{\"k\":\"new\",\"in\":{},{}}}", ins(b), snap(p, &x)));
                        q = Some(x);
                    }
                    None => {
                        ev.push(format!("{{\"k\":\"panic\",\"op\":\"new\",\"in\":{}}}", ins(b)));
                        break;
                    }
                }
            }
            Some(x) => {
                let mut v = mk(b);
                if guard(|| x.replace(&mut v)).is_err() {
                    ev.push(format!("{{\"k\":\"panic\",\"op\":\"replace\",\"in\":{}}}", ins(b)));
                    q = None;
                    break;
                }
                ev.push(format!("{{\"k\":\"rep\",\"in\":{},\"left\":{},{}}}", ins(b), show(p, &v), snap(p, x)));
            }
        }
        let _ = k;
    }
    if let Some(x) = q {
        if end / 2 == 0 {
            match guard(|| x.take_fittest()) {
                Ok(i) => ev.push(format!("{{\"k\":\"take\",\"fit\":[{},{}]}}", i.g, idx(p, i.f))),
                Err(_) => ev.push("{\"k\":\"panic\",\"op\":\"take\",\"in\":[]}".into()),
            }
        } else {
            let v: Vec<PInd> = x.into();
            ev.push(format!("{{\"k\":\"vec\",\"out\":{}}}", show(p, &v)));
        }
    }
    let n = ev.len() as u64;
    (format!("{{\"id\":{},\"ev\":{}}}", qs(id), arr(ev)), n)
}

pub fn record(out: &mut Out, seed: u64, thorough: bool) {
    let mut r = rng(seed, 1);
    // refusals of empty collections
    let e: Vec<PInd> = vec![];
    let res_new = if guard(|| Population::new(e.clone())).is_err() { "refused" } else { "built" };
    let res_try = match guard(|| Population::try_from(e.clone())) {
        Ok(Err(v)) if v.is_empty() => "refused",
        Ok(Err(_)) => "altered",
        Ok(Ok(_)) => "built",
        Err(_) => "panicked",
    };
    let res_rep = {
        let mut q = Population::new(vec![PInd { g: 0, f: 1.0, tag: 0 }]);
        let mut v: Vec<PInd> = vec![];
        if guard(|| q.replace(&mut v)).is_err() { "refused" } else { "built" }
    };
    out.case(format!("{{\"id\":\"empty\",\"ev\":[{{\"k\":\"empty\",\"res\":{}}}]}}", strs([res_new, res_try, res_rep])), 1);

    let mult = if thorough { 12 } else { 1 };
    let mut go = |out: &mut Out, r: &mut SmallRng, maxlen: usize, genes: u32, fits: usize, steps: usize, kind: usize, id: String| {
        let p = palette(kind, fits);
        // each gene has one fitness: equal individuals have equal fitness
        let fit: Vec<usize> = (0..genes).map(|_| r.gen_range(0..fits)).collect();
        let mut drift = 0i64;
        let bags: Vec<Vec<(u32, usize)>> = (0..steps)
            .map(|_| {
                drift = r.gen_range(-1..=1);
                let n = 1 + r.gen_range(0..maxlen);
                let mut b: Vec<(u32, usize)> = (0..n)
                    .map(|_| {
                        let g = r.gen_range(0..genes);
                        (g, fit[g as usize])
                    })
                    .collect();
                // make the best of the collection rise or fall
                if drift != 0 && fits > 2 {
                    let lim = fits / 2;
                    let c: Vec<_> = b.iter().copied().filter(|x| if drift > 0 { x.1 >= lim } else { x.1 <= lim }).collect();
                    if !c.is_empty() {
                        b = c;
                    }
                }
                match r.gen_range(0..6) {
                    0 => b.sort_by_key(|x| x.1),
                    1 => b.sort_by_key(|x| std::cmp::Reverse(x.1)),
                    _ => {}
                }
                b
            })
            .collect();
        let (l, n) = history(&p, &bags, r.gen_range(0..4), &id);
        out.case(l, n);
    };
    for i in 0..(2200 * mult) {
        let k = i % (NPAL + 1);
        let (ml, g, f, st) = (r.gen_range(1..9), r.gen_range(1..9), r.gen_range(1..6), r.gen_range(1..7));
        go(out, &mut r, ml, g, f, st, k, format!("small{i}/pal{k}"));
    }
    for i in 0..(150 * mult) {
        let k = i % (NPAL + 1);
        let (ml, g, f, st) = (r.gen_range(10..90), r.gen_range(3..100), r.gen_range(1..40), r.gen_range(1..5));
        go(out, &mut r, ml, g, f, st, k, format!("medium{i}/pal{k}"));
    }
    for i in 0..(4 * mult) {
        let k = i % (NPAL + 1);
        let (g, f) = (r.gen_range(2..30), r.gen_range(2..12));
        go(out, &mut r, 5, g, f, 130, k, format!("long{i}/pal{k}"));
    }
    for i in 0..(5 * mult.min(4)) {
        let k = [0, 6, 4, 12, 7][i % 5];
        let (n, g, f) = if i % 2 == 0 { (4200, 3500, 50) } else { (2600, 60, 7) };
        go(out, &mut r, n, g, f, 2, k, format!("large{i}/pal{k}"));
    }
    counted(out, seed, thorough);
}

/// Populations too large, and histories too long, to be recorded: what they show is counted.
fn counted(out: &mut Out, seed: u64, thorough: bool) {
    let mut r = rng(seed, 3);
    let mut ev = vec![];
    let mut sizes = vec![1000usize, 4097, 5000, 8193, 20_000, 66_000, 140_000];
    if thorough {
        sizes.extend([1_000_000, 65_536, 65_537, 32_768, 16_385, 300_001]);
    }
    for (k, &n) in sizes.iter().enumerate() {
        for op in ["new", "try", "rep"] {
            // genes 0..m, gene g having the value (g mod 7) - 3 and a bit more that orders the genes
            let m = n - n / [5, 3, 9][k % 3];
            let val = |g: u32| (g % 7) as i64 - 3;
            let fine = |g: u32| val(g) as f64 + g as f64 * 1e-10;
            let mut v: Vec<PInd> = (0..n as u32).map(|g| g % m as u32).map(|g| PInd { g, f: fine(g), tag: 0 }).collect();
            match k % 4 {
                0 => v.shuffle(&mut r),
                1 => v.reverse(),
                2 => v.sort_by_key(|i| i.g / 3),
                _ => v.shuffle(&mut r),
            }
            let former = n / 3 + 1;
            at(format!("population of {n} by {op}"));
            let mut left = 0;
            let res = guard(|| match op {
                "new" => Population::new(v),
                "try" => Population::try_from(v).ok().unwrap(),
                _ => {
                    let mut p = Population::new((0..former as u32).map(|g| PInd { g: 9_000_000 + g, f: g as f64, tag: 0 }).collect());
                    p.replace(&mut v);
                    left = v.iter().filter(|i| i.g >= 9_000_000).count();
                    p
                }
            });
            let Ok(p) = res else {
                ev.push(format!("{{\"k\":\"crowd\",\"op\":{},\"n\":{n},\"panic\":1}}", qs(op)));
                continue;
            };
            let mut have = vec![0u32; m];
            let strange = p.iter().filter(|i| i.g as usize >= m || i.f != fine(i.g)).count();
            for i in p.iter().filter(|i| (i.g as usize) < m) {
                have[i.g as usize] += 1;
            }
            let once = have.iter().filter(|&&x| x == 1).count();
            let asc = p.windows(2).filter(|w| w[0].f <= w[1].f).count();
            let mut hist = [0usize; 7];
            for i in p.iter() {
                hist[(val(i.g) + 3) as usize] += 1;
            }
            let st = p.stats();
            let at_pos = |i: usize, f: f64| p.get(i).map_or(0, |x| (x.f == f) as u8);
            let (lo, hi) = (p.iter().map(|i| i.f).fold(f64::MAX, f64::min), p.iter().map(|i| i.f).fold(f64::MIN, f64::max));
            let milli = |x: f64, by: f64| if x.is_finite() && (x * by).abs() < 2e9 { (x * by).round() as i64 } else { -999_999_999 };
            let fit = guard(|| p.fittest().f).unwrap_or(f64::NAN);
            let flags = [st.min() == lo, st.max() == hi, at_pos(st.arg_min(), lo) == 1, at_pos(st.arg_max(), hi) == 1, fit == hi, (st.std() * st.std() - st.var()).abs() < 1e-9];
            let (gen, stag, count, avg, var, len) = (p.generation(), p.stagnation(), st.count(), milli(st.avg(), 1000.0), milli(st.var(), 100.0), p.len());
            let taken = guard(|| p.take_fittest().f).unwrap_or(f64::NAN);
            ev.push(format!(
                "{{\"k\":\"crowd\",\"op\":{},\"n\":{n},\"panic\":0,\"m\":{m},\"len\":{len},\"once\":{once},\"strange\":{strange},\"asc\":{asc},\"former\":{},\"left\":{left},\"count\":{count},\"avg\":{avg},\"var\":{var},\"hist\":{},\"flags\":{},\"taken\":{},\"gen\":{gen},\"stag\":{stag}}}",
                qs(op), if op == "rep" { former } else { 0 }, arr(hist), arr(flags.iter().map(|&b| b as u8)), (taken == hi) as u8
            ));
        }
    }
    out.case(format!("{{\"id\":\"crowds\",\"ev\":{}}}", arr(&ev)), ev.len() as u64);
    // ages: replacements without end, the best rising at some of them only
    let mut ev = vec![];
    let mut plans: Vec<(usize, usize, f64)> = vec![(3000, 7, 1.0), (2600, 1100, 1e-15), (70_000, 66_000, -2.0), (70_000, 1, 1.0), (300, 2, 1e-300), (1200, 257, 1e10)];
    if thorough {
        plans.extend([(1_000_000, 700_000, 0.0), (200_000, 131_073, 5.0), (100_000, 300, 1e-12)]);
    }
    for (n, every, scale) in plans {
        at(format!("{n} replacements, one rise in {every}"));
        let mut best: f64 = if scale == 0.0 { 0.0 } else { scale.abs() };
        let res = guard(|| {
            let mut p = Population::new(vec![PInd { g: 0, f: best, tag: 0 }]);
            let (mut plus, mut rises, mut zeroed, mut others, mut ups, mut run, mut longest, mut top) = (0, 0, 0, 0, 0, 0usize, 0usize, 0usize);
            let mut prev = best;
            for k in 1..=n {
                let (g0, s0) = (p.generation(), p.stagnation());
                // a new best, a fall (the next one is then a rise), or the best so far
                let f = if k % every == 0 && (every > 1 || k % 3 != 0) {
                    best = f64::from_bits(best.to_bits() + 1);
                    best
                } else if k % 5 == 0 && k < n / 20 {
                    best / 2.0
                } else {
                    best
                };
                let up = f > prev;
                prev = f;
                let mut v = vec![PInd { g: k as u32, f, tag: 0 }, PInd { g: k as u32 / 2, f: f / 4.0, tag: 0 }];
                v.truncate(1 + k % 2);
                p.replace(&mut v);
                plus += (p.generation() == g0 + 1) as usize;
                if up {
                    rises += 1;
                    zeroed += (p.stagnation() == 0) as usize;
                    run = 0;
                } else {
                    others += 1;
                    ups += (p.stagnation() == s0 + 1) as usize;
                    run += 1;
                    longest = longest.max(run);
                }
                top = top.max(p.stagnation());
            }
            format!("{{\"k\":\"ages\",\"n\":{n},\"panic\":0,\"plus\":{plus},\"gen\":{},\"rises\":{rises},\"zeroed\":{zeroed},\"others\":{others},\"ups\":{ups},\"longest\":{longest},\"top\":{top}}}", p.generation())
        });
        ev.push(res.unwrap_or(format!("{{\"k\":\"ages\",\"n\":{n},\"panic\":1}}")));
    }
    out.case(format!("{{\"id\":\"ages\",\"ev\":{}}}", arr(&ev)), ev.len() as u64);
}

/// Executes the histories the specification generated: a line is a list of collections.
pub fn replay(out: &mut Out, lines: &[String]) {
    let p = palette(0, 8);
    for (i, l) in lines.iter().enumerate() {
        let v = parse_ints(l);
        let bags: Vec<Vec<(u32, usize)>> = v.iter().map(|b| b.iter().map(|x| (x[0] as u32, x[1] as usize)).collect()).collect();
        let (s, n) = history(&p, &bags, (i % 4) as u8, &format!("spec{i}"));
        out.case(s, n);
    }
}
/// Parses [[[a,b],..],..]: three levels of nesting.
pub fn parse_ints(s: &str) -> Vec<Vec<Vec<i64>>> {
    let (mut a, mut depth, mut num) = (vec![], 0, String::new());
    for c in s.chars() {
        match c {
            '[' => {
                depth += 1;
                if depth == 2 {
                    a.push(vec![]);
                } else if depth == 3 {
                    a.last_mut().unwrap().push(vec![]);
                }
            }
            ']' | ',' => {
                if !num.is_empty() {
                    let x: i64 = num.parse().unwrap();
                    a.last_mut().unwrap().last_mut().unwrap().push(x);
                    num.clear();
                }
                if c == ']' {
                    depth -= 1;
                }
            }
            '-' | '0'..='9' => num.push(c),
            _ => {}
        }
    }
    a
}

/// ---- C28 statistics -----------------------------------------------------------------------------
/// Ops: r = record a sample, s = take a snapshot (kept and read again at the end), c = restart from a
/// collected prefix.
pub fn stats_record(out: &mut Out, seed: u64, thorough: bool) {
    let mut r = rng(seed, 2);
    let mult = if thorough { 10 } else { 1 };
    let mut case = |out: &mut Out, r: &mut SmallRng, steps: usize, fits: usize, kind: usize, id: String| {
        at(&id);
        let p = palette(kind, fits);
        let opt = |o: Option<PopulatedStats>| o.map_or("[]".to_string(), |s| stat(&p, &s));
        let plain = |s: &Stats| -> String {
            // the optional accessors must agree with the snapshot; all absent when empty
            let all = (s.min(), s.arg_min(), s.max(), s.arg_max(), s.avg(), s.var(), s.std());
            match all {
                (None, None, None, None, None, None, None) if s.count() == 0 => "[]".into(),
                (Some(mn), Some(am), Some(mx), Some(ax), Some(av), Some(va), Some(sd)) => {
                    let (num, a, v) = moments(&p, s.count(), av, va);
                    let stdok = (sd * sd - va).abs() <= 1e-9 * va.abs() || !va.is_finite();
                    arr([s.count() as i64, idx(&p, mn), am as i64, idx(&p, mx), ax as i64, num, a, if stdok { v } else { -999_999_998 }])
                }
                _ => "[-1]".into(),
            }
        };
        let mut ev = vec![];
        let mut s = Stats::default();
        let mut all: Vec<f64> = vec![];
        let mut snaps: Vec<PopulatedStats> = vec![];
        for _ in 0..steps {
            match r.gen_range(0..8) {
                0 => {
                    let o = s.snapshot();
                    ev.push(format!("{{\"k\":\"snap\",\"st\":{}}}", opt(o)));
                    if let Some(x) = o {
                        snaps.push(x);
                    }
                }
                1 => {
                    // everything so far supplied at once instead
                    s = all.iter().copied().collect();
                    ev.push(format!("{{\"k\":\"collect\",\"st\":{}}}", plain(&s)));
                }
                2 if !snaps.is_empty() => {
                    let i = r.gen_range(0..snaps.len());
                    ev.push(format!("{{\"k\":\"look\",\"i\":{},\"st\":{}}}", i + 1, stat(&p, &snaps[i])));
                }
                3 if !snaps.is_empty() => {
                    let i = r.gen_range(0..snaps.len());
                    let n = snaps[i].count();
                    let x = match r.gen_range(0..4) { 0 => n, 1 => n + 3, _ => r.gen_range(0..n) };
                    let which = r.gen_bool(0.5);
                    let mut c = snaps[i];
                    let res = guard(|| {
                        if which { c.set_arg_min(x) } else { c.set_arg_max(x) }
                    });
                    if res.is_ok() {
                        snaps[i] = c;
                    }
                    ev.push(format!("{{\"k\":\"set\",\"i\":{},\"w\":{},\"x\":{},\"ok\":{},\"st\":{}}}", i + 1, which as u8, x, res.is_ok() as u8, stat(&p, &c)));
                }
                4 => {
                    // equivalent conversion
                    let t: Result<PopulatedStats, ()> = s.try_into();
                    ev.push(format!("{{\"k\":\"conv\",\"st\":{}}}", opt(t.ok())));
                }
                5 if r.gen() => {
                    let (b, d) = (r.gen(), *[0, 1, 2, 3, 7].choose(r).unwrap());
                    ev.push(text(&p, &s, b, d));
                }
                _ => {
                    let f = r.gen_range(0..fits);
                    let x = signed(p.v[f], all.len());
                    all.push(x);
                    let g = guard(|| s.record(x));
                    if g.is_err() {
                        ev.push("{\"k\":\"panic\"}".into());
                        break;
                    }
                    ev.push(format!("{{\"k\":\"rec\",\"x\":{},\"st\":{}}}", f, plain(&s)));
                }
            }
        }
        for (i, x) in snaps.iter().enumerate() {
            ev.push(format!("{{\"k\":\"look\",\"i\":{},\"st\":{}}}", i + 1, stat(&p, x)));
        }
        let n = ev.len() as u64;
        out.case(format!("{{\"id\":{},\"ev\":{}}}", qs(&id), arr(ev)), n);
    };
    for i in 0..(900 * mult) {
        let k = i % (NPAL + 1);
        let (st, f) = (r.gen_range(1..14), r.gen_range(1..7));
        case(out, &mut r, st, f, k, format!("s{i}/pal{k}"));
    }
    for i in 0..(60 * mult) {
        let k = i % (NPAL + 1);
        let (st, f) = (r.gen_range(30..120), r.gen_range(2..30));
        case(out, &mut r, st, f, k, format!("m{i}/pal{k}"));
    }
    for i in 0..(3 * mult) {
        let k = [0, 11, 3][i % 3];
        case(out, &mut r, 900, 12, k, format!("l{i}/pal{k}"));
    }
    // large collections at once: the whole sample list is in the event
    for i in 0..(40 * mult) {
        let k = i % (NPAL + 1);
        let fits = r.gen_range(2..25);
        let p = palette(k, fits);
        let n = if i % 8 == 0 { r.gen_range(1000..1800) } else { r.gen_range(2..300) };
        let xs: Vec<usize> = (0..n).map(|_| r.gen_range(0..fits)).collect();
        at(format!("collect {i}"));
        let s: Stats = xs.iter().map(|&x| p.v[x]).collect();
        let mut t = Stats::default();
        xs.iter().for_each(|&x| t.record(p.v[x]));
        let sh = |s: &Stats| agreed(s).map_or("[]".to_string(), |s| stat(&p, &s));
        out.case(format!("{{\"id\":\"c{i}/pal{k}\",\"ev\":[{{\"k\":\"bulk\",\"xs\":{},\"st\":{},\"rt\":{}}}]}}", arr(&xs), sh(&s), sh(&t)), 1);
    }
}

/// The numbers of "Samples: 3; Min: 1.5; ...".
fn numbers(text: &str) -> Option<Vec<(f64, usize)>> {
    let v: Vec<(&str, &str)> = text.split("; ").filter_map(|x| x.split_once(": ")).collect();
    let names = ["Samples", "Min", "Max", "Average", "Variance", "STD"];
    if v.iter().map(|x| x.0).ne(names) {
        return None;
    }
    v.iter().map(|x| Some((x.1.parse().ok()?, x.1.split_once('.').map_or(0, |y| y.1.len())))).collect()
}
/// What statistics look like as text, without and with a number of decimals.
fn text(p: &Palette, s: &Stats, snap: bool, dec: usize) -> String {
    let (full, cut) = match s.snapshot() {
        Some(q) if snap => (q.to_string(), format!("{q:.dec$}")),
        _ => (s.to_string(), format!("{s:.dec$}")),
    };
    if full.is_empty() {
        return format!("{{\"k\":\"text\",\"st\":[],\"dec\":{}}}", cut.is_empty() as u8);
    }
    let (Some(a), Some(b)) = (numbers(&full), numbers(&cut)) else {
        return "{\"k\":\"text\",\"st\":[-1],\"dec\":0}".into();
    };
    let n = a[0].0 as usize;
    let (num, m, v) = moments(p, n, a[3].0, a[4].0);
    let (sd, va) = (a[5].0, a[4].0);
    let stdok = (sd * sd - va).abs() <= 1e-9 * va.abs() || !va.is_finite();
    let (am, ax) = (s.arg_min().unwrap_or(0), s.arg_max().unwrap_or(0)); // not shown
    let st = arr([n as i64, idx(p, a[1].0), am as i64, idx(p, a[2].0), ax as i64, num, m, if stdok { v } else { -999_999_998 }]);
    let half = 0.5 * 10f64.powi(-(dec as i32));
    let ok = a.iter().zip(&b).enumerate().all(|(i, (x, y))| {
        if i == 0 || !x.0.is_finite() {
            x.0 == y.0 || x.0.is_nan() && y.0.is_nan()
        } else {
            y.1 == dec && (x.0 - y.0).abs() <= half * 1.000001 + x.0.abs() * 1e-15
        }
    });
    format!("{{\"k\":\"text\",\"st\":{st},\"dec\":{}}}", ok as u8)
}
/// A snapshot, if the statistics themselves report the same.
fn agreed(s: &Stats) -> Option<PopulatedStats> {
    let q = s.snapshot();
    let (a, b) = (
        (s.min(), s.arg_min(), s.max(), s.arg_max(), s.avg(), s.var(), s.std()),
        (q.map(|x| x.min()), q.map(|x| x.arg_min()), q.map(|x| x.max()), q.map(|x| x.arg_max()), q.map(|x| x.avg()), q.map(|x| x.var()), q.map(|x| x.std())),
    );
    // the same but for rounding
    let near = |x: Option<f64>, y: Option<f64>| match (x, y) {
        (Some(x), Some(y)) => x == y || (x - y).abs() <= 1e-9 * x.abs() || (x.is_nan() && y.is_nan()),
        (x, y) => x == y,
    };
    let same = (a.0, a.1, a.2, a.3) == (b.0, b.1, b.2, b.3) && near(a.4, b.4) && near(a.5, b.5) && near(a.6, b.6);
    if same { q } else { None }
}

/// Very many samples, in runs of equal ones, with a snapshot in between.
pub fn stats_long(out: &mut Out, seed: u64, thorough: bool) {
    let mut r = rng(seed, 4);
    let mut ev = vec![];
    for i in 0..(if thorough { 200 } else { 24 }) {
        let p = palette([0, 1, 2, 3, 10][i % 5], 2);
        let total = *[300usize, 1000, 5000, 32800, 65535, 65536, 65537, 70000].choose(&mut r).unwrap();
        let mut runs: Vec<(usize, usize)> = vec![];
        let (mut left, mut ones) = (total, 0);
        while left > 0 {
            let c = r.gen_range(1..=left.min(total / 3 + 1));
            let v = if ones + c <= 30000 { r.gen_range(0..2) } else { 0 };
            ones += v * c;
            left -= c;
            runs.push((v, c));
        }
        at(format!("many samples {i}: {runs:?}"));
        let xs = || runs.iter().flat_map(|&(v, c)| std::iter::repeat(v).take(c)).enumerate().map(|(k, v)| signed(p.v[v], k));
        let s: Stats = xs().collect();
        let mut t = Stats::default();
        let cut = r.gen_range(0..total);
        for (k, x) in xs().enumerate() {
            if k == cut {
                let _ = t.snapshot();
            }
            t.record(x);
        }
        let sh = |s: &Stats| agreed(s).map_or("[]".to_string(), |s| stat_as(&p, &s, true));
        ev.push(format!("{{\"k\":\"many\",\"runs\":{},\"st\":{},\"rt\":{}}}", arr(runs.iter().map(|x| format!("[{},{}]", x.0, x.1))), sh(&s), sh(&t)));
    }
    let n = ev.len() as u64;
    out.case(format!("{{\"id\":\"many\",\"ev\":{}}}", arr(ev)), n);
}

/// Executes the operation lists generated by the specification: [[op,x],..] with op 0 = record x,
/// 1 = snapshot, 2 = collect, 3 = look at snapshot x.
pub fn stats_replay(out: &mut Out, lines: &[String]) {
    let p = palette(1, 4);
    for (ci, l) in lines.iter().enumerate() {
        at(format!("stats replay {l}"));
        let ops = parse_ints(&format!("[{l}]"));
        let ops = ops.first().cloned().unwrap_or_default();
        let mut s = Stats::default();
        let mut all = vec![];
        let mut snaps: Vec<PopulatedStats> = vec![];
        let mut ev = vec![];
        let sh = |s: &Stats| s.snapshot().map_or("[]".to_string(), |s| stat(&p, &s));
        for o in &ops {
            match o[0] {
                0 => {
                    s.record(p.v[o[1] as usize]);
                    all.push(p.v[o[1] as usize]);
                    ev.push(format!("{{\"k\":\"rec\",\"x\":{},\"st\":{}}}", o[1], sh(&s)));
                }
                1 => {
                    let x = s.snapshot();
                    ev.push(format!("{{\"k\":\"snap\",\"st\":{}}}", x.map_or("[]".to_string(), |x| stat(&p, &x))));
                    snaps.extend(x);
                }
                2 => {
                    s = all.iter().copied().collect();
                    ev.push(format!("{{\"k\":\"collect\",\"st\":{}}}", sh(&s)));
                }
                _ => ev.push(format!("{{\"k\":\"look\",\"i\":{},\"st\":{}}}", o[1], stat(&p, &snaps[o[1] as usize - 1]))),
            }
        }
        let n = ev.len() as u64;
        out.case(format!("{{\"id\":\"spec{ci}\",\"ev\":{}}}", arr(ev)), n);
    }
}

/// ---- C29 ordering -------------------------------------------------------------------------------
pub fn order_record(out: &mut Out, seed: u64, thorough: bool) {
    use std::cmp::Ordering::*;
    use std::collections::BinaryHeap;
    let mut r = rng(seed, 3);
    let mult = if thorough { 10 } else { 1 };
    let c = |o: std::cmp::Ordering| match o { Less => -1i64, Equal => 0, Greater => 1 };
    for i in 0..(400 * mult) {
        let k = i % (NPAL + 1);
        let fits = r.gen_range(1..9);
        let p = palette(k, fits);
        let mut ev = vec![];
        at(format!("order {i}"));
        // comparisons
        for _ in 0..6 {
            let (f1, f2, g1, g2) = (r.gen_range(0..fits), r.gen_range(0..fits), r.gen_range(0..3u32), r.gen_range(0..3u32));
            let (a, b) = (PInd { g: g1, f: signed(p.v[f1], r.gen_range(0..2)), tag: 1 }, PInd { g: g2, f: signed(p.v[f2], r.gen_range(0..2)), tag: 2 });
            let cf = c(compare_fitness(&a, &b));
            let (wa, wb) = (IndividualWrapper::from(a), IndividualWrapper::from(b));
            let pc = wa.partial_cmp(&wb).map_or(9, c);
            let ops = arr([(wa < wb) as i64, (wa <= wb) as i64, (wa > wb) as i64, (wa >= wb) as i64, (wa == wb) as i64, (wa != wb) as i64]);
            ev.push(format!("{{\"k\":\"cmp\",\"a\":[{g1},{f1}],\"b\":[{g2},{f2}],\"cf\":{cf},\"oc\":{},\"pc\":{pc},\"ops\":{ops}}}", c(wa.cmp(&wb))));
            let (mx, mn) = {
                let x = std::cmp::max(&wa, &wb);
                let y = std::cmp::min(&wa, &wb);
                (idx(&p, x.f), idx(&p, y.f))
            };
            ev.push(format!("{{\"k\":\"minmax\",\"a\":{f1},\"b\":{f2},\"max\":{mx},\"min\":{mn}}}"));
        }
        // a heap
        let mut h: BinaryHeap<IndividualWrapper<PInd>> = BinaryHeap::new();
        let mut next = 0u32;
        let steps = r.gen_range(3..30);
        for _ in 0..steps {
            if r.gen_bool(0.6) || h.is_empty() {
                let f = r.gen_range(0..fits);
                h.push(PInd { g: next, f: signed(p.v[f], next as usize), tag: 7 }.into());
                ev.push(format!("{{\"k\":\"push\",\"x\":[{next},{f}]}}"));
                next += 1;
            } else if r.gen_bool(0.25) {
                // change the fitness through the wrapper
                let f = r.gen_range(0..fits);
                if let Some(mut t) = h.peek_mut() {
                    let g = t.g;
                    t.f = signed(p.v[f], ev.len());
                    ev.push(format!("{{\"k\":\"change\",\"g\":{g},\"f\":{f}}}"));
                }
            } else {
                let w = h.pop().unwrap();
                let x = w.take();
                ev.push(format!("{{\"k\":\"pop\",\"x\":[{},{}]}}", x.g, idx(&p, x.f)));
            }
        }
        while let Some(w) = h.pop() {
            let d = (w.g, w.f);
            let x = w.take();
            let same = d.0 == x.g && d.1 == x.f && x.tag == 7;
            ev.push(format!("{{\"k\":\"pop\",\"x\":[{},{}]}}", x.g, if same { idx(&p, x.f) } else { -2 }));
        }
        ev.push("{\"k\":\"end\"}".into());
        let n = ev.len() as u64;
        out.case(format!("{{\"id\":\"o{i}/pal{k}\",\"ev\":{}}}", arr(ev)), n);
    }
}

/// Executes the histories of a heap that the specification generated: 0 = push fitness x, 1 = pop,
/// 2 = change the fitness at the top to x.
pub fn order_replay(out: &mut Out, lines: &[String]) {
    use std::collections::BinaryHeap;
    let p = palette(1, 4);
    for (ci, l) in lines.iter().enumerate() {
        at(format!("order replay {l}"));
        let ops = parse_ints(&format!("[{l}]"));
        let mut h: BinaryHeap<IndividualWrapper<PInd>> = BinaryHeap::new();
        let (mut ev, mut next) = (vec![], 0);
        for o in ops.first().cloned().unwrap_or_default() {
            match o[0] {
                0 => {
                    h.push(PInd { g: next, f: p.v[o[1] as usize], tag: 0 }.into());
                    ev.push(format!("{{\"k\":\"push\",\"x\":[{next},{}]}}", o[1]));
                    next += 1;
                }
                1 => {
                    let x = h.pop().unwrap().take();
                    ev.push(format!("{{\"k\":\"pop\",\"x\":[{},{}]}}", x.g, idx(&p, x.f)));
                }
                _ => {
                    let mut t = h.peek_mut().unwrap();
                    let g = t.g;
                    t.f = p.v[o[1] as usize];
                    ev.push(format!("{{\"k\":\"change\",\"g\":{g},\"f\":{}}}", o[1]));
                }
            }
        }
        while let Some(w) = h.pop() {
            let x = w.take();
            ev.push(format!("{{\"k\":\"pop\",\"x\":[{},{}]}}", x.g, idx(&p, x.f)));
        }
        ev.push("{\"k\":\"end\"}".into());
        let n = ev.len() as u64;
        out.case(format!("{{\"id\":\"spec{ci}\",\"ev\":{}}}", arr(ev)), n);
    }
}
