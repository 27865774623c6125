//! The bundled OneMax problem (C30), for OneMaxTrace.
use crate::evo::gen_strat;
use crate::util::*;
use rand::prelude::*;
use rusty_genes::one_max::*;
use rusty_genes::*;

fn bits(g: &[bool]) -> String {
    arr(g.iter().map(|&b| b as u8))
}
fn fit(f: f64) -> String {
    let m = if f.is_finite() && f.abs() < 2000.0 { (f * 1e6).round() as i64 } else { -1 };
    // fifteen digits: seven and eight
    let y = if m >= 0 { (f * 1e15).round() as u64 } else { 0 };
    format!("[{m},{},{},{},{}]", (f == 1.0) as u8, f.is_finite() as u8, y / 100_000_000, y % 100_000_000)
}
fn put(out: &mut Out, id: String, ev: Vec<String>) {
    let n = ev.len() as u64;
    out.case(format!("{{\"id\":{},\"ev\":{}}}", qs(&id), arr(ev)), n);
}
fn uses(a: &[bool], b: &[bool], r: &mut SmallRng, reach: bool, ev: &mut Vec<String>) {
    let m = OneMaxEvolutionModel;
    let (ga, gb) = (a.to_vec(), b.to_vec());
    let res = guard(|| {
        let mut ev = vec![];
        for g in [&ga, &gb] {
            let mut x = OneMax::from(g.clone());
            for _ in 0..2 {
                m.evaluate(&mut x);
                ev.push(format!("{{\"k\":\"eval\",\"g\":{},\"g2\":{},\"f\":{},\"valid\":{}}}", bits(g), bits(x.genome()), fit(x.fitness()), x.is_valid() as u8));
            }
        }
        let (mut x, mut y) = (OneMax::from(ga.clone()), OneMax::from(gb.clone()));
        if r.gen() {
            m.evaluate(&mut x);
            m.evaluate(&mut y);
        }
        let (mut kids, mut muts) = (vec![], vec![]);
        for _ in 0..(if reach { 200 } else { 3 }) {
            let mut o = m.crossover(&x, &y, r);
            let k = bits(o.genome());
            ev.push(format!("{{\"k\":\"cross\",\"a\":{},\"b\":{},\"o\":{k}}}", bits(&ga), bits(&gb)));
            let h = o.genome().to_vec();
            m.evaluate(&mut o);
            m.mutate(&mut o, r);
            ev.push(format!("{{\"k\":\"mut\",\"g\":{},\"o\":{}}}", bits(&h), bits(o.genome())));
            let h = o.genome().to_vec();
            m.improve(&mut o);
            m.evaluate(&mut o);
            ev.push(format!("{{\"k\":\"eval\",\"g\":{},\"g2\":{},\"f\":{},\"valid\":{}}}", bits(&h), bits(o.genome()), fit(o.fitness()), o.is_valid() as u8));
            if !kids.contains(&k) {
                kids.push(k);
            }
            let mut z = x.clone();
            m.mutate(&mut z, r);
            let k = bits(z.genome());
            if !muts.contains(&k) {
                muts.push(k);
            }
        }
        if reach {
            ev.truncate(40);
            ev.push(format!("{{\"k\":\"reach\",\"a\":{},\"b\":{},\"kids\":{},\"muts\":{}}}", bits(&ga), bits(&gb), arr(kids), arr(muts)));
        }
        ev
    });
    match res {
        Ok(e) => ev.extend(e),
        Err(e) => ev.push(format!("{{\"k\":\"pan\",\"what\":{}}}", qs(&e))),
    }
}
fn run<A: EvolutionAlgorithm<OneMaxEvolutionModel>>(e: &Evolution<A, OneMaxEvolutionModel>, p: &A::Parameters, len: usize, n: usize, gens: usize, mode: usize, r: &mut SmallRng, ev: &mut Vec<String>) {
    ev.push(format!("{{\"k\":\"begin\",\"len\":{len},\"n\":{n}}}"));
    let mut seen = vec![];
    let first: Vec<Vec<bool>> = (0..n).map(|_| (0..len).map(|_| r.gen_bool(0.3)).collect()).collect();
    let res = guard(|| {
        let cb = |p: &Population<OneMax>| {
            seen.push(format!("{{\"k\":\"gen\",\"gen\":{},\"mem\":{}}}", p.generation(), arr(p.iter().map(|i| format!("[{},{}]", bits(i.genome()), fit(i.fitness()))))));
            seen.len() <= gens
        };
        match mode {
            0 => e.run(&len, p, cb),
            1 => e.evolve_individual(OneMax::from(first[0].clone()), p, cb),
            _ => {
                let q = e.evolve_population(first.iter().map(|g| OneMax::from(g.clone())).collect(), p, cb);
                // the best of a run that keeps its elites
                q.take_fittest()
            }
        }
    });
    ev.extend(seen);
    match res {
        // without elites the last population need not have the best of all
        Ok(_) if mode == 2 => {}
        Ok(i) => ev.push(format!("{{\"k\":\"end\",\"g\":{},\"f\":{}}}", bits(i.genome()), fit(i.fitness()))),
        Err(_) if len == 0 => ev.push("{\"k\":\"refused\"}".into()),
        Err(e) => ev.push(format!("{{\"k\":\"pan\",\"what\":{}}}", qs(&e))),
    }
}
pub fn onemax(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 110);
    for l in lines {
        at(format!("onemax {l}"));
        let v = parse_nested(l);
        let g = |k: usize| v[k].nums().iter().map(|&x| x == 1).collect::<Vec<bool>>();
        let mut ev = vec![];
        let a = g(0);
        uses(&a, &g(1), &mut r, !a.is_empty(), &mut ev);
        put(out, format!("onemax/{l}"), ev);
    }
    for len in [0usize, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 257] {
        at(format!("random onemax of {len}"));
        let mut ev = vec![];
        let mut ones = vec![0u32; len];
        for k in 0..200_000 {
            match guard(|| OneMax::new_random(&len, &mut r)) {
                Ok(x) => {
                    for (o, b) in ones.iter_mut().zip(x.genome()) {
                        *o += *b as u32;
                    }
                    if k < 3 || x.genome().len() != len {
                        ev.push(format!("{{\"k\":\"rand\",\"len\":{len},\"g\":{}}}", bits(x.genome())));
                    }
                }
                Err(e) => ev.push(format!("{{\"k\":\"pan\",\"what\":{}}}", qs(&e))),
            }
        }
        // any two bits of a genome, and the same bits of genomes made one after the other, are
        // equal half of the time
        if (2..=100).contains(&len) {
            let made: Vec<Vec<bool>> = (0..5000).map(|_| guard(|| OneMax::new_random(&len, &mut r)).map_or(vec![false; len], |x| x.genome().to_vec())).collect();
            let (mut least, mut most) = (u32::MAX, 0);
            let mut count = |f: &dyn Fn(usize) -> bool| {
                let n = (0..5000).filter(|&k| f(k)).count() as u32;
                least = least.min(n);
                most = most.max(n);
            };
            for i in 0..len {
                for j in 0..i {
                    count(&|k| made[k][i] == made[k][j]);
                }
                count(&|k| made[k][i] == made[(k + 1) % 5000][i]);
            }
            ev.push(format!("{{\"k\":\"apart\",\"len\":{len},\"n\":5000,\"least\":{least},\"most\":{most}}}"));
        }
        ev.push(format!("{{\"k\":\"both\",\"len\":{len},\"ones\":{}}}", arr(ones)));
        put(out, format!("random/{len}"), ev);
    }
    // long genomes, by their counts
    let m = OneMaxEvolutionModel;
    let mut ev = vec![];
    for k in 0..(if thorough { 3000 } else { 400 }) {
        let len = match k % 8 {
            0 => *[255usize, 256, 257, 511, 512, 513, 1000, 65535, 65536, 65537].choose(&mut r).unwrap(),
            7 if k % 80 == 7 => *[1_000_003, 16_777_217, 2_097_153].choose(&mut r).unwrap(),
            x if x < 4 => r.gen_range(3..300),
            _ => r.gen_range(300..200_000),
        };
        let p = *[0.0, 0.001, 0.3, 0.5, 0.9, 0.999].choose(&mut r).unwrap();
        let g: Vec<bool> = if k % 5 == 4 {
            // all but a few
            let mut g = vec![true; len];
            for _ in 0..k % 3 {
                let i = r.gen_range(0..len);
                g[i] = false;
            }
            g
        } else {
            (0..len).map(|_| r.gen_bool(p)).collect()
        };
        at(format!("onemax of {len} bits"));
        let ones = g.iter().filter(|&&b| b).count();
        let mut x = OneMax::from(g.clone());
        m.evaluate(&mut x);
        ev.push(format!("{{\"k\":\"big\",\"len\":{len},\"ones\":{ones},\"same\":{},\"f\":{},\"rand\":{}}}", (x.genome() == g) as u8, fit(x.fitness()), OneMax::new_random(&len, &mut r).genome().len()));
    }
    put(out, "big".into(), ev);
    for case in 0..(if thorough { 3000 } else { 300 }) {
        let len = if case % 60 == 59 { *[257, 300, 600].choose(&mut r).unwrap() } else { *[0, 1, 2, 3, 5, 8, 16, 33, 64, 100].choose(&mut r).unwrap() };
        let mk = |r: &mut SmallRng, p: f64| (0..len).map(|_| r.gen_bool(p)).collect::<Vec<bool>>();
        let (pa, pb) = (*[0.0, 0.5, 1.0, 0.95].choose(&mut r).unwrap(), *[0.0, 0.5, 1.0].choose(&mut r).unwrap());
        let (a, b) = (mk(&mut r, pa), mk(&mut r, pb));
        at(format!("onemax use {a:?} {b:?}"));
        let mut ev = vec![];
        uses(&a, &b, &mut r, false, &mut ev);
        put(out, format!("use/{case}"), ev);
    }
    // longer parents that differ in every place, of equal fitness or not, evaluated or not
    for len in [60usize, 65, 130, 258, 1026, 33_000, 66_000] {
        for kind in 0..4 {
            at(format!("onemax reach of {len}, {kind}"));
            let a: Vec<bool> = (0..len).map(|i| match kind { 0 => i % 2 == 0, 1 => i < len / 2, 2 => true, _ => i % 5 == 0 }).collect();
            let b: Vec<bool> = a.iter().map(|x| !x).collect();
            let m = OneMaxEvolutionModel;
            let res = guard(|| {
                let (mut x, mut y) = (OneMax::from(a.clone()), OneMax::from(b.clone()));
                if (len + kind) % 7 != 0 {
                    m.evaluate(&mut x);
                    m.evaluate(&mut y);
                }
                let (mut points, mut muts, mut odd, mut same) = ([0; 10], [0; 10], 0, 0);
                for _ in 0..800 {
                    let o = m.crossover(&x, &y, &mut r);
                    let o = o.genome();
                    let p = (0..o.len().min(len)).find(|&i| o[i] != a[i]).unwrap_or(len - 1);
                    points[p * 10 / len] += 1;
                    odd += (o.len() != len || o[p..] != b[p..] && o[p..] != a[p..]) as usize;
                    let mut z = x.clone();
                    m.mutate(&mut z, &mut r);
                    let d: Vec<usize> = (0..len.min(z.genome().len())).filter(|&i| z.genome()[i] != a[i]).collect();
                    odd += (d.len() > 1 || z.genome().len() != len) as usize;
                    match d.first() {
                        Some(i) => muts[i * 10 / len] += 1,
                        None => same += 1,
                    }
                }
                format!("{{\"k\":\"far\",\"len\":{len},\"n\":800,\"points\":{},\"muts\":{},\"same\":{same},\"odd\":{odd},\"even\":{}}}", arr(points), arr(muts), (kind == 2) as u8)
            });
            put(out, format!("far/{len}/{kind}"), vec![res.unwrap_or_else(|e| format!("{{\"k\":\"pan\",\"what\":{}}}", qs(&e)))]);
        }
    }
    let pools = crate::evo::pools();
    for case in 0..(if thorough { 1500 } else { 150 }) {
        let len = *[0, 1, 1, 2, 3, 8, 20, 65].choose(&mut r).unwrap();
        let n = *[1, 1, 2, 3, 5, 10, 30].choose(&mut r).unwrap();
        let gens = *[0, 1, 3, 8].choose(&mut r).unwrap();
        let el = *[0.0, 0.2, 0.5].choose(&mut r).unwrap();
        let rate = |r: &mut SmallRng| *[0.0, 1.0, 0.5, 0.8].choose(r).unwrap();
        let (c, m, c2, m2) = (rate(&mut r), rate(&mut r), rate(&mut r), rate(&mut r));
        let (s, mode) = (gen_strat(&mut r), case % 3);
        at(format!("onemax run {case}: length {len}, size {n}, {gens} generations, elitism {el}, rates {c} {m} {c2} {m2}, {s:?}, mode {mode}"));
        let mut ev = vec![];
        pools[case % 4].install(|| {
            if case % 2 == 0 {
                let e = GeneticAlgorithm::build_evolution(OneMaxEvolutionModel);
                let p = GeneticAlgorithmParameters { population_size: n, elitism_rate: el, crossover_rate: c, mutation_rate: m, selection_strategy: s };
                run(&e, &p, len, n, gens, mode, &mut r, &mut ev)
            } else {
                let e = AdaptiveGeneticAlgorithm::build_evolution(OneMaxEvolutionModel);
                let p = AdaptiveGeneticAlgorithmParameters { population_size: n, elitism_rate: el, crossover_rate_range: c..c2, mutation_rate_range: m..m2, selection_strategy: s, parameter_adjustment_interval: case % 3 };
                run(&e, &p, len, n, gens, mode, &mut r, &mut ev)
            }
        });
        put(out, format!("run/{case}"), ev);
    }
}
