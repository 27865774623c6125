//! Interpolation (C32), for LerpTrace.
use crate::util::*;
use rand::prelude::*;
use rusty_genes::*;

/// What the integers lo.. stand for among the floating point numbers.
const SCALES: [(f64, f64); 7] = [(0.0, 1.0), (-5.0, 0.5), (1e6, 0.125), (0.0, 1e-300), (0.0, 1e290), (-1.0, 1e-3), (1e-9, 1e-9)];

/// On which side of the whole number d*num/den the share of the (rounded) ratio lies: the exact
/// product, against the spacing of the floating point numbers below that whole number.
fn side(lo: u64, d: u64, num: u64, den: u64) -> i32 {
    let whole = (d as u128 * num as u128 / den as u128) as f64;
    if lo > 0 || whole == 0.0 || d as u128 * num as u128 % den as u128 != 0 {
        return 0;
    }
    let err = (d as f64).mul_add(num as f64 / den as f64, -whole);
    let spacing = whole - f64::from_bits(whole.to_bits() - 1);
    if err >= 0.0 {
        1
    } else if err < -0.5 * spacing {
        -1
    } else {
        0
    }
}
fn usizes(lo: u64, d: u64, num: u64, den: u64) -> String {
    let r = guard(|| interpolate_usize(lo as usize, (lo + d) as usize, num as f64 / den as f64));
    let (panic, r) = match r {
        Ok(x) => (0, (x as i128 - lo as i128).clamp(-9, 2_000_000_000)),
        Err(_) => (1, 0),
    };
    let side = side(lo, d, num, den);
    format!("{{\"k\":\"usize\",\"d\":{d},\"num\":{num},\"den\":{den},\"side\":{side},\"panic\":{panic},\"r\":{r}}}")
}
fn floats(scale: usize, lo: i64, d: i64, num: i64, den: i64) -> String {
    let (base, s) = SCALES[scale];
    let (a, b) = (base + lo as f64 * s, base + (lo + d) as f64 * s);
    let r = guard(|| interpolate_f64(a, b, num as f64 / den as f64));
    let (panic, r, off) = match r {
        Ok(x) => {
            let y = (x - a) / s * den as f64;
            if y.is_finite() && y.abs() < 2e9 { (0, y.round() as i64, ((y - y.round()) * 1e6).round() as i64) } else { (0, -2_000_000_000, 1) }
        }
        Err(_) => (1, 0, 0),
    };
    format!("{{\"k\":\"float\",\"d\":{d},\"num\":{num},\"den\":{den},\"panic\":{panic},\"r\":{r},\"off\":{off}}}")
}
fn sweep(lo: u64, d: u64, ratios: &[f64]) -> String {
    let rs: Vec<_> = ratios.iter().map(|&t| guard(|| interpolate_usize(lo as usize, (lo + d) as usize, t))).collect();
    let panic = rs.iter().any(|r| r.is_err()) as u8;
    let rs = rs.iter().map(|r| r.as_ref().map_or(0, |&x| (x as i128 - lo as i128).clamp(-9, 2_000_000_000)));
    format!("{{\"k\":\"sweep\",\"zero\":{},\"d\":{d},\"panic\":{panic},\"rs\":{}}}", (lo == 0) as u8, arr(rs))
}
fn put(out: &mut Out, id: String, ev: Vec<String>) {
    let n = ev.len() as u64;
    out.case(format!("{{\"id\":{},\"ev\":{}}}", qs(&id), arr(ev)), n);
}

pub fn lerp(out: &mut Out, seed: u64, thorough: bool, lines: &[String]) {
    let mut r = rng(seed, 96);
    // states of MCInterpolation: [lo, d, num, den]
    for l in lines {
        let v: Vec<i64> = parse_nested(l).iter().map(J::num).collect();
        at(l);
        let mut ev = vec![usizes(v[0] as u64, v[1] as u64, v[2] as u64, v[3] as u64)];
        let s = r.gen_range(0..SCALES.len());
        ev.push(floats(s, v[0], v[1], v[2], v[3]));
        ev.push(floats(s, v[0] + v[1], -v[1], v[2], v[3]));
        put(out, format!("replay {l}"), ev);
    }
    for case in 0..(if thorough { 20_000 } else { 2_000 }) {
        at(format!("lerp {case}"));
        let den = *[1, 2, 3, 4, 7, 10, 64, 100, 365, 1000, 1024].choose(&mut r).unwrap();
        let num = *[0, 1, den / 2, den - 1, den, r.gen_range(0..=den)].choose(&mut r).unwrap();
        let lo = *[0, 0, 1, 2, 10, 255, 256, 65_535, 1 << 24, (1 << 24) + 1, 1 << 32, 1 << 40].choose(&mut r).unwrap();
        let top = *[1, 5, 20, 100, 300, 70_000, 17_000_000, 1_999_999_999].choose(&mut r).unwrap();
        let d = if r.gen_bool(0.2) { top } else { r.gen_range(0..=top) };
        let mut ev = vec![usizes(lo, d, num, den)];
        let s = r.gen_range(0..SCALES.len());
        let (a, b) = (r.gen_range(-500..500i64), r.gen_range(-500..500i64));
        ev.push(floats(s, a, b, num as i64, den as i64));
        // rising ratios, among them neighbors and the smallest and largest below one
        let mut t: Vec<f64> = (0..r.gen_range(2..30)).map(|_| r.gen()).collect();
        t.extend([0.0, f64::MIN_POSITIVE, 5e-324, 0.5, 0.5 - f64::EPSILON / 4.0, 0.5 + f64::EPSILON / 2.0, 1.0 - f64::EPSILON / 2.0, 1.0]);
        t.sort_by(|x, y| x.partial_cmp(y).unwrap());
        ev.push(sweep(lo, d, &t));
        put(out, format!("lerp{case}"), ev);
    }    // shares of a whole number at ratios written as decimal fractions that come out whole
    for den in [10, 100, 1000, 365, 7] {
        for num in 1..den {
            at(format!("share {num}/{den}"));
            let g = gcd(num, den);
            let ev = [1, 2, 3, 7, 10, 100].iter().map(|&k| usizes(0, den / g * k, num, den)).collect();
            put(out, format!("share {num}/{den}"), ev);
        }
    }
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
