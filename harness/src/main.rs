//! Drives the real code of rusty_genes and records what it does, for the trace specifications.
//! conform TOPIC OUT SEED TIER [REPLAY]
mod adapt;
mod defaults;
mod direct;
mod engine;
mod evo;
mod lerp;
mod long;
mod mutate;
mod onemax;
mod params;
mod pop;
mod repeats;
mod select;
mod steps;
mod streams;
mod util;
mod xover;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (topic, path) = (a[1].as_str(), a[2].as_str());
    let seed: u64 = a[3].parse().unwrap();
    let thorough = a[4] == "thorough";
    let lines: Vec<String> = a
        .get(5)
        .map(|p| std::fs::read_to_string(p).unwrap().lines().map(str::to_owned).collect())
        .unwrap_or_default();
    start_watchdog(format!("{path}.hang"), 60);
    let mut out = Out::new(path);
    all(|| run(&mut out, topic, seed, thorough, &lines));
    out.finish();
}
fn run(out: &mut Out, topic: &str, seed: u64, thorough: bool, lines: &[String]) {
    match topic {
        "pop" => {
            pop::replay(out, lines);
            pop::record(out, seed, thorough);
        }
        "stats" => {
            pop::stats_replay(out, lines);
            pop::stats_record(out, seed, thorough);
            pop::stats_long(out, seed, thorough);
        }
        "order" => {
            pop::order_replay(out, lines);
            pop::order_record(out, seed, thorough);
        }
        "lerp" => lerp::lerp(out, seed, thorough, lines),
        "mutate" => {
            mutate::mutations(out, seed, thorough, lines);
            mutate::long(out, seed, thorough)
        }
        "sampling" => mutate::sampling(out, seed, thorough),
        "sel_any" => select::any(out, seed, thorough),
        "sel_rank" => select::ranks(out, seed, thorough),
        "sel_fit" => select::fitness(out, seed, thorough),
        "sel_dis" => select::distinct(out, seed, thorough, lines),
        "runs" => evo::runs(out, seed, thorough, lines),
        "engine" => engine::engine(out, seed, thorough, lines),
        "steps" => steps::steps(out, seed, thorough),
        "twins" => evo::twins(out, seed, thorough, lines),
        "breed" => direct::breed(out, seed, thorough, lines),
        "extend" => direct::extend(out, seed, thorough, lines),
        "params" => params::params(out, seed, thorough, lines),
        "defaults" => defaults::defaults(out, seed, thorough, lines),
        "streams" => streams::streams(out, seed, thorough, lines),
        "repeats" => repeats::repeats(out, seed, thorough, lines),
        "onemax" => onemax::onemax(out, seed, thorough, lines),
        "adapt" => adapt::adapt(out, seed, thorough, lines),
        "strat" => xover::strategies(out, seed, thorough),
        t if t.starts_with("xo_") => {
            let w = xover::Want {
                ops: match t {
                    "xo_range" => &["ox", "pmx", "spx"],
                    "xo_cx" => &["cx"],
                    "xo_nb" => &["erx", "scx"],
                    "xo_gpx" => &["gpx", "cn", "cp"],
                    _ => &["ox", "pmx", "cx", "erx", "scx", "gpx"],
                },
            };
            xover::replay(out, lines, w, seed, thorough);
            xover::record(out, seed, thorough, w);
        }
        _ => panic!("unknown topic {topic}"),
    }
}
