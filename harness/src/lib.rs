//! Runtime monitors for ikal: drives the real crate with generated workloads and judges what it does.

#![allow(dead_code)]

pub mod big;
pub mod cal;
pub mod corpus;
#[path = "gen.rs"]
pub mod gen_;
pub mod hostile;
pub mod ik;
pub mod model;
pub mod mon;
pub mod props;
pub mod reader;
pub mod rec;
pub mod rng;
pub mod wire;
pub mod zones;

#[global_allocator]
static ALLOC: mon::Counting = mon::Counting;

/// Runs the command line on these monitors.
pub fn cli(all: &'static [&'static mon::Prop]) -> ! {
    std::process::exit(command(all))
}

/// The same, returning the status to exit with.
pub fn command(all: &'static [&'static mon::Prop]) -> i32 {
    let find = |id: &str| -> &'static mon::Prop {
        all.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        })
    };
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    match a.as_slice() {
        ["worker", id, seed, tier, from, to, out] => mon::worker(
            find(id),
            seed.parse().expect("seed"),
            *tier == "thorough",
            from.parse().expect("from"),
            to.parse().expect("to"),
            out,
            false,
        ),
        ["cost", seed, chunk, only, times] => props::c20::probe(seed, chunk, only, times),
        ["replay", id, path] => mon::replay(find(id), path),
        [id] => {
            let seed = env("VERIF_SEED", "1").parse().unwrap_or(1);
            mon::supervise(find(id), seed, env("VERIF_TIER", "quick") == "thorough")
        }
        _ => {
            eprintln!("usage: ikmon PROPERTY | ikmon replay PROPERTY FILE");
            2
        }
    }
}
