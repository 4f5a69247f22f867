#![allow(dead_code)]
#![allow(unexpected_cfgs)]
mod engine;
mod heap;
mod kit;
mod rng;
mod runner;
mod scen;
mod weak;

use runner::Property;

#[global_allocator]
static HEAP: heap::Heap = heap::Heap;

fn find(id: &str) -> &'static Property {
    scen::PROPERTIES.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("dst: unknown property {}", id);
        std::process::exit(3);
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| -> u64 { a[i].parse().expect("number") };
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in scen::PROPERTIES {
                println!("{} {}", p.id, p.quick);
            }
            0
        }
        Some("check") => runner::check(find(&a[2])),
        Some("worker") => {
            let p = find(&a[2]);
            runner::worker(
                p,
                runner::WorkerArgs {
                    seed: n(3),
                    w: n(4) as usize,
                    workers: n(5) as usize,
                    start: n(6),
                    end: n(7),
                    deadline_s: a[8].parse().unwrap(),
                    dir: a[9].clone().into(),
                    out: a[10].clone().into(),
                },
            )
        }
        Some("shrink") => runner::shrink(find(&a[2]), n(3), n(4), std::path::Path::new(&a[5])),
        Some("replay") => runner::replay(find, &a[2]),
        // One run, with its trace.
        Some("trace") => {
            let p = find(&a[2]);
            engine::install();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            // what was run before must not matter
            for i in 0..a.get(4).map_or(0, |_| n(4)) {
                runner::execute_seed(p, seed, i, false);
            }
            let o = runner::execute_seed(p, seed, n(3), true);
            for l in &o.trace {
                println!("{}", l);
            }
            println!("scenario {} policy {} hash {:x} stats {:?}", runner::scenario_of(p, n(3)).name, o.policy, o.hash, o.stats);
            println!("{:?}", o.violation);
            0
        }
        // Prints the hash of every run: two processes must agree.
        Some("hashes") => {
            let p = find(&a[2]);
            engine::install();
            for i in n(4)..n(5) {
                let o = runner::execute_seed(p, n(3), i, false);
                println!("{} {} {:x} {}", p.id, i, o.hash, o.stats.steps);
            }
            0
        }
        _ => {
            eprintln!("usage: dst check|list|replay FILE|trace PROP RUN|hashes PROP SEED LO HI");
            3
        }
    };
    std::process::exit(rc);
}
