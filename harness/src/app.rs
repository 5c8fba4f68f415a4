//! check <id> [--thorough | --replay <tier> <index>] | worker ... | list
use crate::engine;

pub fn main(all: &[&'static engine::Check]) {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| -> &'static engine::Check {
        all.iter().find(|c| c.id == id).copied().unwrap_or_else(|| {
            eprintln!("no check {id}");
            std::process::exit(2)
        })
    };
    match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let c = find(&a[1]);
            let mut thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut only = None;
            if a.get(2).map(|s| s.as_str()) == Some("--replay") {
                thorough = a[3] == "thorough";
                only = Some(a[4].parse().unwrap());
            } else if a.get(2).map(|s| s.as_str()) == Some("--thorough") {
                thorough = true;
            }
            std::process::exit(engine::parent(c, thorough, seed, only));
        }
        Some("worker") => engine::worker(
            find(&a[1]),
            engine::WorkerArgs {
                shard: a[2].parse().unwrap(),
                shards: a[3].parse().unwrap(),
                resume: a[4].parse().unwrap(),
                thorough: a[5] == "thorough",
                scratch: a[6].clone().into(),
                tag: a[7].clone(),
                only: a[8].parse().ok(),
            },
        ),
        _ => {
            for c in all {
                println!("{}", c.id);
            }
        }
    }
}
