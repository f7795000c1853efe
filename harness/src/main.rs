mod alloc;
mod dict;
mod drive;
mod lzw;
mod model;
mod props;
mod refdec;
mod rng;
mod runner;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let mut args = std::env::args().skip(1);
    let mut cfg = runner::Cfg {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: false, threads: std::thread::available_parallelism().map_or(8, |n| n.get()).min(16), only: None,
        scale: 1.0, evidence: None, replay_dir: "/verif/replays".into(), inflight: None,
        max_wall: std::time::Duration::from_secs(600), variant: String::new(),
    };
    let mut prop = String::new();
    let mut repo = String::from("/repo");
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap_or_else(|| panic!("{a} needs a value"));
        match a.as_str() {
            "--prop" => prop = v(),
            "--seed" => cfg.seed = v().parse().unwrap(),
            "--tier" => cfg.thorough = v() == "thorough",
            "--threads" => cfg.threads = v().parse().unwrap(),
            "--case" => cfg.only = Some(v().parse().unwrap()),
            "--scale" => cfg.scale = v().parse().unwrap(),
            "--evidence" => cfg.evidence = Some(v()),
            "--replays" => cfg.replay_dir = v(),
            "--inflight" => cfg.inflight = Some(v()),
            "--max-wall" => cfg.max_wall = std::time::Duration::from_secs(v().parse().unwrap()),
            "--variant" => cfg.variant = v(),
            "--repo" => repo = v(),
            _ => panic!("unknown argument {a}"),
        }
    }
    let literals = dict::load(&repo);
    if prop == "literals" {
        print!("{literals}");
        return;
    }
    let all = props::all();
    let Some(p) = all.iter().find(|p| p.id == prop) else {
        eprintln!("no property {prop:?}");
        std::process::exit(2);
    };
    let mut samples = vec![];
    for dir in ["tests/samples", "tests/crashtest", "tests/stall"] {
        let Ok(rd) = std::fs::read_dir(format!("{repo}/{dir}")) else { continue };
        for e in rd.flatten() {
            if let Ok(b) = std::fs::read(e.path()) {
                if b.len() > 20 {
                    samples.push((format!("{dir}/{}", e.file_name().to_string_lossy()), b));
                }
            }
        }
    }
    samples.sort();
    let shared = runner::Shared { samples };
    std::process::exit(runner::run(p, &cfg, &shared));
}
