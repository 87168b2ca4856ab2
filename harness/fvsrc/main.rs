//! Runtime monitors for firrtl-ast's properties

#![allow(dead_code)]

mod alloc;
#[macro_use]
mod fw;
mod checks;
mod conv;
mod effort;
mod gen;
mod model;
mod mutate;
mod refparse;
mod rewrite;
mod rng;
mod text;
mod typing;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let envs = |n: &str| std::env::var(n).ok();
    let mut o = fw::Opts {
        seed: envs("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: envs("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16),
        out: String::new(),
        limit: 0.0,
        scale: 1.0,
        part: None,
    };
    let mut id = None;
    let mut worker = false;
    let mut case = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let mut val = || it.next().cloned().unwrap_or_else(|| {
            eprintln!("fv: {} needs a value", a);
            std::process::exit(2)
        });
        match a.as_str() {
            "--seed" => o.seed = val().parse().expect("seed"),
            "--thorough" => o.thorough = true,
            "--quick" => o.thorough = false,
            "--threads" => o.threads = val().parse().expect("threads"),
            "--out" => o.out = val(),
            "--limit" => o.limit = val().parse().expect("limit"),
            "--scale" => o.scale = val().parse().expect("scale"),
            "--part" => o.part = Some(val()),
            "--case" => case = Some(val()),
            "--worker" => worker = true,
            "digests" => {
                // Plenty of stack, as for cases
                let t = std::thread::Builder::new().stack_size(128 << 20).spawn(checks::history::print_digests).expect("spawn");
                std::process::exit(if t.join().is_ok() { 0 } else { 101 });
            }
            "san" => std::process::exit(checks::san::main(&args[1..])),
            "san-texts" => std::process::exit(checks::san::texts(&args[1..])),
            "miri" => std::process::exit(checks::san::miri(&args[1..])),
            "list" => {
                for c in checks::all() {
                    println!("{}", c.id);
                }
                return;
            }
            a if !a.starts_with("--") && id.is_none() => id = Some(a.to_string()),
            a => {
                eprintln!("fv: unknown argument {}", a);
                std::process::exit(2)
            }
        }
    }
    if o.limit == 0.0 {
        o.limit = if o.thorough { 600.0 } else { 150.0 };
    }
    let id = id.unwrap_or_else(|| {
        eprintln!("usage: fv ID [--seed N] [--thorough] [--part P] [--case PART:N] [--out PREFIX]");
        std::process::exit(2)
    });
    if o.out.is_empty() {
        o.out = format!("/verif/evidence/{}", id);
    }
    let c = match checks::all().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("fv: unknown check {}", id);
            std::process::exit(2)
        }
    };
    let rc = if let Some(k) = case {
        let (p, n) = k.split_once(':').expect("PART:N");
        fw::single(&c, &o, p, n.parse().expect("case number"))
    } else if worker {
        fw::worker(&c, &o)
    } else {
        let out = o.out.clone();
        let mut args = args.clone();
        if !args.iter().any(|a| a == "--out") {
            args.push("--out".into());
            args.push(out);
        }
        fw::supervise(&c, &o, &args)
    };
    std::process::exit(rc)
}
