mod core;
mod entropy;
mod gauge;
mod kit;
mod net;
mod props;
mod runner;

use runner::*;

#[global_allocator]
static ALLOC: gauge::Gauge = gauge::Gauge;

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

fn opts(status: Option<String>) -> Opts {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let secs = env_u64("SIM_SECS", if tier == "thorough" { 780 } else { 150 });
    Opts {
        workers: env_u64(
            "SIM_WORKERS",
            std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8),
        ) as usize,
        seed: env_u64("VERIF_SEED", 1),
        secs,
        tier,
        status,
        verif: verif_dir(),
    }
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => parent(&args[2]),
        Some("work") => {
            let p = props.iter().find(|p| p.id == args[2]).expect("unknown property");
            check(p, &opts(args.get(3).cloned()))
        }
        Some("one") => {
            // one run by its place in the plan: used to find what killed the worker
            let p = props.iter().find(|p| p.id == args[2]).expect("unknown property");
            one(p, &opts(None), args[3].parse().unwrap())
        }
        Some("replay") => replay(&props, &args[2]),
        Some("digests") => {
            digests(&props, env_u64("VERIF_SEED", 1), env_u64("SIM_PER", 20), env_u64("SIM_WORKERS", 8) as usize);
            0
        }
        Some("list") => {
            for p in &props {
                for s in &p.scenarios {
                    println!("{} {} {}", p.id, s.name, s.runs);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: kyber-sim check Cxx | replay FILE | digests | list");
            2
        }
    };
    std::process::exit(code);
}

/// runs the check in a child, so that an abort of the code under test is an outcome
fn parent(id: &str) -> i32 {
    let dir = format!("/tmp/kyber-sim-{}", std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).args(["work", id, &dir]).status();
    let code = match st {
        Ok(s) => match s.code() {
            Some(c) if c == 0 || c == 1 || c == 2 => c,
            _ => {
                let o = opts(None);
                let mut hit = None;
                for w in 0..o.workers {
                    if let Ok(i) = std::fs::read_to_string(format!("{dir}/w{w}")) {
                        if let Ok(i) = i.trim().parse::<u64>() {
                            let r = std::process::Command::new(&exe)
                                .args(["one", id, &i.to_string()])
                                .status();
                            if let Ok(r) = r {
                                if r.code().is_none() {
                                    hit = Some((i, format!("{r}")));
                                    break;
                                }
                            }
                        }
                    }
                }
                match hit {
                    Some((i, how)) => {
                        let props = props::all();
                        let p = props.iter().find(|p| p.id == id).unwrap();
                        let path = aborted(p, &o, i, &how);
                        println!("VIOLATION property={id} replay={path}");
                        println!("  abort: the process died ({how}) in a simulated run");
                        1
                    }
                    None => {
                        eprintln!("HARNESS-ERROR the worker ended with {s} and no run reproduces it");
                        2
                    }
                }
            }
        },
        Err(e) => {
            eprintln!("HARNESS-ERROR {e}");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}
