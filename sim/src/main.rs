mod cli;
mod disk;
mod env;
mod exprgen;
mod model;
mod query;
mod refxml;
mod rng;
mod runner;
mod saxw;
mod step;
mod sys;
mod threads;
mod tree;
mod vast;
mod deep;

use runner::World;

#[global_allocator]
static ALLOC: env::SimAlloc = env::SimAlloc;

/// Settings of the harness itself, read before a simulated environment replaces them.
static SETTINGS: std::sync::OnceLock<[String; 3]> = std::sync::OnceLock::new();
pub fn setting(i: usize) -> &'static str {
    let v = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.into());
    &SETTINGS.get_or_init(|| [v("AMSIM_SCRATCH", "/tmp"), v("AMSIM_CLI", ""), v("AMSIM_SHIM", "")])[i]
}
pub fn scratch() -> String {
    setting(0).to_string()
}

fn world(p: &str) -> Option<Box<dyn World>> {
    match p {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C12" | "C13" => Some(Box::new(tree::Tree)),
        "C11" => Some(Box::new(threads::Threads)),
        "C09" => Some(Box::new(saxw::SaxW)),
        "C10" => Some(Box::new(cli::Cli)),
        "C08" => Some(Box::new(disk::Disk)),
        _ => None,
    }
}

fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|x| x == name).and_then(|i| v.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn main() {
    setting(0);
    env::init_arena();
    if !env::arena_ok() {
        eprintln!("the arena cannot be mapped");
        std::process::exit(2);
    }
    runner::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("check") => {
            let prop = a[2].clone();
            match world(&prop) {
                None => {
                    eprintln!("unknown property {}", prop);
                    2
                }
                Some(w) => {
                    let thorough = arg("--tier").as_deref() == Some("thorough");
                    runner::check(
                        w.as_ref(),
                        &runner::CheckArgs {
                            evidence: arg("--evidence").unwrap_or_else(|| format!("/tmp/{}.json", prop)),
                            replay_dir: arg("--replays").unwrap_or_else(|| "/tmp".into()),
                            prop,
                            seed: num("--seed", 1),
                            thorough,
                            runs: num("--runs", 1000),
                            workers: num("--workers", 8) as usize,
                            wall_cap: num("--wall", 600) as f64,
                            build_info: arg("--build").unwrap_or_default(),
                        },
                    )
                }
            }
        }
        Some("trace") => {
            // one generated run, with its steps
            let prop = a[2].clone();
            let w = world(&prop).unwrap();
            runner::init_shared();
            let rs = runner::run_seed(num("--seed", 1), &prop, num("--run", 0));
            let o = runner::run_traced(w.as_ref(), &prop, arg("--tier").as_deref() == Some("thorough"), runner::What::Gen(rs, &runner::run_env(rs)), true);
            print!("{}", o.trace);
            println!("ok={} class={} {}", o.ok, o.class, o.msg);
            0
        }
        Some("replay") => runner::replay(&world, &a[2]),
        Some("selftest") => {
            let prop = a[2].clone();
            match world(&prop) {
                Some(w) => !runner::selftest(w.as_ref(), &prop, num("--seed", 1), num("--runs", 300)) as i32,
                None => 2,
            }
        }
        _ => {
            eprintln!("usage: amxml-sim check <property> ... | replay <file> | selftest <property>");
            2
        }
    };
    std::process::exit(code);
}
