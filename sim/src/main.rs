//! posim: deterministic simulation of poreader with fault injection.
mod arena;
mod cat;
mod child;
mod exec;
mod formula;
mod gen;
mod oracle;
mod plan;
mod rng;
mod runner;
mod sched;
mod seams;
mod shrink;

use std::time::Duration;

#[global_allocator]
static A: seams::Alloc = seams::Alloc;

pub const PROPS: [&str; 18] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17",
     "C18", "C19"];

/// (quick, thorough) runs
fn runs(prop: &str) -> (u64, u64) {
    match prop {
        "C04" => (18_000, 800_000),
        "C15" => (16_000, 700_000),
        "C13" => (12_000, 400_000),
        "C19" => (2_000, 40_000),
        "C02" | "C08" => (26_000, 1_000_000),
        "C06" | "C14" => (60_000, 2_000_000),
        _ => (36_000, 1_500_000),
    }
}

fn env<T: std::str::FromStr>(k: &str, d: T) -> T {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

/// Address space randomisation off, if the system lets us.
fn fixed_addresses() {
    if std::env::var_os("POSIM_EXEC").is_some() {
        return;
    }
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur < 0 || libc::personality((cur | 0x0040000) as libc::c_ulong) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(_) => return,
    };
    let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("POSIM_EXEC", "1").exec();
}

fn main() {
    fixed_addresses();
    exec::install_panic_hook();
    seams::install();
    arena::init();
    // one-time tables of locale_config are filled here, outside the simulation
    let _ = locale_config::LanguageRange::new("fr");
    let _ = locale_config::LanguageRange::from_unix("pt_BR");
    let args: Vec<String> = std::env::args().collect();
    let cores = std::thread::available_parallelism().map_or(4, |n| n.get()) as u64;
    let master = env("VERIF_SEED", 1u64);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" if arg(2) == "C19" && !posim_hook::counting() => {
            eprintln!("posim: C19 needs the build for counting");
            2
        }
        "check" if PROPS.contains(&arg(2)) => {
            let (q, t) = runs(arg(2));
            let thorough = tier == "thorough";
            let o = runner::Opts {
                prop: arg(2).into(),
                master,
                runs: env("POSIM_RUNS", if thorough { t } else { q }),
                workers: env("POSIM_WORKERS", cores),
                time: Duration::from_secs(env("POSIM_TIME", if thorough { 700 } else { 200 })),
                twice: 16,
                keep_going: false,
                from: 0,
            };
            runner::check(&o, &tier)
        }
        "replay" => runner::replay(arg(2)),
        // digest of N runs of a property (for comparing worker counts and processes)
        "digest" => {
            let o = runner::Opts {
                prop: arg(2).into(),
                master,
                runs: arg(3).parse().unwrap_or(500),
                workers: env("POSIM_WORKERS", cores),
                time: Duration::from_secs(3600),
                twice: 0,
                keep_going: true,
                from: 0,
            };
            match runner::batch(&o) {
                Ok(b) => {
                    println!("{} seed {master} runs {} digest {:016x} found {:?} broken {:?}", arg(2), b.runs, b.digest, b.found, b.broken);
                    0
                }
                Err(e) => {
                    eprintln!("{e}");
                    2
                }
            }
        }
        // one run in detail
        "show" => {
            let p = gen::plan(arg(2), runner::run_seed(master, arg(2), arg(3).parse().unwrap_or(0)));
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            let v = runner::judge(&p, true);
            println!("{}", match v.out.hist() {
                Some(h) => serde_json::to_string_pretty(h).unwrap(),
                None => format!("{:?}", v.out),
            });
            println!("{:?} {:?}", v.viol, v.broken);
            0
        }
        _ => {
            eprintln!("usage: posim check ID | replay FILE | digest ID N | show ID RUN");
            2
        }
    };
    std::process::exit(code);
}
