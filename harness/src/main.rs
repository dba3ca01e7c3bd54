#[macro_use]
mod engine;
mod alloc;
mod capture;
mod model;
mod props;
mod screen;
mod vm;

use engine::*;

#[global_allocator]
static GLOBAL: alloc::Alloc = alloc::Alloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("error: unknown property {id}");
                std::process::exit(2);
            };
            let o = Opts {
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
                workers: std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
                root,
                scale_cases: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
                only: std::env::var("VERIF_FAMILY").ok(),
            };
            check(p, &o)
        }
        Some("replay") => replay(&props, args.get(2).map_or("", |s| s.as_str())),
        Some("session") => {
            // Development aid: run the lines of standard input in the read-eval loop.
            let lines: Vec<String> = std::io::stdin().lines().map(|l| l.unwrap()).collect();
            capture::take();
            capture::start();
            let mut vm = vm::Vm::repl(&lines);
            vm.run_repl();
            vm::SESSION.with(|s| {
                for (i, t) in s.borrow().iter().enumerate() {
                    eprintln!("{:?}\n    -> {t:?}", if i == 0 { "" } else { lines.get(i - 1).map_or("", |l| l.as_str()) });
                }
            });
            eprintln!("stack {:?} floats {:?} error {:?}", vm.stack(), vm.fstack(), vm.err());
            0
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
                for f in &p.families {
                    println!("   {} {} {}", f.name, f.quick, f.thorough);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: harness check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
