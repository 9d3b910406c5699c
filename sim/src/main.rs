//! yamlsim: deterministic simulation of programs that live on yaml-subset.
mod alloc;
mod c01;
mod c02;
mod c03;
mod reader;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod sched;
mod zygote;
mod fault;
mod pull;
mod typed;
mod core;
mod gen;
mod model;
mod parent;
mod props;
mod rng;
mod shrink;
mod text;
mod world;

pub use simclock as cov;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    core::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    // the runs of C09 ask a process in which nothing ever ran
    let c09 = args.iter().any(|a| a == "C09");
    if c09 || matches!(args.get(1).map(|s| s.as_str()), Some("exec" | "replay" | "shrink")) {
        zygote::start(c09::answer);
    }
    let arg = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
    };
    let num = |k: &str, d: u64| arg(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => parent::check(
            &arg("--prop").unwrap_or_default(),
            num("--seed", 1),
            &arg("--tier").unwrap_or("quick".into()),
            arg("--runs").and_then(|x| x.parse().ok()),
            num("--workers", 8),
            &arg("--verif").unwrap_or("/verif".into()),
        ),
        Some("worker") => parent::worker(&parent::Shard {
            prop: arg("--prop").unwrap_or_default(),
            seed: num("--seed", 1),
            from: num("--from", 0),
            to: num("--to", 0),
            stride: num("--stride", 1),
            cap: num("--cap", 600),
            out: arg("--out"),
        }),
        Some("exec") => parent::exec_file(args.get(2).map(|s| s.as_str()).unwrap_or(""), false),
        Some("replay") => parent::exec_file(args.get(2).map(|s| s.as_str()).unwrap_or(""), true),
        Some("plan") => parent::print_plan(
            &arg("--prop").unwrap_or_default(),
            num("--seed", 1),
            num("--idx", 0),
        ),
        Some("shrink") => shrink::main(&args[2], &args[3], num("--cap", 60)),
        Some("selftest") => parent::selftest(num("--runs", 400), num("--seeds", 3)),
        _ => {
            eprintln!("usage: yamlsim check|worker|exec|replay|plan|shrink|selftest ...");
            2
        }
    };
    std::process::exit(code);
}
