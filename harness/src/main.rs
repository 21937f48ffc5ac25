//! Runtime monitors for trane: `mon <PROPERTY> [quick|thorough]`, seed from VERIF_SEED.

mod checks;
mod ctx;
mod io;
mod lib_gen;
mod rng;
mod world;

use ctx::{Ctx, install_panic_hook, start_watchdog};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "__child") {
        checks::faults::child(args.get(2).map_or("", String::as_str));
    }
    if args.get(1).is_some_and(|a| a == "__shape") {
        checks::shapes::child(args.get(2).map_or("", String::as_str));
    }
    install_panic_hook();
    if args.get(1).is_some_and(|a| a == "__stress") {
        checks::threads::child(&args[2..]);
    }
    let pid = args.get(1).cloned().unwrap_or_default();
    let tier = args
        .get(2)
        .cloned()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let Some(f) = checks::find(&pid) else {
        println!("HARNESS-ERROR unknown check {pid:?}");
        std::process::exit(3);
    };
    start_watchdog(pid.clone(), 120.0);
    // The whole run happens on a thread with a generous stack: deep inputs are not the subject.
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut ctx = Ctx::new(&pid, &tier, seed);
            match ctx::guard(|| f(&mut ctx)) {
                Ok(()) => ctx.finish(),
                Err(p) => {
                    println!("HARNESS-ERROR {}: {}", p.location, p.message);
                    3
                }
            }
        })
        .expect("spawn")
        .join()
        .unwrap_or(3);
    std::process::exit(code);
}
