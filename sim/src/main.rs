//! tofas-sim check <ID> [--runs N] [--from N] [--workers N] [--log FILE]
//! tofas-sim replay <file>
mod check;
mod dict;
mod gen;
mod minimise;
mod plan;
mod sim;
mod tools;

#[global_allocator]
static ALLOC: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;

/// Exit status of a broken harness.
pub const HARNESS: i32 = 3;

pub fn harness_error(what: &str) -> ! {
    eprintln!("HARNESS ERROR: {}", what);
    simcore::raw::exit_now(HARNESS)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        // panics of library calls are outcomes; anything else is ours
        if simcore::rt::in_op() || i.payload().downcast_ref::<u32>().is_some() {
            return;
        }
        eprintln!("{}", i);
        harness_error("panic in the harness");
    }));
    unsafe {
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    let args: Vec<String> = std::env::args().collect();
    if std::env::var_os("SIM_PLACED").is_none() {
        // addresses must not vary from run to run
        use std::os::unix::process::CommandExt;
        if unsafe { libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong) } >= 0 {
            let _ = std::process::Command::new("/proc/self/exe").args(&args[1..]).env("SIM_PLACED", "1").exec();
        }
    }
    simcore::interpose::set_strings(&dict::strings());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() >= 3 => check::check(&args[2], &args[3..]),
        Some("echo") => tools::echo(),
        Some("dict") => {
            println!("{}", serde_json::to_string(&dict::dict().0).unwrap());
            0
        }
        Some("replay") if args.len() >= 3 => check::replay(&args[2]),
        _ => {
            eprintln!("usage: tofas-sim check ID | replay FILE");
            2
        }
    };
    std::process::exit(code)
}
