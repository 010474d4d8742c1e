mod dev;
mod io;
mod props;
mod refm;
mod rep;
mod sm;
mod types;

use rep::*;
use std::sync::atomic::Ordering;
use std::time::Duration;

/// the largest allocation of this thread since it was last reset
pub struct Watch;
thread_local! {
    pub static PEAK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
unsafe impl std::alloc::GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.size())));
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.size())));
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = PEAK.try_with(|p| p.set(p.get().max(n)));
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Watch = Watch;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let prop = args.first().cloned().unwrap_or_default();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    T0.store(now_ms(), Ordering::SeqCst);
    if prop == "transcript" && args.len() == 4 {
        QUIET.store(true, Ordering::SeqCst);
        hook_panics();
        std::process::exit(props::logging::other_side(&args[1], &args[2], args[3] == "deep"));
    }
    let known = props::all().iter().any(|(n, _)| *n == prop);
    if !known {
        eprintln!("usage: gptmc <property>");
        std::process::exit(2);
    }
    if std::env::var("GPTMC_BOARD").is_err() && std::env::var("GPTMC_NOFORK").is_err() {
        std::process::exit(supervise(&root, &prop, tier, seed));
    }
    if let Ok(b) = std::env::var("GPTMC_BOARD") {
        use_board(map_board(&b, false));
    }
    // nothing goes on when the one who asked is gone
    if std::env::var("GPTMC_BOARD").is_ok() {
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    }
    // a runaway allocation must fail here, not take the machine down
    unsafe {
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    QUIET.store(std::env::var("GPTMC_LOUD").is_err(), Ordering::SeqCst);
    hook_panics();
    let f = props::all().into_iter().find(|(n, _)| *n == prop).unwrap().1;
    let rep = f(tier == "thorough");
    std::process::exit(finish(&root, &prop, tier, seed, rep));
}

/// run the check in a child process; a child that dies or hangs in the middle of a case has
/// found a violation
fn supervise(root: &str, prop: &str, tier: &str, seed: i64) -> i32 {
    let dir = std::env::temp_dir().join(format!("gptmc-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let board = dir.join("board");
    let base = map_board(board.to_str().unwrap(), true);
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(std::env::args().skip(1))
        .env("GPTMC_BOARD", &board)
        .env("TMPDIR", &dir)
        .spawn()
        .expect("spawn");
    let code = loop {
        if let Some(st) = child.try_wait().expect("wait") {
            match st.code() {
                Some(c) => break c,
                None => {
                    // the child's own memory was killed by the system: no verdict
                    let why = format!("{st}");
                    if why.contains("SIGKILL") {
                        eprintln!("gptmc: killed from outside");
                        break 3;
                    }
                    let cases: Vec<String> = (0..NSLOT)
                        .map(|i| read_slot(base, i))
                        .filter(|(t, _)| *t != 0)
                        .map(|(_, s)| s)
                        .collect();
                    break died(root, prop, tier, seed, &format!("the process died ({why}) while running one of these cases"), &cases);
                }
            }
        }
        let now = now_ms();
        let hung: Vec<String> =
            (0..NSLOT).map(|i| read_slot(base, i)).filter(|(t, _)| *t != 0 && now > *t + HANG_MS).map(|(_, s)| s).collect();
        if !hung.is_empty() {
            let _ = child.kill();
            let _ = child.wait();
            break died(root, prop, tier, seed, "a case does not come to an end", &hung);
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn died(root: &str, prop: &str, tier: &str, seed: i64, msg: &str, cases: &[String]) -> i32 {
    let mut r = Report::new("exploration", "a case that ends the process or does not end is a violation");
    r.exhaustive = false;
    r.evals = 1;
    r.samples = cases.to_vec();
    r.viols.push(Viol { key: String::new(), msg: msg.into(), case: cases.join("\n") });
    finish(root, prop, tier, seed, r)
}
