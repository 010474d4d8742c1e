//! Running cases in parallel, watching over them, and reporting.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub const SLOT: usize = 16384;
pub const NSLOT: usize = 16;
/// one case may take this long before it counts as running away
pub const HANG_MS: u64 = 60_000;

static BOARD: AtomicUsize = AtomicUsize::new(0);

pub fn now_ms() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

/// memory shared with the supervising parent: what every worker is doing right now
pub fn map_board(path: &str, create: bool) -> usize {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path).expect("board");
    f.set_len((SLOT * NSLOT) as u64).expect("board size");
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            SLOT * NSLOT,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED, "mmap");
    p as usize
}
pub fn use_board(p: usize) {
    BOARD.store(p, Ordering::SeqCst);
}
pub fn read_slot(base: usize, i: usize) -> (u64, String) {
    unsafe {
        let p = (base + i * SLOT) as *const u8;
        let t = std::ptr::read_volatile(p as *const u64);
        let n = (std::ptr::read_volatile(p.add(8) as *const u64) as usize).min(SLOT - 16);
        let s = std::slice::from_raw_parts(p.add(16), n);
        (t, String::from_utf8_lossy(s).into_owned())
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// identifies a listed known finding
    pub key: String,
    pub msg: String,
    pub case: String,
}

/// What one worker saw.
pub struct Ctx {
    pub worker: usize,
    pub evals: u64,
    pub nontriv: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub guard_hits: BTreeMap<&'static str, u64>,
}
impl Ctx {
    pub fn new(worker: usize) -> Ctx {
        Ctx {
            worker,
            evals: 0,
            nontriv: HashSet::new(),
            outcomes: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            guard_hits: BTreeMap::new(),
        }
    }
    /// post what this worker is about to run (for hangs and aborts)
    pub fn begin(&self, case: &str) {
        let b = BOARD.load(Ordering::Relaxed);
        if b == 0 {
            return;
        }
        unsafe {
            let p = (b + self.worker % NSLOT * SLOT) as *mut u8;
            let n = case.len().min(SLOT - 16);
            std::ptr::write_volatile(p.add(8) as *mut u64, n as u64);
            std::ptr::copy_nonoverlapping(case.as_ptr(), p.add(16), n);
            std::ptr::write_volatile(p as *mut u64, now_ms());
        }
    }
    pub fn end(&self) {
        let b = BOARD.load(Ordering::Relaxed);
        if b != 0 {
            unsafe { std::ptr::write_volatile((b + self.worker % NSLOT * SLOT) as *mut u64, 0) }
        }
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn seen<T: Hash>(&mut self, t: T) {
        self.nontriv.insert(h64(&t));
    }
    pub fn outcome(&mut self, s: &str) {
        if let Some(n) = self.outcomes.get_mut(s) {
            *n += 1;
        } else {
            self.outcomes.insert(s.to_string(), 1);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
    pub fn violation(&mut self, msg: impl Into<String>, case: impl Into<String>) {
        self.violation_key("", msg, case)
    }
    pub fn violation_key(&mut self, key: &str, msg: impl Into<String>, case: impl Into<String>) {
        let v = Viol { key: key.into(), msg: msg.into(), case: case.into() };
        if v.key.is_empty() {
            STOP.store(self.viols.iter().filter(|v| v.key.is_empty()).count() >= 3, Ordering::Relaxed);
        }
        self.viols.push(v);
    }
    pub fn hit(&mut self, k: &'static str) {
        *self.guard_hits.entry(k).or_insert(0) += 1;
    }
}

/// set once enough violations are known
pub static STOP: AtomicBool = AtomicBool::new(false);
pub fn stopped() -> bool {
    STOP.load(Ordering::Relaxed)
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// The merged result of a check.
#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub nontriv: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub guard_hits: BTreeMap<&'static str, u64>,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub notes: Vec<String>,
    pub parts: Vec<(String, u64)>,
    pub level: &'static str,
    pub rule: &'static str,
    pub exhaustive: bool,
    pub assumptions: Vec<&'static str>,
}
impl Report {
    pub fn new(level: &'static str, rule: &'static str) -> Report {
        Report { level, rule, exhaustive: true, ..Default::default() }
    }
    pub fn merge(&mut self, c: Ctx) {
        self.evals += c.evals;
        self.nontriv.extend(c.nontriv);
        for (k, n) in c.outcomes {
            *self.outcomes.entry(k).or_insert(0) += n;
        }
        for (k, n) in c.guard_hits {
            *self.guard_hits.entry(k).or_insert(0) += n;
        }
        if self.samples.len() < 12 {
            self.samples.extend(c.samples);
        }
        self.viols.extend(c.viols);
    }
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8)
}

/// run f on every item, in parallel, in chunks
pub fn par<T: Sync, F: Fn(&mut Ctx, &T) + Sync>(rep: &mut Report, items: &[T], f: F) {
    let next = AtomicUsize::new(0);
    let out = Mutex::new(vec![]);
    let chunk = (items.len() / (workers() * 16)).clamp(1, 256);
    std::thread::scope(|s| {
        for w in 0..workers() {
            let (next, out, f) = (&next, &out, &f);
            s.spawn(move || {
                let mut c = Ctx::new(w);
                while !stopped() {
                    let i = next.fetch_add(chunk, Ordering::Relaxed);
                    if i >= items.len() {
                        break;
                    }
                    for it in &items[i..(i + chunk).min(items.len())] {
                        f(&mut c, it);
                    }
                }
                c.end();
                out.lock().unwrap().push(c);
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|c| c.worker);
    for c in v {
        rep.merge(c);
    }
}

pub static QUIET: AtomicBool = AtomicBool::new(true);
/// call into the library; a panic becomes Err(message)
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_LIB.with(|n| n.set(n.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|n| n.set(n.get() - 1));
    r.map_err(|e| {
        let loc = LAST_LOC.with(|l| l.borrow().clone());
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        format!("{m} at {loc}")
    })
}
thread_local! {
    static IN_LIB: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static LAST_LOC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn hook_panics() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_LOC.with(|x| *x.borrow_mut() = l);
        if !QUIET.load(Ordering::Relaxed) || IN_LIB.with(|n| n.get()) == 0 {
            eprintln!("{i}");
        }
    }));
}

pub static T0: AtomicU64 = AtomicU64::new(0);
pub fn elapsed() -> Duration {
    Duration::from_millis(now_ms() - T0.load(Ordering::Relaxed))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

pub struct Known {
    pub keys: BTreeMap<String, String>,
}
/// committed list of genuine, unrepaired defects: "finding: property=Cnn key=... what fails"
pub fn load_known(root: &str, prop: &str) -> Known {
    let mut keys = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
        for l in t.lines() {
            let Some(r) = l.strip_prefix("finding: property=") else { continue };
            let Some((p, r)) = r.split_once(" key=") else { continue };
            let Some((k, what)) = r.split_once(' ') else { continue };
            if p == prop {
                keys.insert(k.to_string(), what.to_string());
            }
        }
    }
    Known { keys }
}

/// print the verdict and write the evidence; returns the exit code
pub fn finish(root: &str, prop: &str, tier: &str, seed: i64, r: Report) -> i32 {
    let known = load_known(root, prop);
    let mut seen_known = BTreeSet::new();
    let mut bad: Vec<&Viol> = vec![];
    for v in &r.viols {
        if !v.key.is_empty() && known.keys.contains_key(&v.key) {
            seen_known.insert(v.key.clone());
        } else {
            bad.push(v);
        }
    }
    bad.sort_by_key(|v| (v.case.len(), v.case.clone()));
    for (k, what) in &known.keys {
        if seen_known.contains(k) {
            println!("KNOWN-FINDING: property={prop} {what}");
        } else {
            println!("note: listed finding {k} of {prop} did not show up in this run");
        }
    }
    println!(
        "{prop} {tier}: evaluations={} distinct_nontrivial={} states={} transitions={} traces={} wall={:.1}s",
        r.evals,
        r.nontriv.len(),
        r.states,
        r.transitions,
        r.traces,
        elapsed().as_secs_f64()
    );
    for (n, c) in &r.parts {
        println!("  {n}: {c}");
    }
    for n in &r.notes {
        println!("  {n}");
    }
    let oc: Vec<String> = r.outcomes.iter().map(|(k, n)| format!("{k}={n}")).collect();
    println!("  outcomes: {}", clip(&oc.join(" "), 1500));
    let ex: Vec<String> = r.guard_hits.iter().map(|(k, n)| format!("{k}={n}")).collect();
    if !ex.is_empty() {
        println!("  exercised: {}", ex.join(" "));
    }
    let mut code = 0;
    if let Some(v) = bad.first() {
        code = 1;
        let dir = format!("{root}/replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}.txt");
        let mut t = format!("property {prop}\n{} violation(s); the shortest:\n\n{}\n\ncase:\n{}\n", bad.len(), v.msg, v.case);
        for v in bad.iter().skip(1).take(9) {
            t.push_str(&format!("\n---\n{}\ncase:\n{}\n", v.msg, v.case));
        }
        let _ = std::fs::write(&path, t);
        println!("{}", clip(&v.msg, 2000));
        println!("case: {}", clip(&v.case, 2000));
        println!("VIOLATION property={prop} replay={path}");
    }
    let mut cov = vec![];
    if r.level == "model_checking" {
        cov.push(format!("\"states\": {}", r.states));
        cov.push(format!("\"transitions\": {}", r.transitions));
        cov.push(format!("\"traces_validated_against_impl\": {}", r.traces));
        if r.evals > 0 {
            cov.push(format!("\"enumerated_cases\": {}", r.evals));
        }
    } else {
        cov.push(format!("\"evaluations\": {}", r.evals));
        cov.push(format!("\"distinct_nontrivial\": {}", r.nontriv.len()));
        if r.transitions > 0 {
            cov.push(format!("\"states\": {}", r.states));
            cov.push(format!("\"transitions\": {}", r.transitions));
        }
    }
    cov.push(format!("\"rule\": {}", js(r.rule)));
    cov.push(format!("\"exhaustive\": {}", r.exhaustive && !stopped()));
    let sm: Vec<String> = r.samples.iter().take(12).map(|s| js(&clip(s, 600))).collect();
    cov.push(format!("\"samples\": [{}]", sm.join(", ")));
    let oc: Vec<String> = r.outcomes.iter().map(|(k, n)| format!("{}: {n}", js(k))).collect();
    cov.push(format!("\"outcomes\": {{{}}}", oc.join(", ")));
    let ps: Vec<String> = r.parts.iter().map(|(k, n)| format!("{}: {n}", js(k))).collect();
    cov.push(format!("\"spaces\": {{{}}}", ps.join(", ")));
    if !r.guard_hits.is_empty() {
        let ex: Vec<String> = r.guard_hits.iter().map(|(k, n)| format!("{}: {n}", js(k))).collect();
        cov.push(format!("\"exercised\": {{{}}}", ex.join(", ")));
    }
    if !r.notes.is_empty() {
        let ns: Vec<String> = r.notes.iter().map(|n| js(n)).collect();
        cov.push(format!("\"notes\": [{}]", ns.join(", ")));
    }
    let asm: Vec<String> = r.assumptions.iter().map(|a| js(a)).collect();
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": {},\n  \"coverage\": {{\n    {}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        js(prop),
        js(tier),
        js(r.level),
        cov.join(",\n    "),
        asm.join(", "),
        elapsed().as_secs_f64(),
        bad.len()
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{prop}.json"), ev).expect("evidence");
    code
}
