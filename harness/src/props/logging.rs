//! C27: what the crate does and says does not depend on whether its messages are compiled in or
//! listened to. The same transcript of histories, faults and calls is made by this binary and by
//! a second build of it with the crate's features `log` and `tracing`, without listeners, with a
//! listener to either, and with both.
use super::devfail::{calls, images, KINDS};
use super::alloc::{huge_ops, huge_worlds, padded_worlds};
use super::write::*;
use crate::dev::{Dev, Fault};
use super::fault::small;
use crate::rep::*;
use crate::sm::*;
use gpt::disk::LogicalBlockSize::{Lb4096, Lb512};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::Mutex;

/// messages seen and bytes of text made from them
#[cfg(feature = "logged")]
mod listen {
    use std::fmt::Write;
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    pub static RECORDS: AtomicU64 = AtomicU64::new(0);
    struct Sink;
    impl log::Log for Sink {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            // panics if it cannot be formatted
            let _ = r.args().to_string();
            RECORDS.fetch_add(1, Relaxed);
        }
        fn flush(&self) {}
    }
    struct Text(String);
    impl tracing::field::Visit for Text {
        fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
            write!(self.0, "{f}={v:?}").expect("a message that can be formatted");
        }
    }
    impl tracing::Subscriber for Sink {
        fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
            tracing::span::Id::from_u64(1)
        }
        fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
        fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
        fn event(&self, e: &tracing::Event<'_>) {
            let mut t = Text(String::new());
            e.record(&mut t);
            RECORDS.fetch_add(1, Relaxed);
        }
        fn enter(&self, _: &tracing::span::Id) {}
        fn exit(&self, _: &tracing::span::Id) {}
    }
    pub fn start(mode: &str) {
        if mode == "log" || mode == "both" {
            log::set_logger(&Sink).expect("logger");
            log::set_max_level(log::LevelFilter::Trace);
        }
        if mode == "tracing" || mode == "both" {
            tracing::subscriber::set_global_default(Sink).expect("subscriber");
        }
    }
}

fn text(r: &Res) -> String {
    match r {
        // without the place in the source
        Res::Panic(p) => format!("panic: {}", p.split(" at ").next().unwrap()),
        r => format!("{r:?}"),
    }
}
/// every operation the device saw, by kind, and what is on it now
fn traffic(d: &Dev, random: bool) -> String {
    let k: Vec<u8> = d.kinds.iter().flatten().map(|k| *k as u8).collect();
    format!("{} device operations {:x}, {} writes of {} bytes, {} flushes, position {}, bytes {:x}", d.nops, h64(&k), d.writes, d.wbytes, d.flushes, d.pos(), if random || !d.is_flat() { 0 } else { h64(&d.bytes()) })
}

/// all cases with their outcome
fn transcript(deep: bool, r: &mut Report) -> BTreeMap<String, String> {
    let out = Mutex::new(BTreeMap::new());
    let put = |c: &mut Ctx, k: String, v: String| {
        c.eval();
        c.seen(h64(&k));
        out.lock().unwrap().insert(k, v);
    };
    // histories
    let mut ws = write_worlds(false);
    ws.extend(memory_worlds(2));
    ws.extend(padded_worlds(2));
    ws.extend(huge_worlds(huge_ops, 1));
    ws.extend(huge_worlds(|f, l| vec![add_at(1, f, 1), add_at(7, l, 1), add_at(2, f, l - f + 1), add_at(3, u64::MAX, 2), Op::Remove(1), Op::Update(Preset::OddUnused)], 2));
    let mut items: Vec<(usize, Vec<u16>)> = vec![];
    for (i, w) in ws.iter().enumerate() {
        let n = w.ops.len() as u16;
        items.push((i, vec![]));
        for a in 0..n {
            items.push((i, vec![a]));
            if w.depth < 2 {
                continue;
            }
            for b in 0..n {
                items.push((i, vec![a, b]));
                if deep && w.depth > 2 {
                    items.extend((0..n).map(|x| (i, vec![a, b, x])));
                }
            }
        }
    }
    let blank = Dev::zeros(8192);
    par(r, &items, |c, (i, h)| {
        let w = &ws[*i];
        let name = w.hist(h);
        c.begin(&name);
        let mut said = String::new();
        let done = lib(|| {
            let mut run = match w.start() {
                Ok(r) => r,
                Err(e) => {
                    said = e;
                    return;
                }
            };
            let mut random = false;
            for o in h {
                let op = w.ops[*o as usize];
                random |= matches!(op, Op::Add { .. } | Op::AddAt { .. } | Op::NewGuid);
                let Some(d) = run.disk.as_mut() else { break };
                d.device_mut().kinds = Some(vec![]);
                let x = run.apply(op);
                let _ = write!(said, "{} ", text(&x));
                c.outcome(&x.kind());
            }
            if let Some(d) = &run.disk {
                let _ = write!(said, "{:x} {}", canon(&Snap::of(d), if random { &blank } else { d.device_ref() }, w.cfg, run.writable), traffic(d.device_ref(), random));
                if !random {
                    let s = Snap::of(d);
                    let _ = write!(said, " {} {:?} free {:?} next {:?} align {}", s.brief(), s.guid, d.find_free_sectors(), d.find_next_partition_id(), d.calculate_alignment());
                }
            }
        });
        if let Err(p) = done {
            let _ = write!(said, "panic: {}", p.split(" at ").next().unwrap());
        }
        put(c, name, said);
    });
    r.parts.push(("histories".into(), items.len() as u64));
    // device failures while opening, editing and writing
    let imgs = images(deep);
    let ops = [None, Some(Op::Write), Some(Op::WriteConsume), Some(Op::Update(Preset::Seq(140))), Some(Op::Update(Preset::Same))];
    let mut items = vec![];
    for i in 0..imgs.len() {
        for op in ops {
            for grow in [false, true] {
                items.push((i, op, grow));
            }
        }
    }
    let n0 = r.evals;
    par(r, &items, |c, (i, op, grow)| {
        let (n, dev, lb, _) = &imgs[*i];
        let mut cfg = Cfg::rw(*lb);
        cfg.grow = *grow;
        let go = |f: &[Fault]| {
            let mut said = String::new();
            let mut dev = dev.clone();
            if op.is_none() {
                dev.faults = f.to_vec();
            }
            let p = lib(|| {
                let mut disk = match cfg.gpt().open_from_device(&mut dev) {
                    Ok(d) => d,
                    Err(e) => {
                        said = ekind(&e);
                        return;
                    }
                };
                if let Some(op) = op {
                    disk.device_mut().reset();
                    disk.device_mut().faults = f.to_vec();
                    let o = if *op == Op::WriteConsume { Op::Write } else { *op };
                    disk.update_guid(Some(fixed_guid(5)));
                    let r = edit(&mut disk, o);
                    let _ = write!(said, "{} ", text(&r));
                }
                let _ = write!(said, "{:?}", Snap::of(&disk));
            });
            if let Err(p) = p {
                let _ = write!(said, "panic: {}", p.split(" at ").next().unwrap());
            }
            let t = traffic(&dev, false);
            (format!("{:x} {t}", h64(&said)), dev.nops)
        };
        let (clean, nops) = go(&[]);
        let name = format!("{op:?} on {n} with {cfg:?}");
        c.begin(&name);
        put(c, name.clone(), clean);
        for at in 0..nops {
            for kind in KINDS {
                let f = [Fault { at, onwards: false, kind }];
                put(c, format!("{name}, {kind:?} at device operation {at}"), go(&f).0);
            }
        }
    });
    r.parts.push(("device failures".into(), r.evals - n0));
    // the functions below the disk object
    let n0 = r.evals;
    for i in [small(4), plain(Lb4096), plain(Lb512)] {
        let v = calls(&i);
        let dev = i.build();
        par(r, &v, |c, (n, f, _)| {
            let name = format!("{n} on {} bytes", dev.size());
            c.begin(&name);
            let go = |faults: &[Fault], pos: u64| {
                let mut d = dev.clone();
                d.reset();
                d.set_pos(pos);
                d.faults = faults.to_vec();
                let s = match lib(|| f(&mut d)) {
                    Ok(x) => format!("{x:?}"),
                    Err(p) => format!("panic: {}", p.split(" at ").next().unwrap()),
                };
                (format!("{:x} {}", h64(&s), traffic(&d, false)), d.nops)
            };
            for pos in [0, 777, 512] {
                let (clean, nops) = go(&[], pos);
                put(c, format!("{name} at {pos}"), clean);
                for at in 0..nops {
                    for kind in KINDS {
                        put(c, format!("{name} at {pos}, {kind:?} at device operation {at}"), go(&[Fault { at, onwards: false, kind }], pos).0);
                    }
                }
            }
        });
    }
    r.parts.push(("calls".into(), r.evals - n0));
    out.into_inner().unwrap()
}

/// the other side: write the transcript down
pub fn other_side(mode: &str, file: &str, deep: bool) -> i32 {
    #[cfg(feature = "logged")]
    listen::start(mode);
    let _ = mode;
    let mut r = Report::new("exploration", "");
    let t = transcript(deep, &mut r);
    let mut s = String::new();
    for (k, v) in t {
        let _ = writeln!(s, "{k}\t{v}");
    }
    #[cfg(feature = "logged")]
    let n = listen::RECORDS.load(std::sync::atomic::Ordering::Relaxed);
    #[cfg(not(feature = "logged"))]
    let n = 0u64;
    let _ = writeln!(s, "records\t{n}");
    std::fs::write(file, s).expect("transcript");
    0
}

pub fn c27(deep: bool) -> Report {
    let mut r = Report::new(
        "exploration",
        "every history of the write worlds to depth 2 (thorough: 3 where they are deeper), every single device failure of opening, editing and writing, every single device failure of the direct calls: results, device operations, bytes and the disk in memory, in a plain build and in a build with the features log and tracing, in the latter without listeners, with a listener to either and with both. distinct_nontrivial counts distinct cases",
    );
    let exe = match std::env::var("GPTMC_LOGGED") {
        Ok(e) => e,
        Err(_) => {
            eprintln!("gptmc: GPTMC_LOGGED does not name the build with messages");
            std::process::exit(2);
        }
    };
    // the build with messages fails in the crate itself: run.sh says so
    if let Ok(why) = std::env::var("GPTMC_LOGGED_BROKEN") {
        r.evals = 1;
        r.exhaustive = false;
        r.viols.push(Viol { key: String::new(), msg: format!("the crate does not build with the features log and tracing:\n{why}"), case: "cargo build --features log,tracing".into() });
        return r;
    }
    let want = transcript(deep, &mut r);
    for mode in ["off", "log", "tracing", "both"] {
        let mut c = Ctx::new(0);
        let f = std::env::temp_dir().join(format!("transcript-{mode}"));
        let st = std::process::Command::new(&exe)
            .args(["transcript", mode, f.to_str().unwrap(), if deep { "deep" } else { "quick" }])
            .env_remove("GPTMC_BOARD")
            .status()
            .expect("the build with messages");
        if !st.success() {
            c.violation(format!("with messages ({mode}) the process ends with {st}"), format!("transcript {mode}"));
            r.merge(c);
            continue;
        }
        let t = std::fs::read_to_string(&f).expect("transcript");
        let mut got: BTreeMap<&str, &str> = t.lines().filter_map(|l| l.split_once('\t')).collect();
        let n: u64 = got.remove("records").and_then(|n| n.parse().ok()).unwrap_or(0);
        r.parts.push((format!("messages heard, {mode}"), n));
        for (k, v) in &want {
            c.eval();
            if got.get(k.as_str()) != Some(&v.as_str()) {
                c.violation(format!("with messages ({mode}) this gives\n  {}\ninstead of\n  {}", clip(got.get(k.as_str()).unwrap_or(&"nothing"), 600), clip(v, 600)), k.clone());
                break;
            }
        }
        c.outcome(&format!("compared, {mode}"));
        r.merge(c);
    }
    r
}
