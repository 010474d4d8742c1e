//! C12: every image a crash during a write can leave behind.
use super::fault::*;
use super::write::*;
use crate::dev::{Dev, Ev, Fault, FaultKind};
use crate::refm::*;
use crate::rep::*;
use crate::sm::*;
use gpt::disk::LogicalBlockSize::{Lb4096, Lb512};
use std::collections::{BTreeMap, HashSet};
use std::io::ErrorKind;
use uuid::Uuid;

const SEC: u64 = 512;

/// how far the images of one epoch are enumerated
#[derive(Clone, Copy)]
pub struct Depth {
    /// all combinations of sector versions up to this many; beyond it up to two sectors deviate
    /// from nothing written, everything written, and every prefix of the writes
    pub product: u64,
    /// torn writes are cut at every n-th byte that makes a difference
    pub cut: usize,
    /// a torn sector is combined with all states of the others up to this many
    pub torn_product: u64,
    /// beyond the limit: two deviations (else one)
    pub two: bool,
    /// beyond the limit: deviations from every n-th prefix
    pub every: usize,
}

struct Epoch {
    /// sector -> the contents it has one after the other (first: durable before)
    chains: BTreeMap<u64, Vec<Vec<u8>>>,
    /// per write: sector -> position in its chain afterwards
    after: Vec<BTreeMap<u64, usize>>,
    /// sector contents in the middle of a write: (write, sector, content)
    torn: Vec<(usize, u64, Vec<u8>)>,
}

fn epoch(dev: &Dev, writes: &[(u64, &[u8])], cut: usize) -> (Epoch, Dev) {
    let mut cur = dev.clone();
    let mut e = Epoch { chains: BTreeMap::new(), after: vec![], torn: vec![] };
    let mut at: BTreeMap<u64, usize> = BTreeMap::new();
    let size = dev.size();
    for (wi, (off, data)) in writes.iter().enumerate() {
        let end = off + data.len() as u64;
        for s in off / SEC..=(end - 1) / SEC {
            let (a, b) = (s * SEC, ((s + 1) * SEC).min(size));
            let old = cur.peek(a, (b - a) as usize).unwrap();
            let mut new = old.clone();
            let (x, y) = ((*off).max(a), end.min(b));
            new[(x - a) as usize..(y - a) as usize].copy_from_slice(&data[(x - off) as usize..(y - off) as usize]);
            if new == old {
                continue;
            }
            // a prefix, or a suffix, of this write's part of the sector
            let diff: Vec<usize> = (0..new.len()).filter(|i| new[*i] != old[*i]).collect();
            for (k, i) in diff.iter().enumerate() {
                if k > 0 && (k % cut == 0 || k + 1 == diff.len()) {
                    let mut t = old.clone();
                    t[..*i].copy_from_slice(&new[..*i]);
                    e.torn.push((wi, s, t));
                    let mut t = new.clone();
                    t[..*i].copy_from_slice(&old[..*i]);
                    e.torn.push((wi, s, t));
                }
            }
            let c = e.chains.entry(s).or_insert_with(|| vec![old]);
            c.push(new);
            at.insert(s, c.len() - 1);
        }
        cur.poke(*off, data);
        e.after.push(at.clone());
    }
    (e, cur)
}

/// call f with every distinct image a crash during these device events can leave
pub fn crash_images(start: &Dev, log: &[Ev], d: Depth, f: &mut dyn FnMut(&mut Dev, &dyn Fn() -> String)) {
    let mut base = start.clone();
    base.reset();
    f(&mut base, &|| "before the first write".into());
    let mut i = 0;
    let mut no = 0;
    while i < log.len() {
        let mut writes: Vec<(u64, &[u8])> = vec![];
        while i < log.len() {
            match &log[i] {
                Ev::Write { off, data } => writes.push((*off, data)),
                Ev::Flush => {
                    i += 1;
                    break;
                }
            }
            i += 1;
        }
        if writes.is_empty() {
            continue;
        }
        no += 1;
        let (e, next) = epoch(&base, &writes, d.cut);
        one_epoch(&base, &e, d, no, f);
        base = next;
    }
}

fn one_epoch(base: &Dev, e: &Epoch, d: Depth, no: usize, f: &mut dyn FnMut(&mut Dev, &dyn Fn() -> String)) {
    let secs: Vec<u64> = e.chains.keys().copied().collect();
    let lens: Vec<usize> = secs.iter().map(|s| e.chains[s].len()).collect();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut img = base.clone();
    let put = |img: &mut Dev, pick: &[usize]| {
        for (k, s) in secs.iter().enumerate() {
            img.poke(s * SEC, &e.chains[s][pick[k]]);
        }
    };
    // equal contents have equal names
    let names: Vec<Vec<usize>> =
        secs.iter().map(|s| e.chains[s].iter().map(|c| e.chains[s].iter().position(|x| x == c).unwrap()).collect()).collect();
    let key = |pick: &[usize], torn: Option<(usize, &[u8])>| {
        let v: Vec<usize> = (0..secs.len()).map(|k| if torn.is_some_and(|t| t.0 == k) { usize::MAX } else { names[k][pick[k]] }).collect();
        h64(&(v, torn))
    };
    let product = |cap: u64, skip: Option<usize>| -> u64 {
        let mut p = 1u64;
        for (k, l) in lens.iter().enumerate() {
            if Some(k) != skip {
                p = p.saturating_mul(*l as u64);
            }
            if p > cap {
                return u64::MAX;
            }
        }
        p
    };
    // 1. whole sectors
    let zero = vec![0usize; secs.len()];
    let full: Vec<usize> = lens.iter().map(|l| l - 1).collect();
    let prefix = |w: usize| -> Vec<usize> { secs.iter().map(|s| e.after[w].get(s).copied().unwrap_or(0)).collect() };
    let mut picks: Vec<Vec<usize>> = vec![];
    if product(d.product, None) <= d.product {
        all_picks(&lens, None, &zero, &mut picks);
    } else {
        let mut bases = vec![zero.clone(), full.clone()];
        for w in 0..e.after.len() {
            let p = prefix(w);
            if bases.last() != Some(&p) {
                bases.push(p);
            }
        }
        for (bi, b) in bases.iter().enumerate() {
            picks.push(b.clone());
            if bi >= 2 && bi % d.every != 0 {
                continue;
            }
            for x in 0..secs.len() {
                for vx in 0..lens[x] {
                    let mut p = b.clone();
                    p[x] = vx;
                    picks.push(p.clone());
                    // two deviations from the two extremes only
                    if bi < 2 && d.two {
                        for y in 0..x {
                            for vy in 0..lens[y] {
                                let mut q = p.clone();
                                q[y] = vy;
                                picks.push(q);
                            }
                        }
                    }
                }
            }
        }
    }
    for p in &picks {
        if seen.insert(key(p, None)) {
            put(&mut img, p);
            f(&mut img, &|| format!("epoch {no}: sectors {secs:?} in versions {p:?} of {full:?}"));
        }
    }
    // 2. one sector torn in the middle of a write
    for (w, s, t) in &e.torn {
        let k = secs.iter().position(|x| x == s).unwrap();
        let mut picks: Vec<Vec<usize>> = vec![];
        if product(d.torn_product, Some(k)) <= d.torn_product {
            all_picks(&lens, Some(k), &zero, &mut picks);
        } else {
            picks.push(zero.clone());
            picks.push(full.clone());
            picks.push(prefix(*w));
            if *w > 0 {
                picks.push(prefix(*w - 1));
            }
        }
        for p in &picks {
            if seen.insert(key(p, Some((k, t)))) {
                put(&mut img, p);
                img.poke(s * SEC, t);
                f(&mut img, &|| format!("epoch {no}: sector {s} torn in write {w}, sectors {secs:?} in versions {p:?} of {full:?}"));
            }
        }
    }
}
fn all_picks(lens: &[usize], skip: Option<usize>, start: &[usize], out: &mut Vec<Vec<usize>>) {
    let mut p = start.to_vec();
    loop {
        out.push(p.clone());
        let mut k = 0;
        loop {
            if k == lens.len() {
                return;
            }
            if Some(k) != skip {
                p[k] += 1;
                if p[k] < lens[k] {
                    break;
                }
                p[k] = 0;
            }
            k += 1;
        }
    }
}

/// what an open shows
#[derive(Clone)]
pub struct Shown {
    pub parts: Parts,
    pub guid: Uuid,
}
/// the verdict on one crash image
pub fn judge(img: &mut Dev, cfg: Cfg, old: &[Shown], new: &(Vec<gpt::partition::Partition>, Uuid)) -> Result<bool, String> {
    let d = match lib(|| cfg.gpt().open_from_device(img)) {
        Err(p) => return Err(format!("the library panicked: {p}")),
        Ok(Err(e)) => return Err(format!("the device does not open any more: {}", ekind(&e))),
        Ok(Ok(d)) => d,
    };
    if old.iter().any(|o| *d.guid() == o.guid && *d.partitions() == o.parts) {
        return Ok(false);
    }
    match shows(&d, &new.0, &new.1) {
        Ok(()) => Ok(true),
        Err(m) => Err(format!("neither the old table nor the new one: {m}")),
    }
}

pub struct Start {
    pub name: String,
    pub dev: Dev,
    pub cfg: Cfg,
    pub create: bool,
}

pub fn starts(deep: bool) -> Vec<Start> {
    let mut v: Vec<Start> = vec![];
    let mut push = |name: String, dev: Dev, cfg: Cfg, create: bool| v.push(Start { name, dev, cfg, create });
    let mut bs = bases(deep);
    bs.insert(0, Base::of("one entry", small(1).build(), Lb512));
    for b in &bs {
        let cfg = Cfg::rw(b.lb);
        push(b.name.clone(), b.dev.clone(), cfg, false);
        push(format!("{} growing", b.name), b.dev.clone(), cfg.growing(), false);
        push(format!("{} strict", b.name), b.dev.clone(), cfg.strict(), false);
        push(format!("{} new table", b.name), b.dev.clone(), cfg, true);
        for what in ["primary header", "backup header", "primary array", "backup array", "primary copy"] {
            let mut d = b.dev.clone();
            if b.name != "one entry" || !what.contains("copy") {
                damage(&mut d, b.lb, what);
                push(format!("{} with damaged {what}", b.name), d, cfg, false);
            }
        }
        let lbsz = lbs(b.lb);
        for g in [1, lbsz, 5 * lbsz + 3, 50 * lbsz] {
            let mut d = b.dev.clone();
            let s = d.size();
            d.resize(s + g, 0x3C);
            push(format!("{} grown by {g}", b.name), d, cfg, false);
        }
        for g in [1, lbsz] {
            let mut d = b.dev.clone();
            let s = d.size();
            d.resize(s - g, 0);
            push(format!("{} shrunk by {g}", b.name), d, cfg, false);
        }
    }
    // both copies good but different
    for lb in [Lb512, Lb4096] {
        let i = plain(lb);
        let mut j = i.clone();
        j.guid = fixed_guid(88);
        j.entries.truncate(1);
        let mut d = i.build();
        let other = j.build();
        let off = j.headers().1.pstart * lbs(lb);
        d.poke(off, &other.peek(off, (d.size() - off) as usize).unwrap());
        push(format!("copies differ {}", lbs(lb)), d.clone(), Cfg::rw(lb), false);
        for what in ["primary header", "primary array", "backup header"] {
            let mut d = d.clone();
            damage(&mut d, lb, what);
            push(format!("copies differ {} with damaged {what}", lbs(lb)), d, Cfg::rw(lb), false);
        }
    }
    for (n, d, c) in super::alloc::foreign_images() {
        if c.writable && !c.ro_backup && !c.strict && d.is_flat() {
            push(format!("foreign {n}"), d, c, false);
        }
    }
    for np in [1u32, 2, 127, 129, 160] {
        push(format!("count {np}"), counted(np).build(), Cfg::rw(Lb512).growing(), false);
    }
    v
}

pub fn programs(lb: u64) -> Vec<Vec<Op>> {
    vec![
        vec![],
        vec![Op::SetGuid(1)],
        vec![add(lb, None)],
        vec![Op::Remove(1)],
        vec![Op::Take],
        vec![Op::Update(Preset::Fancy)],
        vec![Op::Update(Preset::ShiftUp), Op::SetGuid(2)],
        vec![Op::Update(Preset::Room(9)), Op::Remove(2)],
        vec![Op::Update(Preset::Room(128)), Op::SetGuid(3)],
        vec![Op::Update(Preset::Room(150))],
        vec![Op::Update(Preset::Many(130)), Op::Remove(130)],
    ]
}

/// edit, then write with a log; None when the disk does not open or the write is refused
struct Written {
    old: Shown,
    new: (Vec<gpt::partition::Partition>, Uuid),
    log: Vec<Ev>,
    edited: gpt::GptDisk<Dev>,
    done: bool,
}
fn run_write(dev: &Dev, cfg: Cfg, create: bool, ops: &[Op], old: Shown) -> Option<Written> {
    let mut d = dev.clone();
    d.reset();
    let disk = if create {
        lib(|| cfg.gpt().create_from_device(d, Some(fixed_guid(7)))).ok()?.ok()?
    } else {
        open(d, cfg).ok()?
    };
    let mut run = Run { cfg, writable: true, disk: Some(disk) };
    for o in ops {
        run.apply(*o);
    }
    let edited = run.disk.clone().unwrap();
    let disk = run.disk.as_mut().unwrap();
    let new = (renumbered(disk.partitions()), *disk.guid());
    disk.device_mut().reset();
    disk.device_mut().log = Some(vec![]);
    let done = write(disk).is_ok();
    let log = disk.device_mut().log.take().unwrap();
    Some(Written { old, new, log, edited, done })
}
pub fn default_open(dev: &Dev, cfg: Cfg) -> Option<Shown> {
    let mut cfg = cfg;
    cfg.strict = false;
    let d = open(dev.clone(), cfg).ok()?;
    Some(Shown { parts: d.partitions().clone(), guid: *d.guid() })
}

pub fn c12(deep: bool) -> Report {
    let mut r = Report::new(
        "model_checking",
        "states are the distinct device images a crash can leave: per flush epoch every combination of the versions of the sectors written in it (all combinations up to a limit, beyond it up to two deviations), every write torn at every byte, from either end; every image is opened by the real code and judged against the old and the new table. For small tables the same again from every such image (a second crash), and from every image a failed device operation leaves (a repeated write)",
    );
    let depth = if deep {
        Depth { product: 1 << 11, cut: 2, torn_product: 16, two: true, every: 2 }
    } else {
        Depth { product: 1 << 9, cut: 12, torn_product: 4, two: false, every: 16 }
    };
    let ss = starts(deep);
    let mut items = vec![];
    for (i, s) in ss.iter().enumerate() {
        for p in programs(lbs(s.cfg.lb())) {
            items.push((i, p));
        }
    }
    let states = std::sync::atomic::AtomicU64::new(0);
    let add = |n: u64| {
        states.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
    };
    // 1. one crash
    par(&mut r, &items, |c, (i, ops)| {
        let s = &ss[*i];
        let case = format!("{:?} ({:?}, create={}), edits {ops:?}", s.name, s.cfg, s.create);
        c.begin(&case);
        let Some(old) = default_open(&s.dev, s.cfg) else {
            c.outcome("does not open");
            return;
        };
        let Some(w) = run_write(&s.dev, s.cfg, s.create, ops, old) else {
            c.outcome("does not open in this configuration");
            return;
        };
        c.outcome(if w.done { "write" } else { "refused write" });
        let olds = [w.old.clone()];
        let mut n = 0u64;
        let mut bad = 0;
        crash_images(&s.dev, &w.log, depth, &mut |img, what| {
            n += 1;
            if bad > 2 {
                return;
            }
            c.eval();
            if n % 256 == 0 {
                c.begin(&case);
            }
            let mut cfg = s.cfg;
            cfg.strict = false;
            match judge(img, cfg, &olds, &w.new) {
                Ok(true) => c.outcome("new table"),
                Ok(false) => c.outcome("old table"),
                Err(m) => {
                    bad += 1;
                    c.violation(m, format!("{case}; {}", what()));
                }
            }
        });
        // without a crash, the new table
        if w.done {
            let mut e = w.edited.clone();
            let _ = write(&mut e);
            if let Err(m) = judge(e.device_mut(), Cfg { strict: false, ..s.cfg }, &[], &w.new) {
                c.violation(m, format!("{case}; no crash"));
            }
        }
        c.seen(h64(&case));
        add(n);
        c.sample(|| format!("{case}: {} device events, {n} images", w.log.len()));
    });
    let n0 = r.evals;
    r.parts.push((format!("one crash, {} writes", items.len()), n0));
    // 2. a failed write, repeated, then a crash
    let mut again = vec![];
    for (i, s) in ss.iter().enumerate() {
        let small = s.dev.size() < 10_000;
        if small || deep && s.name.starts_with("plain") {
            for (k, p) in programs(lbs(s.cfg.lb())).into_iter().enumerate() {
                if k < 7 && (deep || k != 4) {
                    again.push((i, p));
                }
            }
        }
    }
    par(&mut r, &again, |c, (i, ops)| {
        let s = &ss[*i];
        let case = format!("{:?} ({:?}, create={}), edits {ops:?}", s.name, s.cfg, s.create);
        c.begin(&case);
        let Some(old) = default_open(&s.dev, s.cfg) else { return };
        let Some(w) = run_write(&s.dev, s.cfg, s.create, ops, old) else { return };
        if !w.done {
            return;
        }
        let olds = [w.old.clone()];
        let cfg = Cfg { strict: false, ..s.cfg };
        let nops = {
            let mut e = w.edited.clone();
            e.device_mut().reset();
            let _ = write(&mut e);
            e.device_ref().nops
        };
        let mut imgs: HashSet<u64> = HashSet::new();
        for at in 0..nops {
            for kind in [FaultKind::Fail(ErrorKind::Other), FaultKind::TornFail] {
                let mut e = w.edited.clone();
                e.device_mut().reset();
                e.device_mut().faults.push(Fault { at, onwards: false, kind });
                if write(&mut e).is_ok() {
                    continue;
                }
                e.device_mut().reset();
                let from = e.device_ref().clone();
                e.device_mut().log = Some(vec![]);
                let ok = write(&mut e);
                let log = e.device_mut().log.take().unwrap();
                if let Err(x) = ok {
                    c.violation(format!("the repeated write fails: {x}"), format!("{case}; operation {at} of the first write fails ({kind:?})"));
                }
                let mut n = 0;
                crash_images(&from, &log, Depth { product: 256, cut: 7, torn_product: 4, two: false, every: 4 }, &mut |img, what| {
                    if !imgs.insert(h64(img.bytes())) {
                        return;
                    }
                    n += 1;
                    c.eval();
                    if n % 256 == 0 {
                        c.begin(&case);
                    }
                    if let Err(m) = judge(img, cfg, &olds, &w.new) {
                        c.violation(m, format!("{case}; operation {at} of the first write fails ({kind:?}), repeated and crashed: {}", what()));
                    }
                });
                add(n);
                if stopped() {
                    return;
                }
            }
        }
        c.outcome("repeated write");
    });
    let n1 = r.evals;
    r.parts.push((format!("crash in a repeated write, {} writes", again.len()), n1 - n0));
    // 3. a second crash, from every image of the first
    let (d1, d2) = if deep {
        (Depth { product: 512, cut: 5, torn_product: 8, two: false, every: 4 }, Depth { product: 512, cut: 9, torn_product: 4, two: false, every: 4 })
    } else {
        (Depth { product: 128, cut: 16, torn_product: 4, two: false, every: 4 }, Depth { product: 128, cut: 24, torn_product: 2, two: false, every: 4 })
    };
    let progs: Vec<Vec<Op>> = vec![
        vec![],
        vec![Op::SetGuid(4)],
        vec![Op::Remove(1)],
        vec![Op::Update(Preset::Single5), Op::SetGuid(5)],
        vec![Op::Update(Preset::ShiftUp)],
        vec![Op::Take],
    ];
    let mut firsts = vec![];
    for s in &ss {
        if s.dev.size() < 10_000 && (s.name.starts_with("four") || deep) {
            for p in &progs {
                firsts.push((s, p));
            }
        }
    }
    let lvl: std::sync::Mutex<BTreeMap<u64, (Dev, Cfg, String)>> = Default::default();
    par(&mut r, &firsts, |c, (s, ops)| {
        let Some(old) = default_open(&s.dev, s.cfg) else { return };
        let Some(w) = run_write(&s.dev, s.cfg, s.create, ops, old) else { return };
        crash_images(&s.dev, &w.log, d1, &mut |img, what| {
            let k = h64(&(img.bytes(), s.cfg.grow));
            lvl.lock().unwrap().entry(k).or_insert_with(|| (img.clone(), Cfg { strict: false, ..s.cfg }, format!("{:?} edits {ops:?} crashed: {}", s.name, what())));
        });
        c.outcome("first crash");
    });
    let lvl: Vec<(Dev, Cfg, String)> = lvl.into_inner().unwrap().into_values().collect();
    r.parts.push(("images after a first crash".into(), lvl.len() as u64));
    par(&mut r, &lvl, |c, (dev, cfg, name)| {
        c.begin(name);
        let Some(old) = default_open(dev, *cfg) else {
            c.violation("the device does not open any more", name.clone());
            return;
        };
        for ops in &progs {
            let Some(w) = run_write(dev, *cfg, false, ops, old.clone()) else { continue };
            let olds = [w.old.clone()];
            let mut n = 0;
            crash_images(dev, &w.log, d2, &mut |img, what| {
                n += 1;
                c.eval();
                if let Err(m) = judge(img, *cfg, &olds, &w.new) {
                    c.violation(m, format!("{name}; then edits {ops:?} crashed: {}", what()));
                }
            });
            add(n);
            c.seen((h64(dev.bytes()), h64(&format!("{ops:?}"))));
            if stopped() {
                return;
            }
        }
    });
    r.parts.push(("second crash".into(), r.evals - n1));
    r.states = states.into_inner();
    r.transitions = r.evals;
    r.traces = r.evals;
    r.assumptions.push("the device loses or keeps whole 512-byte sectors except for the one torn write, and keeps everything written before a successful flush");
    r
}
