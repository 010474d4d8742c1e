//! Disks and tables reached by path: durability (C18) and agreement with devices (C25).
use super::alloc::foreign_images;
use super::crash::*;
use super::fault::bases;
use super::hand::{plainly, same_snap};
use super::write::*;
use crate::dev::{Dev, Ev};
use crate::io::{self, Rec};
use crate::refm::*;
use crate::rep::*;
use crate::sm::*;
use gpt::disk::LogicalBlockSize::{self, Lb4096, Lb512};
use gpt::header::{self, Header, HeaderBuilder};
use gpt::partition::{self, Partition};
use gpt::{DiskDevice, GptConfig, GptDisk, GptError};
use std::fs::File;
use std::path::{Path, PathBuf};
use uuid::Uuid;

/// a directory of this worker's own with nothing but the given file in it
struct Place {
    dir: PathBuf,
}
impl Place {
    fn new(worker: usize) -> Place {
        let dir = std::env::temp_dir().join(format!("gptmc-files-{}-{worker}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Place { dir }
    }
    fn file(&self) -> PathBuf {
        self.dir.join("disk.img")
    }
    fn put(&self, d: &Dev) -> PathBuf {
        let p = self.file();
        std::fs::write(&p, d.bytes()).expect("scratch file");
        p
    }
    fn list(&self) -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(&self.dir).expect("list").map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
        v.sort();
        v
    }
    fn clear(&self) {
        let _ = std::fs::remove_file(self.file());
        let _ = std::fs::remove_file(self.dir.join("other.img"));
    }
}
impl Drop for Place {
    fn drop(&mut self) {
        io::unwatch();
        self.clear();
        let _ = std::fs::remove_dir(&self.dir);
    }
}

fn kind(e: &GptError) -> String {
    flat(ekind(e))
}
/// devices and files word the errors of the machine differently
fn flat(s: String) -> String {
    match s.find("Io:") {
        Some(i) => s[..i + 2].to_string(),
        None => s,
    }
}
fn flat_res(r: Res) -> Res {
    match r {
        Res::Err(e) => Res::Err(flat(e)),
        r => r,
    }
}

fn path_disk(cfg: Cfg, create: bool, p: &Path) -> Result<GptDisk<File>, String> {
    match lib(|| if create { cfg.gpt().create(p) } else { cfg.gpt().open(p) }) {
        Ok(Ok(mut d)) => {
            if create {
                d.update_guid(Some(fixed_guid(7)));
            }
            Ok(d)
        }
        Ok(Err(e)) => Err(kind(&e)),
        Err(p) => Err(format!("panic: {p}")),
    }
}

// ---------------------------------------------------------------- C18

struct Done {
    rec: Rec,
    res: Result<(), String>,
    /// None if the write was given to another file
    new: (Vec<Partition>, Uuid),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Inplace,
    Consume,
    /// update_disk_device to a second file with the same contents
    Moved,
}
fn path_write(pl: &Place, s: &Start, ops: &[Op], how: How, fail: Option<(u32, bool, i32)>) -> Option<Done> {
    let p = pl.put(&s.dev);
    let mut d = path_disk(s.cfg, s.create, &p).ok()?;
    for o in ops {
        edit(&mut d, *o);
    }
    let mut watched = p.clone();
    if how == How::Moved {
        watched = pl.dir.join("other.img");
        std::fs::write(&watched, s.dev.bytes()).expect("scratch file");
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&watched).expect("scratch file");
        drop(d.update_disk_device(f, true));
    }
    let new = (renumbered(d.partitions()), *d.guid());
    io::watch(&watched);
    io::with(|r| r.fail = fail);
    let res = match how {
        How::Consume => lib(move || d.write().map(drop)),
        _ => lib(|| d.write_inplace()),
    };
    let rec = io::unwatch();
    let res = match res {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(kind(&e)),
        Err(p) => Err(format!("panic: {p}")),
    };
    Some(Done { rec, res, new })
}
/// bytes written after the last successful sync
fn unsynced(log: &[Ev]) -> u64 {
    log.iter().rev().take_while(|e| **e != Ev::Flush).map(|e| if let Ev::Write { data, .. } = e { data.len() as u64 } else { 0 }).sum()
}

pub fn c18(deep: bool) -> Report {
    let mut r = Report::new(
        "model_checking",
        "disks opened and created by path, on real files whose write and sync calls are seen and failed: after a successful write nothing is unsynced; every sync failing once, from there on, and interrupted; a state is a file image a crash of the machine can leave (per sync every combination of sector versions up to a limit, beyond it up to two deviations, writes torn at bytes), opened by the real code and judged against the old and the new table",
    );
    let depth = if deep {
        Depth { product: 1 << 9, cut: 16, torn_product: 4, two: false, every: 16 }
    } else {
        Depth { product: 1 << 7, cut: 32, torn_product: 2, two: false, every: 64 }
    };
    let ss: Vec<Start> = starts(deep).into_iter().filter(|s| s.cfg.writable && s.dev.is_flat()).collect();
    let mut items = vec![];
    for (i, s) in ss.iter().enumerate() {
        let ps = programs(lbs(s.cfg.lb()));
        let n = ps.len();
        for (k, p) in ps.into_iter().enumerate() {
            if deep || k < 4 || k == n - 1 {
                items.push((i, p));
            }
        }
    }
    let states = std::sync::atomic::AtomicU64::new(0);
    par(&mut r, &items, |c, (i, ops)| {
        let s = &ss[*i];
        let case = format!("file {:?} ({:?}, create={}), edits {ops:?}", s.name, s.cfg, s.create);
        c.begin(&case);
        let pl = Place::new(c.worker);
        let Some(old) = default_open(&s.dev, s.cfg) else {
            c.outcome("does not open");
            return;
        };
        let cfg = Cfg { strict: false, ..s.cfg };
        let olds = [old.clone()];
        let mut syncs = 0;
        for how in [How::Inplace, How::Consume, How::Moved] {
            let Some(d) = path_write(&pl, s, ops, how, None) else {
                c.outcome("does not open in this configuration");
                return;
            };
            c.eval();
            c.outcome(if d.res.is_ok() { "write" } else { "refused write" });
            let after = std::fs::read(if how == How::Moved { pl.dir.join("other.img") } else { pl.file() }).expect("scratch file");
            let mut seen = s.dev.clone();
            for e in &d.rec.log {
                if let Ev::Write { off, data } = e {
                    seen.poke(*off, data);
                }
            }
            if seen.bytes() != &after[..] {
                // written by other means than those watched: no verdict
                eprintln!("gptmc: the file was written by an unknown call");
                std::process::exit(3);
            }
            if d.res.is_ok() && unsynced(&d.rec.log) > 0 {
                c.violation(format!("{how:?}: write returned success with {} bytes not synchronised", unsynced(&d.rec.log)), case.clone());
            }
            if how == How::Inplace {
                syncs = d.rec.syncs;
            }
            let mut n = 0u64;
            let mut bad = 0;
            if how == How::Inplace || deep {
                crash_images(&s.dev, &d.rec.log, depth, &mut |img, what| {
                    n += 1;
                    if bad > 1 {
                        return;
                    }
                    if n % 256 == 0 {
                        c.begin(&case);
                    }
                    c.eval();
                    match judge(img, cfg, &olds, &d.new) {
                        Ok(true) => c.outcome("new table"),
                        Ok(false) => c.outcome("old table"),
                        Err(m) => {
                            bad += 1;
                            c.violation(m, format!("{case}; {how:?}; {}", what()));
                        }
                    }
                });
                states.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
            }
            if how == How::Inplace {
                c.sample(|| format!("{case}: {} writes and syncs, {n} images", d.rec.log.len()));
            }
        }
        for n in 0..syncs {
            for (onwards, e) in [(false, libc::EIO), (true, libc::EIO), (false, libc::ENOSPC), (false, libc::EINTR), (false, libc::EINVAL)] {
                for how in [How::Inplace, How::Consume, How::Moved] {
                    if !deep && (how != How::Inplace && e != libc::EIO) {
                        continue;
                    }
                    let Some(d) = path_write(&pl, s, ops, how, Some((n, onwards, e))) else { continue };
                    c.eval();
                    if d.rec.failed == 0 {
                        continue;
                    }
                    c.hit("failed syncs");
                    let what = || format!("{case}; sync {n} fails with errno {e}, onwards={onwards}, {how:?}");
                    if d.res.is_ok() && (e != libc::EINTR || unsynced(&d.rec.log) > 0) {
                        c.violation("a failing sync was not reported", what());
                        return;
                    }
                    if e == libc::EIO && how == How::Inplace {
                        let mut bad = 0;
                        crash_images(&s.dev, &d.rec.log, Depth { product: 1 << 6, cut: 64, torn_product: 1, two: false, every: 64 }, &mut |img, w| {
                            if bad > 0 {
                                return;
                            }
                            c.eval();
                            if let Err(m) = judge(img, cfg, &olds, &d.new) {
                                bad += 1;
                                c.violation(m, format!("{}, then a crash: {}", what(), w()));
                            }
                        });
                    }
                }
            }
        }
        c.seen(h64(&case));
    });
    r.parts.push(("writes by path".into(), items.len() as u64));
    r.states = states.into_inner();
    r.transitions = r.evals;
    r.traces = items.len() as u64;
    r.assumptions.push("a crash of the machine keeps what was written before a successful fsync or fdatasync (or by a descriptor opened for synchronous writing), and loses or keeps whole 512-byte sectors of the rest except for one torn write");
    r.assumptions.push("the file's own metadata (size, allocation) is not at stake: a write never changes the length");
    r
}

// ---------------------------------------------------------------- C25

fn contents(deep: bool) -> Vec<(String, Dev, LogicalBlockSize)> {
    let mut v: Vec<(String, Dev, LogicalBlockSize)> = vec![];
    for b in bases(deep) {
        for what in ["", "primary header", "backup header", "primary array", "backup array", "primary copy"] {
            if !deep && !what.is_empty() && !b.name.starts_with("plain") {
                continue;
            }
            let mut d = b.dev.clone();
            if !what.is_empty() {
                damage(&mut d, b.lb, what);
            }
            v.push((format!("{} damaged {what:?}", b.name), d, b.lb));
        }
        let mut d = b.dev.clone();
        let n = d.size();
        d.resize(n + 5 * 512 + 3, 0x3C);
        v.push((format!("{} grown", b.name), d, b.lb));
        let mut d = b.dev.clone();
        d.resize(n - 1, 0);
        v.push((format!("{} cut", b.name), d, b.lb));
        let mut d = b.dev.clone();
        damage(&mut d, b.lb, "primary header");
        damage(&mut d, b.lb, "backup header");
        v.push((format!("{} without headers", b.name), d, b.lb));
    }
    for (n, d, c) in foreign_images() {
        if d.is_flat() && d.size() < 1 << 20 {
            v.push((n, d, c.lb()));
        }
    }
    for lb in [Lb512, Lb4096] {
        let bs = lbs(lb);
        for n in [0, 1, 91, bs - 1, bs, 2 * bs - 1, 2 * bs, 3 * bs, 34 * bs, 60 * bs, 67 * bs, 68 * bs, 69 * bs + 7] {
            v.push((format!("{n} zeros"), Dev::zeros(n), lb));
            v.push((format!("{n} pattern bytes"), Dev::patterned(n), lb));
        }
        // headers with absurd values
        let i = plain(lb);
        for k in 0..6 {
            let mut d = i.build();
            let (mut p, _) = i.headers();
            match k {
                0 => p.pstart = u64::MAX,
                1 => p.nparts = u32::MAX,
                2 => p.psize = 0,
                3 => p.first = u64::MAX,
                4 => p.my = i.blocks + 50,
                _ => (p.nparts, p.pstart) = (4, i.blocks + 2),
            }
            d.poke(bs, &p.sealed());
            if k % 2 == 0 {
                wipe(&mut d, (i.blocks - 1) * bs, bs);
            }
            v.push((format!("absurd header {k}"), d, lb));
        }
    }
    v
}

fn by_path(bs: u64, deep: bool) -> Vec<Vec<Op>> {
    let mut v = vec![
        vec![],
        vec![Op::Inspect, Op::Write],
        vec![Op::SetGuid(1), Op::Write, Op::Take, Op::Write],
        vec![Op::Remove(1), add(bs, None), Op::Write],
        vec![Op::Update(Preset::Many(130)), Op::Write],
    ];
    if deep {
        v.extend([
            vec![Op::Update(Preset::Fancy), Op::Write, Op::Write],
            vec![Op::Update(Preset::ShiftUp), Op::Inspect],
            vec![Op::AddAt { id: 129, first: 40, len: 2, t: 1, flags: 3, name: 2 }, Op::Write],
            vec![Op::NewGuid, Op::SetGuid(2), Op::Update(Preset::PlusUnused), Op::Write],
        ]);
    }
    v
}
/// replace GUIDs made at random by ones that follow from the number
fn settle<D: DiskDevice>(d: &mut GptDisk<D>, before: &Snap) -> Result<(), String> {
    let mut m = d.partitions().clone();
    let mut any = false;
    for (k, p) in m.iter_mut() {
        if !before.parts.values().any(|q| q.part_guid == p.part_guid) {
            p.part_guid = fixed_guid(10_000 + k);
            any = true;
        }
    }
    if any {
        d.update_partitions(m).map_err(|e| kind(&e))?;
    }
    Ok(())
}
#[derive(PartialEq, Debug)]
struct Trace {
    res: Vec<(Res, Option<Snap>)>,
}
fn trace<D: DiskDevice>(d: &mut GptDisk<D>, ops: &[Op]) -> Trace {
    let mut t = Trace { res: vec![] };
    for o in ops {
        let before = Snap::of(d);
        let r = flat_res(edit(d, *o));
        if let Op::Add { .. } | Op::AddAt { .. } = o {
            let _ = lib(|| settle(d, &before));
        }
        if let Res::Panic(_) = r {
            t.res.push((r, None));
            break;
        }
        t.res.push((r, Some(soft(Snap::of(d)))));
    }
    t
}
/// the kinds of errors of the machine are not compared
fn soft(mut s: Snap) -> Snap {
    s.h1 = s.h1.map_err(flat);
    s.h2 = s.h2.map_err(flat);
    s
}
fn same_trace(a: &Trace, b: &Trace, ops: &[Op]) -> Result<(), String> {
    for (k, (x, y)) in a.res.iter().zip(&b.res).enumerate() {
        let what = format!("after {:?}", &ops[..=k]);
        if x.0 != y.0 {
            return Err(format!("{what}: {:?} on the device, {:?} by path", x.0, y.0));
        }
        if let (Some(p), Some(q)) = (&x.1, &y.1) {
            if ops[..=k].contains(&Op::NewGuid) {
                same_snap(&what, &plainly(p), &plainly(q))?;
            } else {
                same_snap(&what, p, q)?;
            }
        }
    }
    Ok(())
}

fn intact(pl: &Place, d: &Dev) -> Result<(), String> {
    if pl.list() != ["disk.img"] {
        return Err(format!("the directory now holds {:?}", pl.list()));
    }
    let now = std::fs::read(pl.file()).map_err(|e| e.to_string())?;
    if now.len() as u64 != d.size() {
        return Err(format!("the file has {} bytes instead of {}", now.len(), d.size()));
    }
    if now != d.bytes() {
        let at = now.iter().zip(d.bytes()).position(|(a, b)| a != b).unwrap();
        return Err(format!("the file differs from the device at byte {at:#x}"));
    }
    Ok(())
}

fn one_disk(c: &mut Ctx, pl: &Place, dev: &Dev, cfg: Cfg, ops: &[Op]) -> Result<(), String> {
    for create in [false, true] {
        let p = pl.put(dev);
        c.eval();
        // in read-only mode nothing may be opened for writing
        io::watch(&p);
        io::with(|r| r.deny = !cfg.writable);
        let f = path_disk(cfg, create, &p);
        let opened = io::unwatch();
        if !opened.log.is_empty() || opened.truncated > 0 {
            return Err("opening wrote to the file".into());
        }
        intact(pl, dev)?;
        let d = dev.clone();
        let d = match lib(|| if create { cfg.gpt().create_from_device(d, Some(fixed_guid(7))) } else { cfg.gpt().open_from_device(d) }) {
            Err(p) => Err(format!("panic: {p}")),
            Ok(Err(e)) => Err(kind(&e)),
            Ok(Ok(d)) => Ok(d),
        };
        let (mut f, mut d) = match (f, d) {
            (Err(a), Err(b)) if a == b => {
                c.outcome("refused");
                continue;
            }
            (Ok(f), Ok(d)) => (f, d),
            (f, d) => {
                let s = |r: Result<(), String>| r.map_or_else(|e| e, |_| "success".to_string());
                return Err(format!("create={create}: {} by path, {} on the device", s(f.map(drop)), s(d.map(drop))));
            }
        };
        c.outcome(if create { "created" } else { "opened" });
        if create {
            // the same history on both: a created disk is given its GUID afterwards
            d.update_guid(Some(fixed_guid(7)));
            same_snap("created", &made(&soft(Snap::of(&d))), &made(&soft(Snap::of(&f))))?;
        } else {
            same_snap("opened", &soft(Snap::of(&d)), &soft(Snap::of(&f)))?;
        }
        let (a, b) = (trace(&mut d, ops), trace(&mut f, ops));
        same_trace_created(&a, &b, ops, create)?;
        intact(pl, d.device_ref()).map_err(|e| format!("create={create}, after {ops:?}: {e}"))?;
        // consuming write: the file comes back
        let r1 = lib(|| d.write().map_err(|e| kind(&e)));
        let r2 = lib(|| f.write().map_err(|e| kind(&e)));
        match (r1, r2) {
            (Ok(Ok(d)), Ok(Ok(f))) => {
                drop(f);
                intact(pl, &d).map_err(|e| format!("create={create}, after {ops:?} and write: {e}"))?;
            }
            (Ok(Err(a)), Ok(Err(b))) if a == b => {}
            (a, b) => {
                let s = |r: Result<Result<(), String>, String>| format!("{r:?}");
                return Err(format!("create={create}, after {ops:?}: write: {} on the device, {} by path", s(a.map(|x| x.map(drop))), s(b.map(|x| x.map(drop)))));
            }
        }
    }
    Ok(())
}
/// without the random GUID that the headers of a created disk carry until the first write
fn made(s: &Snap) -> Snap {
    let mut s = plainly(s);
    for h in [&mut s.h1, &mut s.h2].into_iter().flatten() {
        h.disk_guid = Uuid::nil();
    }
    s
}
fn same_trace_created(a: &Trace, b: &Trace, ops: &[Op], create: bool) -> Result<(), String> {
    if !create {
        return same_trace(a, b, ops);
    }
    // headers of a created disk carry its random GUID until the first write
    let n = |t: &Trace| Trace { res: t.res.iter().map(|(r, s)| (r.clone(), s.as_ref().map(made))).collect() };
    same_trace(&n(a), &n(b), ops)
}

fn hdr(r: Result<Result<Header, header::HeaderError>, String>) -> Result<Header, String> {
    match r {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(flat(hkind(&e))),
        Err(p) => Err(format!("panic: {p}")),
    }
}
fn iores<T>(r: Result<std::io::Result<T>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(_)) => Err("error".into()),
        Err(p) => Err(format!("panic: {p}")),
    }
}

fn one_file(c: &mut Ctx, pl: &Place, dev: &Dev, lb: LogicalBlockSize, deep: bool) -> Result<(), String> {
    let bs = lbs(lb);
    let p = pl.put(dev);
    // reading, on a file that may not be written
    io::watch(&p);
    io::with(|r| r.deny = true);
    let res = (|| {
        c.eval();
        let f = hdr(lib(|| header::read_header(&p, lb)));
        let d = hdr(lib(|| header::read_header_from_arbitrary_device(&mut dev.clone(), lb)));
        if f != d {
            return Err(format!("read_header: {f:?} by path, {d:?} on the device"));
        }
        let mut hs: Vec<Header> = d.into_iter().collect();
        if let Ok(h) = HeaderBuilder::new().backup_lba(100).build(lb) {
            for (start, n) in [(2, 128), (0, 4), (1, 1), (3, 0), (dev.size() / bs, 128), (u64::MAX, 1), (1 << 54, 1)] {
                let mut h = h.clone();
                (h.part_start, h.num_parts) = (start, n);
                if let Some(t) = start.checked_mul(bs).and_then(|o| dev.peek(o, n as usize * 128)) {
                    h.crc32_parts = crc32(&t);
                }
                hs.push(h);
            }
        }
        for h in hs {
            c.eval();
            let f = iores(lib(|| partition::read_partitions(&p, &h, lb)));
            let d = iores(lib(|| partition::file_read_partitions(&mut dev.clone(), &h, lb)));
            if f != d {
                return Err(format!("read_partitions with {h:?}: {f:?} by path, {d:?} on the device"));
            }
            c.outcome(if f.is_ok() { "partitions read" } else { "partitions refused" });
        }
        if lb == Lb512 {
            c.eval();
            let s = |r: Result<Snap, GptError>| r.map(soft).map_err(|e| kind(&e));
            let f = lib(|| s(gpt::disk::read_disk(&p).map(|d| Snap::of(&d))));
            let d = lib(|| s(GptConfig::new().open_from_device(dev.clone()).map(|d| Snap::of(&d))));
            if f != d {
                return Err(format!("read_disk: {f:?} by path, {d:?} on the device"));
            }
        }
        Ok(())
    })();
    let rec = io::unwatch();
    res?;
    if !rec.log.is_empty() || rec.truncated > 0 {
        return Err("reading wrote to the file".into());
    }
    intact(pl, dev)?;
    // a header
    for g in [Some(fixed_guid(5)), Some(Uuid::nil()), Some(Uuid::from_u128(u128::MAX))] {
        c.eval();
        let p = pl.put(dev);
        let f = lib(|| header::write_header(&p, g, lb).map_err(|e| flat(hkind(&e))));
        let mut d = dev.clone();
        let r = lib(|| {
            let n = d.size() / bs;
            if n == 0 {
                return Err("Header:ToSmallForBackup".to_string());
            }
            let mut h = HeaderBuilder::new();
            h.disk_guid(g.unwrap());
            let mut h = h.backup_lba(n - 1).build(lb).map_err(|e| flat(hkind(&e)))?;
            h.write_primary(&mut d, lb).map_err(|e| flat(hkind(&e)))?;
            Ok(h.disk_guid)
        });
        match (&f, &r) {
            (Ok(Ok(a)), Ok(Ok(b))) if a == b && Some(*a) == g => {}
            (Ok(Err(_)), Ok(Err(_))) => {}
            _ => return Err(format!("write_header: {f:?} by path, {r:?} on the device")),
        }
        if let Ok(Ok(_)) = f {
            c.outcome("header written");
        }
        intact(pl, &d).map_err(|e| format!("write_header {g:?}: {e}"))?;
    }
    let p = pl.put(dev);
    let got: Vec<Uuid> = (0..2).filter_map(|_| lib(|| header::write_header(&p, None, lb).ok()).ok().flatten()).collect();
    for g in &got {
        if g.get_version_num() != 4 {
            return Err(format!("write_header made the GUID {g}"));
        }
    }
    if got.len() == 2 {
        if got[0] == got[1] {
            return Err("write_header made the same GUID twice".into());
        }
        let now = std::fs::read(&p).map_err(|e| e.to_string())?;
        if guid_from(&now[bs as usize + 56..bs as usize + 72]) != got[1] {
            return Err("write_header returned another GUID than it wrote".into());
        }
    }
    // entries
    let end = dev.size() / bs;
    let lbas = [0, 1, 2, 3, end.saturating_sub(1), end, end + 3, u64::MAX / 512, u64::MAX];
    let idx = [0u64, 1, 3, 4, 127, 128, u64::MAX / 128, u64::MAX];
    for (k, lba) in lbas.iter().enumerate() {
        for (j, i) in idx.iter().enumerate() {
            if !deep && (k + j) % 2 == 1 {
                continue;
            }
            // sparse files of any size are not the point
            if let Some(o) = lba.checked_mul(bs).and_then(|x| x.checked_add(i.checked_mul(128)?)) {
                if o > dev.size() + (1 << 20) {
                    continue;
                }
            }
            c.eval();
            let e = part((k % 4) as u8, j as u32, *lba, *i, u64::MAX, (k % 9) as u8);
            let p = pl.put(dev);
            let f = iores(lib(|| e.write(&p, *i, *lba, lb)));
            let mut d = dev.clone();
            let r = iores(lib(|| e.write_to_device(&mut d, *i, *lba, lb, 128)));
            let what = format!("Partition::write at entry {i:#x} of {lba:#x}");
            if f != r {
                return Err(format!("{what}: {f:?} by path, {r:?} on the device"));
            }
            c.outcome(if f.is_ok() { "entry written" } else { "entry refused" });
            intact(pl, &d).map_err(|e| format!("{what}: {e}"))?;
        }
    }
    // no such file; a directory
    pl.clear();
    let h = HeaderBuilder::new().backup_lba(100).build(lb).map_err(|e| e.to_string())?;
    for q in [pl.file(), pl.dir.clone()] {
        let q = &q;
        for k in 0..9 {
            c.eval();
            let r = lib(|| match k {
                0 => Cfg::rw(lb).gpt().open(q).is_ok(),
                1 => Cfg::rw(lb).gpt().create(q).is_ok(),
                2 => Cfg::rw(lb).readonly().gpt().open(q).is_ok(),
                3 => gpt::disk::read_disk(q).is_ok(),
                4 => header::read_header(q, lb).is_ok(),
                5 => header::write_header(q, None, lb).is_ok(),
                6 => partition::read_partitions(q, &h, lb).is_ok(),
                7 => part(0, 0, 1, 2, 3, 0).write(q, 0, 2, lb).is_ok(),
                // a directory opens for reading; it has no room for a table
                _ => Cfg::rw(lb).readonly().gpt().create(q).is_ok(),
            });
            let dir = q == &pl.dir;
            match r {
                Err(m) => return Err(format!("call {k} on {q:?} panicked: {m}")),
                Ok(true) if !(dir && k == 8) => return Err(format!("call {k} on a {} succeeded", if dir { "directory" } else { "missing file" })),
                _ => {}
            }
            if !pl.list().is_empty() {
                return Err(format!("call {k} on a {} left {:?}", if dir { "directory" } else { "missing file" }, pl.list()));
            }
        }
    }
    Ok(())
}

pub fn c25(deep: bool) -> Report {
    let mut r = Report::new(
        "exploration",
        "every path-based call on every file content of the list (tables good, damaged, foreign, grown, cut; blanks and garbage of boundary lengths; absurd headers), both block sizes, in every configuration, followed by every program of edits and writes, next to the device-based calls on the same bytes: same results, same disk, same bytes, same length, no other file. Reading happens while opening for writing is denied. distinct_nontrivial counts distinct contents, configurations and programs",
    );
    let cs = contents(deep);
    let mut items = vec![];
    for (k, (_, _, lb)) in cs.iter().enumerate() {
        let mut cfgs = vec![Cfg::rw(*lb), Cfg::rw(*lb).readonly(), Cfg::rw(*lb).strict(), Cfg::rw(*lb).ro_backup(), Cfg::rw(*lb).growing()];
        cfgs.push(Cfg::rw(if *lb == Lb512 { Lb4096 } else { Lb512 }));
        if deep {
            cfgs.push(Cfg::rw(*lb).strict().readonly());
            cfgs.push(Cfg::rw(*lb).ro_backup().growing());
        }
        for cfg in cfgs {
            items.push((k, Some(cfg)));
        }
        items.push((k, None));
    }
    par(&mut r, &items, |c, (k, cfg)| {
        let (name, dev, lb) = &cs[*k];
        let pl = Place::new(c.worker);
        match cfg {
            Some(cfg) => {
                for ops in by_path(lbs(cfg.lb()), deep) {
                    let case = format!("file {name:?} of {} bytes ({cfg:?}), {ops:?}", dev.size());
                    c.begin(&case);
                    c.seen((k, cfg, &ops));
                    if let Err(m) = one_disk(c, &pl, dev, *cfg, &ops) {
                        c.violation(m, case);
                    }
                    pl.clear();
                }
            }
            None => {
                for lb in [*lb, if *lb == Lb512 { Lb4096 } else { Lb512 }] {
                    let case = format!("file {name:?} of {} bytes, block size {}", dev.size(), lbs(lb));
                    c.begin(&case);
                    c.seen((k, lbs(lb)));
                    if let Err(m) = one_file(c, &pl, dev, lb, deep) {
                        c.violation(m, case);
                    }
                    pl.clear();
                }
            }
        }
    });
    r.parts.push(("file contents".into(), cs.len() as u64));
    r.parts.push(("contents and configurations".into(), items.len() as u64));
    r.assumptions.push("permission is denied by failing open() itself: the checks run as root, which passes every permission check");
    r
}
