//! Clones, copies on other devices, replaced and returned devices (C22).
use super::write::{plain, shows, write_worlds};
use crate::dev::Dev;
use crate::refm::*;
use crate::rep::*;
use crate::sm::*;
use gpt::disk::LogicalBlockSize::*;
use gpt::{DiskDeviceObject, GptDisk};
use std::collections::HashSet;
use std::sync::Mutex;
use uuid::Uuid;

/// the configuration as the disk shows it
fn config_of<D: std::fmt::Debug>(d: &GptDisk<D>) -> Option<String> {
    let s = format!("{d:?}");
    let a = s.find("config: ")?;
    let b = s.find(", device: ")?;
    (a < b).then(|| s[a..b].to_string())
}
fn as_writable(s: &str, w: bool) -> String {
    s.replace("writable: true", "writable: @").replace("writable: false", "writable: @").replace("writable: @", &format!("writable: {w}"))
}

/// why the headers are missing, as the disk itself shows it
fn reasons_of<D: std::fmt::Debug>(d: &GptDisk<D>) -> Vec<String> {
    let s = format!("{d:?}");
    ["primary_header: Err(", "backup_header: Err("]
        .iter()
        .filter_map(|k| {
            let a = s.rfind(k)? + k.len();
            Some(format!("{k}{}", s[a..].chars().take_while(|c| c.is_alphanumeric()).collect::<String>()))
        })
        .collect()
}

fn same<A: std::fmt::Debug, B: std::fmt::Debug>(what: &str, a: &GptDisk<A>, b: &GptDisk<B>, writable: Option<bool>) -> Result<(), String> {
    let (x, y) = (Snap::of(a), Snap::of(b));
    same_snap(what, &x, &y)?;
    if a.logical_block_size() != b.logical_block_size() {
        return Err(format!("{what}: the block size differs"));
    }
    let (x, y) = (reasons_of(a), reasons_of(b));
    if x != y {
        return Err(format!("{what}: headers are missing for other reasons: {y:?} instead of {x:?}"));
    }
    if let (Some(x), Some(y)) = (config_of(a), config_of(b)) {
        let x = writable.map_or(x.clone(), |w| as_writable(&x, w));
        if x != y {
            return Err(format!("{what}: configuration {y} instead of {x}"));
        }
    }
    Ok(())
}
pub fn same_snap(what: &str, x: &Snap, y: &Snap) -> Result<(), String> {
    if x == y {
        return Ok(());
    }
    let d = if x.parts != y.parts {
        "the partitions differ"
    } else if x.guid != y.guid {
        "the disk GUID differs"
    } else if x.h1 != y.h1 {
        "the primary header differs"
    } else {
        "the backup header differs"
    };
    Err(format!("{what}: {d}: {} {} / {} {}; headers {:?} {:?} / {:?} {:?}", x.guid, x.brief(), y.guid, y.brief(), x.h1, x.h2, y.h1, y.h2))
}

/// what the probe ends with
#[derive(PartialEq, Clone)]
struct End {
    res: Vec<Res>,
    snaps: Vec<Option<Snap>>,
    dev: Option<Dev>,
}
fn probe(ops: &[Op], cfg: Cfg, writable: bool, d: GptDisk<Dev>) -> End {
    let mut run = Run { cfg, writable, disk: Some(d) };
    let mut e = End { res: vec![], snaps: vec![], dev: None };
    for o in ops {
        if run.disk.is_none() {
            break;
        }
        e.res.push(run.apply(*o));
        if matches!(e.res.last(), Some(Res::Panic(_))) {
            break;
        }
        e.snaps.push(run.disk.as_ref().map(Snap::of));
    }
    e.dev = run.disk.map(|d| d.take_device());
    e
}
fn random(ops: &[Op]) -> bool {
    ops.iter().any(|o| matches!(o, Op::Add { .. } | Op::AddAt { .. } | Op::NewGuid))
}
/// without the GUIDs made at random, and what depends on them
pub fn plainly(s: &Snap) -> Snap {
    let mut s = s.clone();
    let fixed = |g: &Uuid| g.get_version_num() != 4 || (0..1000).any(|i| *g == fixed_guid(i));
    for p in s.parts.values_mut() {
        if !fixed(&p.part_guid) {
            p.part_guid = Uuid::nil();
        }
    }
    if !fixed(&s.guid) {
        s.guid = Uuid::nil();
    }
    for h in [&mut s.h1, &mut s.h2].into_iter().flatten() {
        (h.crc32, h.crc32_parts) = (0, 0);
        if !fixed(&h.disk_guid) {
            h.disk_guid = Uuid::nil();
        }
    }
    s
}
fn agree(what: &str, ops: &[Op], a: &End, b: &End) -> Result<(), String> {
    if a.res != b.res {
        return Err(format!("{what}: {ops:?} give {:?} instead of {:?}", b.res, a.res));
    }
    for (x, y) in a.snaps.iter().zip(&b.snaps) {
        match (x, y) {
            (Some(x), Some(y)) => {
                let what = format!("{what}, after {ops:?}");
                if random(ops) {
                    same_snap(&what, &plainly(x), &plainly(y))?;
                } else {
                    same_snap(&what, x, y)?;
                }
            }
            (None, None) => {}
            _ => return Err(format!("{what}, after {ops:?}: only one of both opens again")),
        }
    }
    if !random(ops) && a.dev != b.dev {
        let at = match (&a.dev, &b.dev) {
            (Some(x), Some(y)) => x.diff(y).first().map(|r| format!("bytes {:#x}..{:#x}", r.0, r.1)),
            _ => None,
        };
        return Err(format!("{what}, after {ops:?}: the devices differ {at:?}"));
    }
    Ok(())
}

fn probes(bs: u64, deep: bool) -> Vec<Vec<Op>> {
    let mut v = vec![
        vec![Op::Write],
        vec![Op::Update(Preset::Many(130)), Op::Write],
        vec![Op::AddAt { id: 129, first: 40, len: 1, t: 0, flags: 0, name: 0 }, add(bs, None), Op::Write],
        vec![Op::SetGuid(9), Op::Remove(1), Op::Write, Op::Write],
        vec![Op::Take, Op::Write, Op::Reopen],
    ];
    if deep {
        v.extend([
            vec![Op::Update(Preset::Fancy), Op::Write, Op::Take, Op::WriteConsume],
            vec![Op::RemoveGuidOf(0), Op::Update(Preset::PlusUnused), Op::SetGuid(3), Op::WriteConsume],
            vec![Op::NewGuid, add(bs * 2, Some(2)), Op::Inspect, Op::Write],
        ]);
    }
    v
}

/// devices to move to: name, device
fn targets(from: &Dev, bs: u64, deep: bool) -> Vec<(String, Dev)> {
    let n = from.size();
    let mut v = vec![("a copy of its device".to_string(), from.clone())];
    let mut other = |name: &str, mut d: Dev| {
        d.reset();
        v.push((name.to_string(), d));
    };
    let make = |n: u64, pattern: bool| match (from.is_flat(), pattern) {
        (false, p) => Dev::sparse(n, p),
        (true, true) => Dev::patterned(n),
        (true, false) => Dev::zeros(n),
    };
    other("an empty device of the same length", make(n, false));
    other("a longer device", make(n + 40 * bs + 7, true));
    if deep && from.is_flat() {
        other("a device with another table", {
            let mut d = plain(if bs == 512 { Lb512 } else { Lb4096 }).build();
            d.resize(n.max(d.size()), 0x11);
            d
        });
        other("a shorter device", make(n.saturating_sub(5 * bs), false));
        other("an empty thing", make(0, false));
    }
    for (_, d) in &mut v {
        d.reset();
    }
    v
}

fn state(c: &mut Ctx, st: &Step, deep: bool) -> Result<(), String> {
    let w = st.world;
    let cfg = w.cfg;
    let bs = lbs(cfg.lb());
    let fresh = || -> Option<(GptDisk<Dev>, bool)> {
        let mut r = replay(w, st.hist)?;
        let writable = r.writable;
        let mut d = r.disk.take()?;
        d.device_mut().reset();
        Some((d, writable))
    };
    macro_rules! fresh {
        () => {
            match fresh() {
                Some(x) => x,
                None => return Ok(()),
            }
        };
    }
    for ops in probes(bs, deep) {
        // the copies first, then the original
        let (d, wr) = fresh!();
        let before = (Snap::of(&d), d.device_ref().clone());
        let cl = d.clone();
        let mv = d.with_disk_device(d.device_ref().clone(), wr);
        same("a clone", &d, &cl, None)?;
        same("a copy on another device", &d, &mv, None)?;
        if *cl.device_ref() != before.1 || cl.device_ref().nops != 0 || d.device_ref().nops != 0 {
            return Err("cloning touched the device".into());
        }
        let e1 = probe(&ops, cfg, wr, cl);
        let e2 = probe(&ops, cfg, wr, mv);
        same_snap("the original after a copy was changed", &before.0, &Snap::of(&d))?;
        if *d.device_ref() != before.1 || d.device_ref().nops != 0 {
            return Err("changing a copy touched the original's device".into());
        }
        let cl = d.clone();
        let snap = (Snap::of(&cl), cl.device_ref().clone());
        let e0 = probe(&ops, cfg, wr, d);
        agree("a clone", &ops, &e0, &e1)?;
        agree("a copy on another device", &ops, &e0, &e2)?;
        // and the other way round
        same_snap("a clone after the original was changed", &snap.0, &Snap::of(&cl))?;
        if *cl.device_ref() != snap.1 {
            return Err("changing the original touched a clone's device".into());
        }
        let e3 = probe(&ops, cfg, wr, cl);
        agree("a clone, after the original was changed", &ops, &e0, &e3)?;
        c.hit("probes");
    }
    for (name, dev) in targets(&st.post_dev, bs, deep) {
        for wr in [true, false] {
            let ps = probes(bs, deep);
            for ops in &ps[..if deep { ps.len() } else { 2 }] {
                let (mut d, was) = fresh!();
                let before = (Snap::of(&d), d.device_ref().clone());
                let mv = d.with_disk_device(dev.clone(), wr);
                same(&format!("a copy on {name}"), &d, &mv, Some(wr))?;
                if mv.device_ref() != &dev || mv.device_ref().nops != 0 || d.device_ref().nops != 0 {
                    return Err("copying to another device touched a device".into());
                }
                let cfg0 = config_of(&d);
                let old = d.update_disk_device(dev.clone(), wr);
                if old != before.1 || old.writes != 0 || old.flushes != 0 {
                    return Err("replacing the device touched the old one".into());
                }
                if d.device_ref() != &dev || d.device_ref().nops != 0 {
                    return Err("replacing the device touched the new one".into());
                }
                same_snap("after replacing the device", &before.0, &Snap::of(&d))?;
                if let (Some(a), Some(b)) = (cfg0, config_of(&d)) {
                    if as_writable(&a, wr) != b {
                        return Err(format!("replacing the device: configuration {b} instead of {}", as_writable(&a, wr)));
                    }
                }
                let e1 = probe(ops, cfg, wr, mv);
                let want: Vec<_> = before.0.used().map(|(_, p)| p.clone()).collect();
                let e2 = probe(ops, cfg, wr, d);
                agree(&format!("a copy on {name}, against a replaced device"), ops, &e2, &e1)?;
                // a write obeys the new writable setting, whatever the old one was
                if ops[0] == Op::Write {
                    let ro = Res::Err("ReadOnly".into());
                    if (e1.res[0] == ro) == wr {
                        return Err(format!("moved to {name} with writable={wr} (before: {was}): write gives {:?}", e1.res[0]));
                    }
                    if !wr && e1.dev.as_ref() != Some(&dev) {
                        return Err("a copy that is not writable changed its device".into());
                    }
                    if e1.res[0] == Res::Unit {
                        // the whole table arrived
                        let mut t = e1.dev.clone().unwrap();
                        t.reset();
                        let mut oc = cfg;
                        oc.strict = false;
                        let want: Vec<_> = want
                            .iter()
                            .map(|p| {
                                let mut p = p.clone();
                                p.name = kept_name(&p.name);
                                p
                            })
                            .collect();
                        match oc.gpt().open_from_device(t) {
                            Ok(g) => shows(&g, &want, &before.0.guid).map_err(|e| format!("written to {name}, then opened: {e}"))?,
                            Err(e) => return Err(format!("written to {name}, then opened: {}", ekind(&e))),
                        }
                        c.hit("tables that arrived on another device");
                    }
                }
                c.hit("moves");
            }
        }
    }
    // devices of other types: a borrowed one, a boxed one
    {
        let (d, wr) = fresh!();
        let mut dev = d.device_ref().clone();
        {
            let mut b = d.with_disk_device(&mut dev, true);
            same("a copy on a borrowed device", &d, &b, Some(true))?;
            b.update_guid(Some(Uuid::from_u128(4)));
            b.take_partitions();
            inspect(&b);
        }
        if dev != *d.device_ref() || dev.writes != 0 {
            return Err("dropping a copy wrote to its device".into());
        }
        {
            let b: GptDisk<DiskDeviceObject> = d.with_disk_device(Box::new(&mut dev), wr);
            same("a copy on a boxed device", &d, &b, None)?;
            let r = lib(move || b.write().map(|_| ()).map_err(|e| ekind(&e)));
            let (mut o, _) = fresh!();
            let q = lib(move || {
                let r = o.write_inplace().map_err(|e| ekind(&e));
                (r, o.take_device())
            });
            if let (Ok(r), Ok((q, od))) = (r, q) {
                if r != q {
                    return Err(format!("a copy on a boxed device: write gives {r:?} instead of {q:?}"));
                }
                if !st.world.ops.is_empty() && !random_hist(st) && od != dev {
                    return Err("a copy on a boxed device writes other bytes".into());
                }
            }
        }
        // taken back
        let (mut d, _) = fresh!();
        d.update_guid(Some(Uuid::from_u128(5)));
        let was = d.device_ref().clone();
        let dev = d.take_device();
        if dev != was || dev.writes != 0 || dev.flushes != 0 {
            return Err("taking the device back wrote to it".into());
        }
    }
    Ok(())
}
/// does the table hold GUIDs that another replay makes anew?
fn random_hist(st: &Step) -> bool {
    let all: Vec<Op> = st.world.prelude.iter().copied().chain(st.hist.iter().map(|i| st.world.ops[*i as usize])).collect();
    random(&all)
}
/// a name as it is on the device: up to a NUL, at most 36 units, no half characters
fn kept_name(s: &str) -> String {
    let s = s.split('\0').next().unwrap_or("");
    let mut o = String::new();
    let mut n = 0;
    for ch in s.chars() {
        n += ch.len_utf16();
        if n > 36 {
            break;
        }
        o.push(ch);
    }
    o
}

fn worlds(deep: bool) -> Vec<World> {
    let mut v: Vec<World> = write_worlds(false)
        .into_iter()
        .filter(|w| deep || !w.name.starts_with("claims"))
        .map(|mut w| {
            w.depth = w.depth.min(if deep { 2 } else { 1 });
            w.reopens = false;
            w
        })
        .collect();
    // headers that are missing for every reason
    for lb in [Lb512, Lb4096] {
        let bs = lbs(lb);
        let i = plain(lb);
        let end = i.blocks - 1;
        for (n, at) in [("unreadable primary", 1), ("unreadable backup", end)] {
            for ro in [false, true] {
                let mut d = i.build();
                d.bad.extend(at * bs / 512..(at + 1) * bs / 512);
                let cfg = if ro { Cfg::rw(lb).ro_backup() } else { Cfg::rw(lb) };
                if ro && at == end {
                    continue;
                }
                v.push(World::open(&format!("{n} {bs}"), d, cfg, vec![add(bs, None), Op::SetGuid(2), Op::Update(Preset::Single5), Op::Write], 2));
            }
        }
        for (k, bytes) in [("no signature", vec![0u8; 8]), ("wrong checksum", vec![0x45u8, 0x46, 0x49, 0x20, 0x50, 0x41, 0x52, 0x54, 9])] {
            for at in [1, end] {
                let mut d = i.build();
                d.poke(at * bs, &bytes);
                v.push(World::open(&format!("{k} at {at} lb {bs}"), d, Cfg::rw(lb).growing(), vec![add(bs, None), Op::SetGuid(2), Op::Write], 2));
            }
        }
    }
    v
}

pub fn c22(deep: bool) -> Report {
    let mut r = Report::new(
        "model_checking",
        "in every state reached by any history to the depth: a clone, copies on other devices (same, other length, borrowed, boxed), a replaced and a returned device, followed by every probe (writes, edits, growth, reopen), in both orders, against the original doing the same; states and transitions are those of the histories, distinct_nontrivial counts distinct states",
    );
    let mut ws = worlds(deep);
    for mut w in ws.clone() {
        w.watched = true;
        ws.push(w);
    }
    for w in ws {
        let done: Mutex<HashSet<u128>> = Mutex::new(HashSet::new());
        explore_merged(&mut r, &w, &|c, st| {
            let d = &*st.disk;
            let key = canon(st.post, &st.post_dev, st.world.cfg, st.writable);
            if !done.lock().unwrap().insert(key) {
                return Ok(());
            }
            let cl = d.clone();
            let f = |m: String| (String::new(), m);
            same("a clone", d, &cl, None).map_err(f)?;
            state(c, st, deep).map_err(f)
        });
        if stopped() {
            break;
        }
    }
    r
}
