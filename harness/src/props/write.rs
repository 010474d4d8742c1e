//! C06, C07, C09, C10, C15, C16, C17: what a write does, what everything else does not do.
use super::alloc::*;
use crate::dev::{Dev, Fault, FaultKind};
use crate::refm::*;
use crate::rep::*;
use crate::sm::*;
use gpt::disk::LogicalBlockSize::{self, Lb4096, Lb512};
use gpt::partition::Partition;
use gpt::partition_types::Type;
use gpt::GptDisk;
use std::io::ErrorKind;
use std::collections::BTreeMap;
use uuid::Uuid;

pub fn ent(t: u8, g: u32, a: u64, b: u64, flags: u64, name: u8) -> [u8; 128] {
    enc_entry(&part(t, g, a, b, flags, name))
}

/// every kind of edit, in block units of this world
pub fn edits(lb: u64, f: u64) -> Vec<Op> {
    vec![
        add(lb, None),
        Op::Add { size: lb * 2 + 1, align: Some(2), t: 1, flags: 1 << 63 | 5, name: 2 },
        Op::AddAt { id: 3, first: f + 1, len: 2, t: 2, flags: 1 << 60, name: 7 },
        Op::AddAt { id: 7, first: f, len: 1, t: 0, flags: 0, name: 4 },
        Op::Remove(1),
        Op::RemoveGuidOf(1),
        Op::SetGuid(1),
        Op::SetGuid(NIL),
        Op::NewGuid,
        Op::Update(Preset::Fancy),
        Op::Update(Preset::Overlap),
        Op::Update(Preset::OddUnused),
        Op::Update(Preset::PlusUnused),
        Op::Update(Preset::ShiftUp),
        Op::Update(Preset::DupGuid),
        Op::Take,
        Op::Write,
        Op::Reopen,
        Op::WriteConsume,
    ]
}
fn less(mut v: Vec<Op>) -> Vec<Op> {
    v.retain(|o| !matches!(o, Op::Update(Preset::DupGuid | Preset::ShiftUp) | Op::RemoveGuidOf(_) | Op::NewGuid | Op::Take));
    v
}

/// more entries than 16 bits can count
fn crowded_worlds(ops: &[Op]) -> Vec<World> {
    let f = 2 + 65540 / 4 + 1;
    let d = || Dev::sparse((2 * f + 70_000) * 512, false);
    let room = AROUND + 8;
    let mut v = vec![];
    for (n, ro) in [(65_535u32, false), (65_536, true)] {
        let mut cfg = Cfg::rw(Lb512).growing();
        cfg.ro_backup = ro;
        let mut o = ops.to_vec();
        o.push(Op::AddAt { id: n + 1, first: room, len: 1, t: 1, flags: 1, name: 2 });
        v.push(World::create(&format!("{n} entries, ro_backup={ro}"), d(), cfg, o, 2).after(&[Op::Update(Preset::Many(n))]));
    }
    v
}
/// a block beyond the array of the crowded worlds
const AROUND: u64 = 2 + 65_600 / 4;

/// an image of 128 or other many entries with room at both ends of the usable range
pub fn counted(np: u32) -> Img {
    let a = (np as u64).div_ceil(4).max(33);
    let mut i = Img::new(Lb512, 3 + 2 * a + 34);
    i.nparts = np;
    let f = 2 + a + 2;
    i.first = Some(f);
    i.last = Some(f + 21);
    i.entries = vec![(1, ent(0, 1, f + 4, f + 5, 3, 2))];
    if np > 1 {
        i.entries.push((np, ent(2, 2, f + 8, f + 9, 1 << 62, 3)));
    }
    i
}

/// a small image with three partitions; usable 34..=45
pub fn plain(lb: LogicalBlockSize) -> Img {
    let a = array_blocks(128, 128, lbs(lb)) as u64;
    let mut i = Img::new(lb, 3 + 2 * a + 12);
    let f = i.first_usable();
    i.entries = vec![(1, ent(0, 1, f, f + 1, 0, 0)), (2, ent(1, 2, f + 4, f + 4, 1 << 63 | 1, 2)), (5, ent(2, 3, f + 6, f + 9, u64::MAX, 3))];
    i
}

pub fn damage(d: &mut Dev, lb: LogicalBlockSize, what: &str) {
    let bs = lbs(lb);
    let end = last_block(d.size(), bs);
    let at = |d: &Dev, lba: u64| read_copy(d, lb, lba).unwrap();
    let (off, n) = match what {
        "primary header" => (bs, bs),
        "backup header" => (end * bs, bs),
        "primary array" => (at(d, 1).h.pstart * bs, 128),
        "backup array" => (at(d, end).h.pstart * bs, 128),
        "primary copy" => (bs, bs * 3),
        _ => unreachable!(),
    };
    let g: Vec<u8> = d.peek(off, n as usize).unwrap().iter().map(|x| x ^ 0xA5).collect();
    d.poke(off, &g);
}

pub fn write_worlds(deep: bool) -> Vec<World> {
    let (d2, d3) = if deep { (3, 4) } else { (2, 3) };
    let mut ws = vec![];
    let f5 = first_usable(Lb512);
    let f4 = first_usable(Lb4096);
    let extra = |mut d: Dev, n: u64| {
        let s = d.size();
        d.resize(s + n, 0x5A);
        d
    };
    // new tables
    ws.push(World::create("blank", Dev::zeros((2 + 32 + 8 + 33) * 512), Cfg::rw(Lb512), edits(512, f5), d3));
    ws.push(World::create("garbage", extra(dev_usable(Lb512, 7), 100), Cfg::rw(Lb512), edits(512, f5), d2));
    ws.push(World::create("garbage 4k", extra(dev_usable(Lb4096, 6), 4095), Cfg::rw(Lb4096), edits(4096, f4), d3));
    ws.push(World::create("one usable sector", extra(dev_usable(Lb512, 1), 511), Cfg::rw(Lb512), edits(512, f5), d3));
    let mut w = World::create("nil GUID", dev_usable(Lb512, 3), Cfg::rw(Lb512), edits(512, f5), d2);
    w.create = Some(Uuid::nil());
    ws.push(w);
    ws.push(World::create("over an older table", plain(Lb512).build(), Cfg::rw(Lb512), edits(512, f5), d2));
    ws.push(World::create("backup read-only, new", extra(plain(Lb512).build(), 1), Cfg::rw(Lb512).ro_backup(), edits(512, f5), d2));
    ws.push(World::create("read-only, new", dev_usable(Lb512, 8), Cfg::rw(Lb512).readonly(), edits(512, f5), d2));
    // existing tables
    for (lb, f) in [(Lb512, f5), (Lb4096, f4)] {
        let bs = lbs(lb);
        let n = |s: &str| format!("{s} {bs}");
        ws.push(World::open(&n("plain"), plain(lb).build(), Cfg::rw(lb), edits(bs, f), d3));
        ws.push(World::open(&n("plain growing"), plain(lb).build(), Cfg::rw(lb).growing(), edits(bs, f), d2));
        ws.push(World::open(&n("plain strict"), plain(lb).build(), Cfg::rw(lb).strict(), edits(bs, f), d2));
        ws.push(World::open(&n("plain backup read-only"), plain(lb).build(), Cfg::rw(lb).ro_backup(), edits(bs, f), d3));
        ws.push(World::open(&n("plain read-only"), plain(lb).build(), Cfg::rw(lb).readonly(), edits(bs, f), d2));
        for g in [1, bs - 1, bs, bs + 1, 7 * bs + 13, 40 * bs] {
            for cfg in [Cfg::rw(lb), Cfg::rw(lb).ro_backup(), Cfg::rw(lb).growing()] {
                if cfg.grow && g != 7 * bs + 13 {
                    continue;
                }
                let mut d = plain(lb).build();
                let s = d.size();
                d.resize(s + g, 0x77);
                ws.push(World::open(&format!("grown by {g} lb {bs} ro_backup={} grow={}", cfg.ro_backup, cfg.grow), d, cfg, less(edits(bs, f)), d2));
            }
        }
        for g in [1, bs, 2 * bs + 5] {
            let mut i = plain(lb);
            i.entries.truncate(2);
            let mut d = i.build();
            let s = d.size();
            d.resize(s - g, 0);
            ws.push(World::open(&format!("shrunk by {g} lb {bs}"), d, Cfg::rw(lb), less(edits(bs, f)), d2));
        }
        // the device gets longer and shorter while the disk is open
        for cfg in [Cfg::rw(lb), Cfg::rw(lb).ro_backup(), Cfg::rw(lb).growing()] {
            let d = plain(lb).build();
            let s = d.size();
            let mut o = less(edits(bs, f));
            o.extend([Op::Resize(s), Op::Resize(s + 1), Op::Resize(s + 8 * bs), Op::Resize(s - bs), Op::Resize(s + 60 * bs - 1), Op::Resize(2 * bs + 1), Op::Resize(4 * bs)]);
            ws.push(World::open(&format!("resized {bs} ro_backup={} grow={}", cfg.ro_backup, cfg.grow), d, cfg, o, d3));
        }
        for what in ["primary header", "backup header", "primary array", "backup array", "primary copy"] {
            for cfg in [Cfg::rw(lb), Cfg::rw(lb).ro_backup()] {
                if cfg.ro_backup && what.starts_with("backup") {
                    continue;
                }
                let mut d = plain(lb).build();
                damage(&mut d, lb, what);
                ws.push(World::open(&format!("damaged {what} lb {bs} ro_backup={}", cfg.ro_backup), d, cfg, less(edits(bs, f)), d2));
            }
        }
    }
    // what other tools make
    for (n, d, c) in foreign_images() {
        let cp = read_copy(&d, c.lb(), 1).unwrap();
        ws.push(World::open(&n, d, c, less(edits(lbs(c.lb()), cp.h.first)), d2));
    }
    let mut i = plain(Lb512);
    i.blocks += 10;
    i.pstart = Some(4);
    i.first = Some(38);
    i.last = Some(49);
    i.bstart = Some(51);
    for (k, e) in i.entries.iter_mut().enumerate() {
        e.1 = ent(k as u8, k as u32, 38 + 2 * k as u64, 39 + 2 * k as u64, 9, 2);
    }
    ws.push(World::open("foreign array positions", i.build(), Cfg::rw(Lb512), less(edits(512, 38)), d2));
    let mut j = i.clone();
    j.guid = Uuid::from_u128(77);
    j.entries.truncate(1);
    let mut d = i.build();
    let alt = j.build();
    let (off, end) = (51 * 512, d.size());
    d.poke(off, &alt.peek(off, (end - off) as usize).unwrap());
    ws.push(World::open("copies differ", d, Cfg::rw(Lb512), less(edits(512, 38)), d2));
    // headers that claim to be, or to have their counterpart, somewhere else
    for lb in [Lb512, Lb4096] {
        let bs = lbs(lb);
        let i = plain(lb);
        let end = i.blocks - 1;
        let f = i.first_usable();
        for (my, alt) in [
            (0, end),
            (2, end),
            (f + 3, end),
            (end, 1),
            (end, end),
            (end + 9, end),
            (u64::MAX, end),
            (1, 0),
            (1, 1),
            (1, f + 2),
            (1, end - 1),
            (1, end + 100),
            (1, u64::MAX),
            (end, 0),
            (0, 0),
            (u64::MAX, u64::MAX),
        ] {
            for (alone, backup) in [(false, false), (true, false), (true, true)] {
                let mut d = i.build();
                let (mut p, mut b) = i.headers();
                if backup {
                    (b.my, b.alt) = (if my == 1 { end } else if my == end { 1 } else { my }, if alt == end { 1 } else { alt });
                    d.poke(end * bs, &b.sealed());
                    wipe(&mut d, bs, bs);
                } else {
                    (p.my, p.alt) = (my, alt);
                    d.poke(bs, &p.sealed());
                    if alone {
                        wipe(&mut d, end * bs, bs);
                    }
                }
                let o = vec![add(bs, None), Op::Update(Preset::Same), Op::Write, Op::Reopen, Op::SetGuid(1)];
                for cfg in [Cfg::rw(lb), Cfg::rw(lb).ro_backup()] {
                    if cfg.ro_backup && alone {
                        continue;
                    }
                    let n = format!("header says {my}/{alt} lb {bs} alone={alone} backup={backup} ro_backup={}", cfg.ro_backup);
                    ws.push(World::open(&n, d.clone(), cfg, o.clone(), d2));
                }
            }
        }
    }
    // other entry counts
    for np in [1u32, 2, 4, 5, 127, 128, 129, 160, 256] {
        for grow in [false, true] {
            let mut cfg = Cfg::rw(Lb512);
            cfg.grow = grow;
            let i = counted(np);
            let f = i.first_usable();
            let mut o = less(edits(512, f));
            for id in [2, np, np + 1] {
                o.push(Op::AddAt { id, first: f + 12, len: 1, t: 0, flags: 0, name: 0 });
            }
            o.push(Op::Update(Preset::Many(np + 1)));
            o.push(Op::Update(Preset::Many(np)));
            ws.push(World::open(&format!("count {np} grow={grow}"), i.build(), cfg, o, d2));
        }
    }
    ws.extend(padded_worlds(d2));
    // many more entries than are usual
    for np in [257u32, 513, 1030, 2050, 4100, 8200] {
        let i = counted(np);
        let f = i.first_usable();
        let o = vec![
            add(512, None),
            Op::AddAt { id: np + 1, first: f + 12, len: 1, t: 0, flags: 0, name: 0 },
            Op::Remove(np),
            Op::Update(Preset::Many(np + 1)),
            Op::Update(Preset::Many(np)),
            Op::SetGuid(6),
            Op::Write,
            Op::Reopen,
        ];
        for cfg in [Cfg::rw(Lb512), Cfg::rw(Lb512).growing()] {
            ws.push(World::open(&format!("count {np} grow={}", cfg.grow), i.build(), cfg, o.clone(), if np > 4000 && !deep { 1 } else { 2 }));
        }
    }
    // larger blocks, old bytes behind the headers, header fields that mean nothing here
    for lb in [Lb512, Lb4096] {
        let bs = lbs(lb);
        for np in [4u32, 128, 129, 256] {
            let mut i = Img::new(lb, 3 + 2 * (np as u64 * 128).div_ceil(bs).max(34) + 34);
            i.nparts = np;
            i.odd = true;
            let f = 2 + (np as u64 * 128).div_ceil(bs).max(33) + 2;
            i.first = Some(f);
            i.last = Some(f + 21);
            i.entries = vec![(1, ent(0, 1, f + 4, f + 5, 3, 9)), (np, ent(2, 2, f + 8, f + 9, 1 << 62, 10))];
            let mut o = less(edits(bs, f));
            o.push(Op::Update(Preset::Many(np + 1)));
            o.push(Op::Update(Preset::Many(np)));
            for cfg in [Cfg::rw(lb), Cfg::rw(lb).growing(), Cfg::rw(lb).ro_backup()] {
                ws.push(World::open(&format!("odd {np} lb {bs} grow={} ro_backup={}", cfg.grow, cfg.ro_backup), i.build(), cfg, o.clone(), d2));
            }
        }
    }
    // around the full table
    for n in [126u32, 127, 128] {
        for cfg in [Cfg::rw(Lb512), Cfg::rw(Lb512).growing(), Cfg::rw(Lb512).growing().ro_backup()] {
            let e = f5 + 15 + n as u64;
            let mut o = vec![Op::Remove(1), Op::Remove(100), Op::Write, Op::Reopen, Op::WriteConsume, Op::SetGuid(3)];
            o.push(add_at(200, e + 3, 2));
            o.push(add_at(129, e + 6, 1));
            o.push(add_at(1, f5 + 8, 1));
            o.push(Op::Add { size: 1024, align: Some(e + 4), t: 0, flags: 0, name: 0 });
            o.push(Op::Update(Preset::Room(129)));
            o.push(Op::Update(Preset::Room(140)));
            o.push(Op::Update(Preset::High));
            o.push(Op::Update(Preset::Gap128));
            let mut d = dev_usable(Lb512, 200);
            d.resize(d.size() + 7, 1);
            ws.push(World::create(&format!("{n} partitions grow={} ro_backup={}", cfg.grow, cfg.ro_backup), d, cfg, o, d2).after(&[Op::Update(Preset::Room(n))]));
        }
    }
    // far beyond 32-bit sector numbers
    for (lb, len) in [(Lb512, (1u64 << 41) + 512 * 100 + 3), (Lb4096, (i64::MAX as u64) & !4095), (Lb512, (i64::MAX as u64) & !511)] {
        let f = first_usable(lb);
        let l = len / lbs(lb) - 2 - array_blocks(128, 128, lbs(lb)) as u64;
        let o = vec![
            add(lbs(lb) << 32, Some(1 << 20)),
            Op::AddAt { id: 2, first: l - 3, len: 4, t: 1, flags: 1 << 63, name: 2 },
            Op::AddAt { id: 5, first: (1 << 32) - 1, len: 3, t: 0, flags: 1 << 32, name: 0 },
            Op::AddAt { id: 1, first: f, len: 1, t: 0, flags: 1 << 32, name: 0 },
            Op::Remove(1),
            Op::SetGuid(2),
            Op::Update(Preset::Fancy),
            Op::Write,
            Op::Reopen,
            Op::WriteConsume,
        ];
        ws.push(World::create(&format!("huge {len} lb {}", lbs(lb)), Dev::sparse(len, true), Cfg::rw(lb), o, d3));
    }
    ws
}

/// the used partitions as a write numbers them
pub fn renumbered(p: &Parts) -> Vec<Partition> {
    p.values().filter(|p| is_used(p)).cloned().collect()
}

/// does the disk show exactly this table and disk GUID?
pub fn shows<D>(d: &GptDisk<D>, want: &[Partition], guid: &Uuid) -> Result<(), String> {
    if d.guid() != guid {
        return Err(format!("disk GUID {} instead of {guid}", d.guid()));
    }
    let got = d.partitions();
    for (i, w) in want.iter().enumerate() {
        let k = i as u32 + 1;
        let Some(p) = got.get(&k) else { return Err(format!("partition {k} is missing")) };
        REntry::of(w).same_as(p).map_err(|e| format!("partition {k}: {e}"))?;
        if p.part_type_guid != w.part_type_guid {
            return Err(format!("partition {k}: type {:?} instead of {:?}", p.part_type_guid, w.part_type_guid));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} partitions instead of {}", got.len(), want.len()));
    }
    Ok(())
}

pub fn wipe(d: &mut Dev, off: u64, n: u64) {
    d.poke(off, &vec![0; n as usize]);
}

// ---------------------------------------------------------------- C06

fn opens_with(dev: Dev, cfg: Cfg, want: &[Partition], guid: &Uuid, how: &str) -> Result<(), Fail> {
    let mut d = dev;
    d.reset();
    match cfg.gpt().open_from_device(d) {
        Ok(d) => shows(&d, want, guid).map_err(|e| (String::new(), format!("{how}: {e}"))),
        Err(e) => fail(format!("{how}: opening failed: {}", ekind(&e))),
    }
}
fn roundtrip(c: &mut Ctx, dev: &Dev, cfg: Cfg, want: &[Partition], guid: &Uuid) -> Result<(), Fail> {
    let mut cfg = cfg;
    opens_with(dev.clone(), cfg, want, guid, "reopened")?;
    cfg.strict = false;
    let bs = lbs(cfg.lb());
    let end = last_block(dev.size(), bs);
    let mut d = dev.clone();
    wipe(&mut d, end * bs, bs);
    opens_with(d, cfg, want, guid, "reopened without the backup header")?;
    c.hit("reopened");
    if !cfg.ro_backup {
        let mut d = dev.clone();
        wipe(&mut d, bs, bs);
        opens_with(d, cfg, want, guid, "reopened without the primary header")?;
        let mut d = dev.clone();
        wipe(&mut d, bs, 3 * bs);
        opens_with(d, cfg, want, guid, "reopened without the primary copy")?;
        c.hit("reopened from the backup");
    }
    Ok(())
}
/// what was opened is what an independent reader finds
fn m06_read(c: &mut Ctx, s: &Step) -> Result<(), Fail> {
    let end = last_block(s.post_dev.size(), s.lb());
    let found = [1, end].iter().find_map(|x| read_copy(&s.post_dev, s.world.cfg.lb(), *x).ok().filter(|c| c.h.psize == 128));
    let Some(copy) = found else { return Ok(()) };
    c.hit("tables opened");
    let want: BTreeMap<u32, REntry> = copy.entries().into_iter().filter(|(_, e)| e.used()).collect();
    for (k, p) in s.post.used() {
        match want.get(&k) {
            Some(e) => e.same_as(p).map_err(|e| (String::new(), format!("entry {k} as opened: {e}")))?,
            None => return fail(format!("partition {k} was opened, but is not in the table")),
        }
    }
    if let Some(k) = want.keys().find(|k| !s.post.parts.get(k).is_some_and(|p| p.is_used())) {
        return fail(format!("entry {k} of the table is missing in the opened disk"));
    }
    if s.post.guid != guid_from(&copy.h.guid) {
        return fail("the disk GUID is not the one in the header");
    }
    Ok(())
}
/// tables of every length with entries in few places, opened from either copy
pub fn sparse_tables(r: &mut Report) {
    let mut jobs = vec![];
    for lb in [Lb512, Lb4096] {
        for np in [1u32, 4, 5, 31, 32, 33, 127, 128, 129, 200, 256, 257, 513, 1030, 2050, 4100, 8200, 16390] {
            let mut at: Vec<Vec<u32>> = vec![vec![], vec![np], if np > 1 { vec![1, np] } else { vec![] }, (1..=np).filter(|k| k % 37 == 5).collect(), (1..=np).collect(), (np.saturating_sub(40).max(1)..=np).collect()];
            for k in [2, 64, 100, 128, 129, 255, 256, 257, 1024, 1025, 4096, 4097, 8192, 8193] {
                if k < np {
                    at.push(vec![k]);
                    at.push(vec![1, k]);
                }
            }
            jobs.extend(at.into_iter().map(|a| (lb, np, a)));
        }
    }
    let n0 = r.evals;
    par(r, &jobs, |c, (lb, np, at)| {
        let bs = lbs(*lb);
        let a = (*np as u64 * 128).div_ceil(bs).max(if bs == 512 { 32 } else { 4 });
        let mut i = Img::new(*lb, 3 + 2 * a + 40);
        i.nparts = *np;
        let f = 2 + a;
        i.entries = at.iter().map(|k| (*k, ent((*k % 3) as u8, *k, f + *k as u64, f + *k as u64 + 1, 1u64.rotate_left(*k), (*k % 9) as u8))).collect();
        for lost in ["", "primary header", "backup header", "primary array", "backup array"] {
            let mut d = i.build();
            if !lost.is_empty() {
                damage(&mut d, *lb, lost);
            }
            let case = format!("{np} entries, used {}, {lb:?}, lost: {lost:?}", clip(&format!("{at:?}"), 60));
            c.begin(&case);
            c.eval();
            c.seen(&case);
            let x = lib(|| -> Result<(), String> {
                let d = Cfg::rw(*lb).gpt().open_from_device(d).map_err(|e| format!("not opened: {}", ekind(&e)))?;
                let got = d.partitions();
                for (k, raw) in &i.entries {
                    let p = got.get(k).ok_or(format!("entry {k} is missing"))?;
                    dec_entry(raw).same_as(p).map_err(|e| format!("entry {k}: {e}"))?;
                }
                if got.len() != i.entries.len() {
                    return Err(format!("{} entries instead of {}", got.len(), i.entries.len()));
                }
                if d.header().num_parts != *np {
                    return Err(format!("the entry count is {}", d.header().num_parts));
                }
                Ok(())
            });
            match x {
                Ok(Ok(())) => {}
                Ok(Err(m)) => c.violation(m, case),
                Err(p) => c.violation(format!("panicked: {p}"), case),
            }
        }
    });
    r.parts.push(("tables with entries in few places".into(), r.evals - n0));
}
fn m06(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    let opened = s.op.is_none() && s.world.create.is_none() && s.world.prelude.is_empty();
    if opened || s.op == Some(Op::Reopen) && *s.res == Res::Unit {
        return m06_read(c, s);
    }
    if let (None, Some(g), true) = (s.op, s.world.create, s.world.prelude.is_empty()) {
        if s.post.guid != g {
            return fail(format!("created with the disk GUID {g}, got {}", s.post.guid));
        }
    }
    if !s.wrote() {
        return Ok(());
    }
    let want = renumbered(&s.pre.parts);
    c.seen((h64(&want.iter().map(REntry::of).collect::<Vec<_>>()), s.pre.guid));
    if s.op == Some(Op::WriteConsume) {
        shows(s.disk, &want, &s.pre.guid).map_err(|e| (String::new(), e))?;
    } else if s.post.parts != s.pre.parts || s.post.guid != s.pre.guid {
        return fail("writing in place changed the table or disk GUID in memory");
    }
    roundtrip(c, &s.post_dev, s.world.cfg, &want, &s.pre.guid)
}

pub fn c06(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    for mut w in write_worlds(deep).into_iter().chain(crowded_worlds(&[Op::Write])) {
        w.reopens = true;
        explore(&mut r, &w, &m06);
    }
    // every bit of every field; names of every length and width
    let mut all: Vec<Partition> = vec![];
    let base = || part(0, 1, 40, 50, 0, 0);
    for b in 0..64 {
        let mut p = base();
        p.first_lba = 1 << b;
        all.push(p.clone());
        p = base();
        p.last_lba = 1 << b;
        all.push(p.clone());
        p = base();
        p.flags = 1 << b;
        all.push(p.clone());
        p.flags = !(1 << b);
        all.push(p);
    }
    for b in 0..128 {
        let mut p = base();
        p.part_guid = Uuid::from_u128(1 << b);
        all.push(p.clone());
        p = base();
        p.part_type_guid = Type::from(Uuid::from_u128(1 << b));
        all.push(p.clone());
        p.part_type_guid = Type::from(Uuid::from_u128(!(1 << b)));
        all.push(p);
    }
    let units = ['a', 'ß', '本', '😀', '\u{1}', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
    for a in units {
        for n in 0..=40 {
            for tail in ['z', '😀', '本'] {
                let mut p = base();
                p.name = std::iter::repeat_n(a, n).collect();
                p.name.push(tail);
                all.push(p);
            }
        }
    }
    for n in 0..=75 {
        let mut p = base();
        p.name = (0..n).map(|i| char::from_u32(0x100 + i * 37).unwrap()).collect();
        all.push(p);
    }
    let groups: Vec<(u32, Vec<Partition>)> = all.chunks(16).enumerate().map(|(i, c)| (1 + (i as u32 * 7) % 100, c.to_vec())).collect();
    let n0 = r.evals;
    for lb in [Lb512, Lb4096] {
        par(&mut r, &groups, |c, (from, ps)| {
            let case = format!("lb {} numbers from {from}: {ps:?}", lbs(lb));
            c.begin(&case);
            c.eval();
            c.seen((from, lbs(lb)));
            let x = lib(|| {
                let g = fixed_guid(31);
                let mut d = Cfg::rw(lb).gpt().create_from_device(dev_usable(lb, 8), Some(g)).map_err(|e| (String::new(), ekind(&e)))?;
                let m: Parts = ps.iter().enumerate().map(|(i, p)| (from + i as u32, p.clone())).collect();
                d.update_partitions(m.clone()).map_err(|e| (String::new(), ekind(&e)))?;
                let dev = d.write().map_err(|e| (String::new(), ekind(&e)))?;
                roundtrip(c, &dev, Cfg::rw(lb), &renumbered(&m), &g)
            });
            c.sample(|| clip(&case, 300));
            match x {
                Ok(Ok(())) => {}
                Ok(Err((_, m))) => c.violation(m, case),
                Err(p) => c.violation(format!("panicked: {p}"), case),
            }
        });
    }
    r.parts.push(("single-bit entries and names, in groups".into(), r.evals - n0));
    r
}

// ---------------------------------------------------------------- C07

fn valid_after_write(dev: &Dev, cfg: Cfg, used: usize, guid: &Uuid, num_parts: u32) -> Result<(), Fail> {
    let (p, b) = validate_device(dev, cfg.lb(), !cfg.ro_backup).map_err(|e| (String::new(), e))?;
    for (who, c) in std::iter::once(("primary", &p)).chain(b.iter().map(|b| ("backup", b))) {
        if guid_from(&c.h.guid) != *guid {
            return fail(format!("{who} header has disk GUID {}, the disk's is {guid}", guid_from(&c.h.guid)));
        }
        if c.h.nparts != num_parts {
            return fail(format!("{who} header counts {} entries, the disk {num_parts}", c.h.nparts));
        }
        if c.table[(used * 128).min(c.table.len())..].iter().any(|x| *x != 0) {
            return fail(format!("{who} array: unused entries are not zero"));
        }
        if c.entries().values().filter(|e| e.used()).count() != used {
            return fail(format!("{who} array does not hold {used} used entries"));
        }
    }
    Ok(())
}
/// a table that moves to the end of a device of another length gets all of the room there
fn moved(s: &Step) -> Result<(), Fail> {
    let far = |h: &gpt::header::Header| h.current_lba.max(h.backup_lba);
    let (a, b) = (s.pre.header(), s.post.header());
    let end = last_block(s.post_dev.size(), s.lb());
    if far(a) != far(b) && far(b) == end && b.last_usable as u128 != end as u128 - 1 - array_blocks(b.num_parts as u64, b.part_size as u64, s.lb()) {
        return fail(format!("moved to the end of the device, block {end}, but the last usable block is {}", b.last_usable));
    }
    Ok(())
}
fn m07(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    if s.op.is_some_and(|o| !matches!(o, Op::Reopen | Op::WriteConsume)) {
        moved(s)?;
    }
    if !s.wrote() {
        return Ok(());
    }
    c.hit("writes");
    moved(s)?;
    valid_after_write(&s.post_dev, s.world.cfg, s.pre.used().count(), &s.pre.guid, s.pre.header().num_parts)
}
pub fn c07(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    for mut w in write_worlds(deep).into_iter().chain(crowded_worlds(&[Op::Write])) {
        w.reopens = true;
        explore(&mut r, &w, &m07);
    }
    r
}

// ---------------------------------------------------------------- C09

/// ranges of bytes a write may change, from the headers now on the device
fn allowed(dev: &Dev, cfg: Cfg) -> Result<Vec<(u64, u64)>, Fail> {
    let bs = lbs(cfg.lb());
    let end = last_block(dev.size(), bs);
    let mut v = vec![];
    for lba in [1, end] {
        if lba != 1 && cfg.ro_backup {
            continue;
        }
        let h = read_copy(dev, cfg.lb(), lba).map_err(|e| (String::new(), format!("after the write: {e}")))?.h;
        v.push((lba * bs, (lba + 1) * bs));
        v.push((h.pstart * bs, h.pstart * bs + h.nparts as u64 * h.psize as u64));
    }
    Ok(v)
}
fn m09(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    let cfg = s.world.cfg;
    let d = s.pre_dev.diff(&s.post_dev);
    if let Some(Op::Resize(_)) = s.op {
        return Ok(());
    }
    if s.post_dev.size() != s.pre_dev.size() || s.post_dev.grown {
        return fail(format!("the device length changed from {} to {}", s.pre_dev.size(), s.post_dev.size()));
    }
    if !s.wrote() {
        return Ok(());
    }
    c.hit("writes");
    let ok = allowed(&s.post_dev, cfg)?;
    for (a, b) in &d {
        let mut x = *a;
        while x < *b {
            match ok.iter().filter(|(p, q)| *p <= x && x < *q).map(|(_, q)| *q).max() {
                Some(q) => x = q,
                None => return fail(format!("byte {x} (block {}) changed, which belongs to no header or array {ok:?}", x / s.lb())),
            }
        }
    }
    // contents of partitions inside the range that was usable before
    let h = s.pre.header();
    for (k, p) in s.pre.used() {
        if p.first_lba < h.first_usable || p.last_lba > h.last_usable || p.first_lba > p.last_lba {
            continue;
        }
        let (x, y) = (p.first_lba as u128 * s.lb() as u128, (p.last_lba as u128 + 1) * s.lb() as u128);
        if d.iter().any(|(a, b)| (*a as u128) < y && x < *b as u128) {
            return fail(format!("the content of partition {k} changed"));
        }
    }
    let post = read_copy(&s.post_dev, cfg.lb(), 1).unwrap().h;
    let (x, y) = (post.first as u128 * s.lb() as u128, (post.last as u128 + 1) * s.lb() as u128);
    if d.iter().any(|(a, b)| (*a as u128) < y && x < *b as u128) {
        return fail("a block of the usable range changed");
    }
    if d.iter().any(|(a, _)| *a < s.lb()) {
        return fail("block 0 changed");
    }
    if cfg.ro_backup {
        // the backup copy: header and array as they were on the device
        let end = last_block(s.pre_dev.size(), s.lb());
        let mut keep = vec![(end * s.lb(), s.pre_dev.size())];
        if let Ok(b) = read_copy(s.pre_dev, cfg.lb(), end) {
            keep.push((b.h.pstart * s.lb(), b.h.pstart * s.lb() + b.table.len() as u64));
        }
        keep.push(((post.last + 1) * s.lb(), s.pre_dev.size()));
        for (x, y) in keep {
            if d.iter().any(|(a, b)| *a < y && x < *b) {
                return fail("the read-only backup copy changed");
            }
        }
        c.hit("writes with a read-only backup");
    }
    Ok(())
}

/// the one listed finding: growing the table of a disk without a free sector
const GROWTH_KEY: &str = "growth-196-blocks-129-partitions";
fn growth_finding(r: &mut Report) {
    let mut c = Ctx::new(0);
    let case = "196 blocks of 512 bytes, usable 34..=162, 128 one-sector partitions at 34..=161, permission to grow; add one partition of one sector, write";
    c.begin(case);
    c.eval();
    let x = lib(|| {
        let dev = Dev::patterned(196 * 512);
        let cfg = Cfg::rw(Lb512).growing();
        let mut d = cfg.gpt().create_from_device(dev.clone(), Some(fixed_guid(1))).map_err(|e| ekind(&e))?;
        for _ in 0..129 {
            d.add_partition("p", 512, ty(0), 0, None).map_err(|e| ekind(&e))?;
        }
        let lost: Vec<(u64, u64)> = d.partitions().values().map(|p| (p.first_lba, p.last_lba)).collect();
        let after = d.write().map_err(|e| ekind(&e))?;
        let d = dev.diff(&after);
        let hit = |x: u64, y: u64| d.iter().any(|(a, b)| *a < (y + 1) * 512 && x * 512 < *b);
        Ok::<_, String>(lost.iter().filter(|(x, y)| hit(*x, *y)).map(|(x, _)| *x).collect::<Vec<_>>())
    });
    match x {
        Ok(Ok(blocks)) => {
            let b = blocks;
            if b == [34, 162] {
                c.violation_key(GROWTH_KEY, "partition content in sectors 34 and 162 was overwritten by the enlarged arrays", case);
            } else if !b.is_empty() {
                c.violation(format!("partition content in sectors {b:?} was overwritten"), case);
            }
        }
        // a refusal protects the contents
        Ok(Err(e)) => c.outcome(&format!("growth on a full disk: {e}")),
        Err(p) => c.violation(format!("panicked: {p}"), case),
    }
    r.merge(c);
}

pub fn c09(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    for mut w in write_worlds(deep) {
        // pattern everywhere, so that a misplaced zero is seen; and room for growing arrays
        if w.name == "blank" {
            w.dev = Dev::patterned(w.dev.size());
        }
        if w.name.contains("partitions grow=true") {
            w.ops.retain(|o| !matches!(o, Op::Update(Preset::Gap128 | Preset::High)));
        }
        if w.name.starts_with("count ") {
            w.ops.retain(|o| !matches!(o, Op::Update(Preset::Many(_))));
        }
        explore(&mut r, &w, &m09);
    }
    growth_finding(&mut r);
    r
}

// ---------------------------------------------------------------- C10

fn m10(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    let quiet = |what: &str| -> Result<(), Fail> {
        if s.post_dev.wbytes != 0 || s.post_dev.writes != 0 || s.post_dev.grown || !s.pre_dev.diff(&s.post_dev).is_empty() {
            return fail(format!("{what} wrote {} bytes to the device", s.post_dev.wbytes));
        }
        Ok(())
    };
    match s.op {
        Some(Op::Write | Op::WriteConsume) if s.writable => Ok(()),
        Some(op @ (Op::Write | Op::WriteConsume)) => {
            c.hit("refused writes");
            if *s.res != Res::Err("ReadOnly".into()) {
                return fail(format!("{op:?} of a read-only disk returned {:?}", s.res));
            }
            quiet("a refused write")
        }
        Some(Op::Resize(_)) => Ok(()),
        Some(op) => {
            c.hit("quiet operations");
            quiet(&format!("{op:?}"))?;
            let before = s.disk.device_ref().wbytes;
            inspect(s.disk);
            let cl = s.disk.clone();
            inspect(&cl);
            if s.disk.device_ref().wbytes != before || cl.device_ref().wbytes != before {
                return fail("looking at the disk wrote to the device");
            }
            Ok(())
        }
        None => Ok(()),
    }
}
pub fn c10(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    let mut ws = write_worlds(deep);
    let f5 = first_usable(Lb512);
    for cfg in [Cfg::rw(Lb512).readonly(), Cfg::rw(Lb512).readonly().growing(), Cfg::rw(Lb512).readonly().ro_backup(), Cfg::rw(Lb512)] {
        let mut o = less(edits(512, f5));
        o.extend([Op::SwapSame(true), Op::SwapSame(false), Op::HandOver, Op::CloneSwap, Op::Inspect, Op::Update(Preset::Seq(129))]);
        let d = if deep { 4 } else { 3 };
        ws.push(World::open(&format!("modes {cfg:?}"), plain(Lb512).build(), cfg, o.clone(), d));
        ws.push(World::create(&format!("modes new {cfg:?}"), dev_usable(Lb512, 9), cfg, o, d));
    }
    let mut c = Ctx::new(0);
    for w in &ws {
        // opening and creating
        c.eval();
        c.begin(&w.hist(&[]));
        let mut w0 = w.clone();
        w0.prelude.clear();
        match lib(|| w0.start()) {
            Ok(Ok(run)) => {
                if run.dev().wbytes != 0 || !run.dev().diff(&w.dev).is_empty() {
                    c.violation("opening or creating wrote to the device", w.hist(&[]));
                }
            }
            Ok(Err(e)) => c.violation(format!("the initial state could not be made: {e}"), w.hist(&[])),
            Err(p) => c.violation(format!("panicked: {p}"), w.hist(&[])),
        }
    }
    r.merge(c);
    for w in &ws {
        explore(&mut r, w, &m10);
    }
    r
}

// ---------------------------------------------------------------- C15

fn m15(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    let Res::Err(_) = s.res else { return Ok(()) };
    match s.op {
        Some(Op::Reopen) | None => return Ok(()),
        Some(Op::WriteConsume) => {
            c.hit("refused consuming writes");
            if !s.pre_dev.diff(&s.post_dev).is_empty() {
                return fail("a refused write changed the device");
            }
            return Ok(());
        }
        _ => {}
    }
    c.hit("refusals");
    if s.post != s.pre {
        return fail("a refused operation changed the disk in memory");
    }
    if !s.pre_dev.diff(&s.post_dev).is_empty() || s.post_dev.size() != s.pre_dev.size() {
        return fail("a refused operation changed the device");
    }
    Ok(())
}

/// worlds in which much is refused
fn refusing_worlds(deep: bool) -> Vec<World> {
    let f5 = first_usable(Lb512);
    let mut ws = vec![];
    let d = if deep { 4 } else { 3 };
    for cfg in [Cfg::rw(Lb512), Cfg::rw(Lb512).growing(), Cfg::rw(Lb512).readonly(), Cfg::rw(Lb512).readonly().growing(), Cfg::rw(Lb512).growing().ro_backup()] {
        for u in [1u64, 3] {
            let mut o = vec![
                add(512, None),
                add(1024, Some(3)),
                add(512 * 50, None),
                add_at(1, f5, 1),
                add_at(2, f5 + 1, 2),
                add_at(2, f5 - 1, 2),
                add_at(129, f5, 1),
                add_at(u32::MAX, f5, 1),
                Op::Remove(1),
                Op::SetGuid(4),
                Op::Write,
                Op::WriteConsume,
                Op::Update(Preset::PlusUnused),
            ];
            for p in [Preset::Many(128), Preset::Many(129), Preset::Many(150), Preset::Many(4000), Preset::High, Preset::Overlap, Preset::AllUnused, Preset::OddUnused] {
                o.push(Op::Update(p));
            }
            ws.push(World::create(&format!("refusals {u} usable {cfg:?}"), dev_usable(Lb512, u), cfg, o.clone(), if u == 1 { d } else { d - 1 }));
            let mut i = Img::new(Lb512, 3 + 2 * 32 + u);
            i.entries = vec![(1, ent(0, 1, f5, f5, 0, 0))];
            ws.push(World::open(&format!("refusals opened {u} usable {cfg:?}"), i.build(), cfg, o, d - 1));
        }
        // exactly full
        for n in [127u32, 128] {
            let o = vec![
                add(512, None),
                add_at(128, f5 + 200, 1),
                add_at(129, f5 + 127, 1),
                add_at(5, f5 + 4, 1),
                Op::Remove(5),
                Op::Update(Preset::Many(129)),
                Op::Update(Preset::Room(200)),
                Op::Write,
                Op::SetGuid(3),
            ];
            ws.push(World::create(&format!("refusals full {n} {cfg:?}"), dev_usable(Lb512, 128), cfg, o, d - 1).after(&[Op::Update(Preset::Seq(n))]));
        }
        // a foreign table with few entries in front of its partitions
        let mut i = Img::new(Lb512, 80);
        i.nparts = 4;
        i.entries = vec![(1, ent(0, 1, 3, 34, 0, 0)), (4, ent(0, 2, 40, 41, 0, 0))];
        let o = vec![add(512, None), add_at(5, 50, 1), add_at(2, 50, 1), Op::Update(Preset::Many(4)), Op::Update(Preset::Many(5)), Op::Update(Preset::Empty), Op::Write, Op::Reopen];
        ws.push(World::open(&format!("refusals few entries {cfg:?}"), i.build(), cfg, o, d));
        // no room for 128 entries at all
        let mut i = Img::new(Lb512, 20);
        i.nparts = 4;
        i.entries = vec![(1, ent(0, 1, 5, 6, 0, 0))];
        let o = vec![add(512, None), add_at(2, 10, 1), add_at(9, 11, 1), Op::Update(Preset::Many(4)), Op::Update(Preset::Many(5)), Op::Update(Preset::Empty), Op::SetGuid(1), Op::Remove(1), Op::Write, Op::Reopen];
        ws.push(World::open(&format!("refusals tiny {cfg:?}"), i.build(), cfg, o, d));
    }
    ws
}

pub fn c15(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    for w in refusing_worlds(deep).iter().chain(&write_worlds(false)) {
        explore(&mut r, w, &m15);
    }
    // device errors at every device operation of every call that talks to the device
    let f5 = first_usable(Lb512);
    let mut ws = vec![];
    for cfg in [Cfg::rw(Lb512), Cfg::rw(Lb512).growing(), Cfg::rw(Lb512).ro_backup(), Cfg::rw(Lb512).growing().ro_backup()] {
        ws.push(World::open("plain", plain(Lb512).build(), cfg, vec![], 0).after(&[Op::SetGuid(9), Op::AddAt { id: 9, first: f5 + 3, len: 1, t: 0, flags: 0, name: 0 }]));
        ws.push(World::create("new", dev_usable(Lb512, 8), cfg, vec![], 0).after(&[Op::Update(Preset::Overlap)]));
        ws.push(World::create("full", dev_usable(Lb512, 200), cfg, vec![], 0).after(&[Op::Update(Preset::Room(128)), Op::SetGuid(8)]));
        let mut d = plain(Lb512).build();
        damage(&mut d, Lb512, "primary header");
        ws.push(World::open("primary damaged", d, cfg, vec![], 0).after(&[Op::SetGuid(9), Op::Remove(1)]));
        let mut d = plain(Lb512).build();
        damage(&mut d, Lb512, "backup array");
        ws.push(World::open("backup damaged", d, cfg, vec![], 0).after(&[Op::SetGuid(9), Op::Remove(2)]));
        let mut d = plain(Lb4096).build();
        d.resize(d.size() + 5000, 0);
        let mut c4 = cfg;
        c4.lb4k = true;
        ws.push(World::open("grown 4k", d, c4, vec![], 0).after(&[Op::SetGuid(9), Op::Remove(1)]));
    }
    let ops = [Op::Write, Op::Update(Preset::Empty), Op::Update(Preset::Many(129)), Op::Update(Preset::Same), add(512, None), add_at(4, f5 + 2, 1), add_at(129, f5 + 180, 1), Op::SwapSame(true), Op::SwapSame(false)];
    let mut jobs = vec![];
    for (wi, w) in ws.iter().enumerate() {
        for op in ops {
            let n = {
                let mut run = w.start().unwrap();
                run.disk.as_mut().unwrap().device_mut().reset();
                run.apply(op);
                run.dev().nops
            };
            for at in 0..=n {
                for onwards in [false, true] {
                    for kind in [FaultKind::Fail(ErrorKind::Other), FaultKind::Fail(ErrorKind::UnexpectedEof), FaultKind::Nothing, FaultKind::TornFail] {
                        jobs.push((wi, op, Fault { at, onwards, kind }));
                    }
                }
            }
        }
    }
    let n0 = r.evals;
    par(&mut r, &jobs, |c, (wi, op, f)| {
        let w = &ws[*wi];
        let case = format!("{} then {op:?} with {f:?}", w.hist(&[]));
        c.begin(&case);
        c.eval();
        let mut run = w.start().unwrap();
        let pre = Snap::of(run.disk.as_ref().unwrap());
        let before = run.dev().clone();
        {
            let d = run.disk.as_mut().unwrap().device_mut();
            d.reset();
            d.faults = vec![*f];
        }
        let res = run.apply(*op);
        c.outcome(&format!("fault {} {}", if *op == Op::Write { "write" } else { "edit" }, res.kind()));
        if run.disk.is_none() {
            return;
        }
        let post = Snap::of(run.disk.as_ref().unwrap());
        c.seen((wi, *op, f.at, format!("{:?}", f.kind), f.onwards));
        match res {
            Res::Err(_) => {
                c.hit("errors");
                if post.parts != pre.parts || post.guid != pre.guid {
                    c.violation(format!("{op:?} failed on a device error and changed the partitions or disk GUID in memory"), case);
                } else if *op != Op::Write && (post != pre || !before.diff(run.dev()).is_empty()) {
                    c.violation(format!("{op:?} failed on a device error and changed the headers or the device"), case);
                }
            }
            Res::Panic(p) => c.violation(format!("panicked: {p}"), case),
            _ => {}
        }
    });
    r.parts.push(("calls with a device error".into(), r.evals - n0));
    r
}

// ---------------------------------------------------------------- C16

fn disk_count(d: &Dev, cfg: Cfg) -> Option<u32> {
    let end = last_block(d.size(), lbs(cfg.lb()));
    [1, end].iter().find_map(|l| read_copy(d, cfg.lb(), *l).ok()).map(|c| c.h.nparts)
}
fn m16(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    let cfg = s.world.cfg;
    let (a, b) = (s.pre.header().num_parts, s.post.header().num_parts);
    let Some(op) = s.op else { return Ok(()) };
    if op == Op::Reopen {
        // what is not written is not kept
        if let (Some(n), Ok(_)) = (disk_count(s.pre_dev, cfg), read_copy(s.pre_dev, cfg.lb(), 1)) {
            if b != n {
                return fail(format!("reopened with {b} entries, the device has {n}"));
            }
        }
        return Ok(());
    }
    if b < a {
        return fail(format!("the entry count decreased from {a} to {b}"));
    }
    if !cfg.grow && b != a {
        return fail(format!("the entry count changed from {a} to {b} without permission"));
    }
    if b != a {
        c.hit("growths");
        if !matches!(op, Op::Add { .. } | Op::AddAt { .. } | Op::Update(_)) {
            return fail(format!("{op:?} changed the entry count from {a} to {b}"));
        }
        if !s.res.is_ok() {
            return fail("a refused operation changed the entry count");
        }
    }
    if s.wrote() {
        c.hit("writes");
        let n = disk_count(&s.post_dev, cfg);
        if n != Some(a) {
            return fail(format!("{a} entries before the write, {n:?} on the device after it"));
        }
        for lba in [1, last_block(s.post_dev.size(), s.lb())] {
            if lba != 1 && cfg.ro_backup {
                continue;
            }
            match read_copy(&s.post_dev, cfg.lb(), lba) {
                Ok(x) if x.h.nparts == a => {}
                x => return fail(format!("{a} entries before the write; block {lba} has {:?}", x.map(|x| x.h.nparts))),
            }
        }
    }
    if s.res.is_ok() && matches!(op, Op::Add { .. } | Op::AddAt { .. } | Op::Update(_)) {
        let used = s.post.used().count();
        if used > b as usize {
            return fail(format!("{used} partitions and only {b} entries"));
        }
    }
    if !cfg.grow {
        let too_many = match op {
            Op::AddAt { id, first, len, .. } => {
                let free = s.pre.free().iter().any(|(x, n)| first >= *x && len <= *n && first - x <= n - len);
                let taken = s.pre.parts.get(&id).is_some_and(is_used);
                if id > a && !taken && !free && s.res.is_ok() {
                    return fail("added beyond the entry count");
                }
                id > a && !taken && free && !s.pre.inverted()
            }
            Op::Update(p) => preset(p, &s.pre.parts, s.pre.header()).len() > a as usize,
            Op::Add { .. } => {
                if lowest_unused(s.pre) > a && s.res.is_ok() {
                    return fail("added beyond the entry count");
                }
                false
            }
            _ => false,
        };
        if too_many {
            c.hit("refused growths");
            if *s.res != Res::Err("PartitionCountWouldChange".into()) {
                return fail(format!("needs more entries than the {a} there are, but the result is {:?}", s.res));
            }
        }
    } else if let Op::Update(p) = op {
        let n = preset(p, &s.pre.parts, s.pre.header()).len() as u32;
        let f = s.pre.header().first_usable;
        let big = s.post_dev.size() / s.lb();
        // with permission and plenty of room it must work
        if n > a && n < 300 && big > 2 * f.max(80) + 40 && !s.res.is_ok() {
            return fail(format!("{n} entries are allowed and fit, but the result is {:?}", s.res));
        }
    }
    Ok(())
}

pub fn c16(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    let mut ws = write_worlds(deep);
    let f5 = first_usable(Lb512);
    for cfg in [Cfg::rw(Lb512), Cfg::rw(Lb512).growing(), Cfg::rw(Lb512).growing().ro_backup(), Cfg::rw(Lb512).ro_backup()] {
        for n in [125u32, 127, 128, 129, 132, 133] {
            if n > 128 && !cfg.grow {
                continue;
            }
            let e = f5 + 300;
            let mut o = vec![add(512, None), Op::Remove(2), Op::Remove(n), Op::Take, Op::Write, Op::Reopen, Op::CloneSwap, Op::HandOver, Op::SwapSame(true), Op::SetGuid(1)];
            for id in [2, 126, 128, 129, 130, 133, 1000, u32::MAX] {
                o.push(Op::AddAt { id, first: e + id as u64 % 31, len: 1, t: 0, flags: 0, name: 0 });
            }
            for p in [Preset::Empty, Preset::Room(128), Preset::Room(129), Preset::Room(137), Preset::High, Preset::Gap128, Preset::PlusUnused, Preset::ShiftUp] {
                o.push(Op::Update(p));
            }
            ws.push(World::create(&format!("{n} entries {cfg:?}"), dev_usable(Lb512, 400), cfg, o, if deep { 4 } else { 3 }).after(&[Op::Update(Preset::Room(n))]));
        }
    }
    ws.extend(crowded_worlds(&[add(512, None), Op::Write]));
    for w in &ws {
        explore(&mut r, w, &m16);
    }
    r
}

// ---------------------------------------------------------------- C17

fn m17(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    if !s.wrote() {
        return Ok(());
    }
    c.hit("writes");
    let cfg = s.world.cfg;
    let e = |e: gpt::GptError| (String::new(), format!("the repeated write or open failed: {}", ekind(&e)));
    let same = |d: &Dev, how: &str| -> Result<(), Fail> {
        let x = s.post_dev.diff(d);
        if !x.is_empty() {
            return fail(format!("{how} changed bytes {:?}", &x[..x.len().min(5)]));
        }
        Ok(())
    };
    // the disk stays as it is in memory
    if matches!(s.op, Some(Op::Write)) && (s.post.parts != s.pre.parts || s.post.guid != s.pre.guid) {
        return fail("writing changed the partitions or the GUID in memory");
    }
    // what the live object says against what a reopen reads
    let o = cfg.gpt().open_from_device(s.post_dev.clone()).map_err(e)?;
    let want = Snap::of(&o);
    if s.post.h1 != want.h1 {
        return fail(format!("primary header in memory {:?}, read back {:?}", s.post.h1, want.h1));
    }
    if !cfg.ro_backup && s.post.h2 != want.h2 {
        return fail(format!("backup header in memory {:?}, read back {:?}", s.post.h2, want.h2));
    }
    let mut again = s.disk.clone();
    again.write_inplace().map_err(e)?;
    same(again.device_ref(), "writing once more")?;
    if Snap::of(&again) != *s.post {
        return fail("writing once more changed the disk in memory");
    }
    again.write_inplace().map_err(e)?;
    same(&again.write().map_err(e)?, "writing three times more")?;
    let d = o.write().map_err(e)?;
    same(&d, "reopening and writing")?;
    let mut other = cfg;
    other.grow = !other.grow;
    other.strict = false;
    let mut o = other.gpt().open_from_device(d).map_err(e)?;
    o.write_inplace().map_err(e)?;
    same(o.device_ref(), "reopening with the other count permission and writing")?;
    Ok(())
}
pub fn c17(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    for mut w in write_worlds(deep).into_iter().chain(crowded_worlds(&[Op::Write])) {
        w.reopens = true;
        explore(&mut r, &w, &m17);
    }
    r
}

// ---------------------------------------------------------------- C26

/// the part of the disk in memory that an operation may not touch, and what it must become
fn m26(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    let (pre, post) = (s.pre, s.post);
    let all_guids = |g: &Uuid| pre.guid == *g || pre.parts.values().any(|p| p.part_guid == *g) || pre.h1.iter().chain(&pre.h2).any(|h| h.disk_guid == *g);
    if let (Some(op), true) = (s.op, s.res.is_ok()) {
        // the table
        let mut parts = pre.parts.clone();
        let mut guid = Some(pre.guid);
        let mut headers = true;
        match (op, s.res) {
            (Op::Add { t, flags, name, .. } | Op::AddAt { t, flags, name, .. }, Res::Id(id)) => {
                c.hit("adds");
                let Some(p) = post.parts.get(id) else { return fail("the added entry is not shown") };
                if p.part_type_guid != ty(t) || p.part_type_guid.os != ty(t).os || p.flags != flags || p.name != nm(name) || p.part_guid.is_nil() || all_guids(&p.part_guid) {
                    return fail("the added entry does not have the given properties and a new GUID");
                }
                if let Op::AddAt { id: want, first, len, .. } = op {
                    if *id != want || p.first_lba != first || p.last_lba - first != len - 1 {
                        return fail("the added entry does not have the given place");
                    }
                }
                parts.insert(*id, p.clone());
                // with this permission the entry count may grow
                headers = !s.world.cfg.grow;
            }
            (Op::Remove(id), Res::Opt(x)) => {
                c.hit("removals");
                let there = parts.remove(&id).is_some();
                if *x != there.then_some(id) {
                    return fail("a removal by number reports something else than it removed");
                }
            }
            (Op::RemoveGuidOf(k), Res::Opt(x)) => {
                c.hit("removals");
                let id = parts.values().nth(k).map(|p| p.part_guid).and_then(|g| parts.iter().find(|(_, p)| p.part_guid == g)).map(|(k, _)| *k);
                if let Some(id) = id {
                    parts.remove(&id);
                }
                if *x != id {
                    return fail("a removal by GUID reports something else than the first entry with it");
                }
            }
            (Op::RemoveGuidAbsent, Res::Opt(x)) => {
                if x.is_some() {
                    return fail("the removal of a GUID that no entry has reports a number");
                }
            }
            (Op::SetGuid(i), _) => {
                c.hit("GUIDs set");
                guid = Some(if i == NIL { Uuid::nil() } else { fixed_guid(100_000 + i) });
            }
            (Op::NewGuid, _) => {
                c.hit("GUIDs drawn");
                guid = None;
                if post.guid.is_nil() || all_guids(&post.guid) {
                    return fail("the new disk GUID is not a new one");
                }
            }
            (Op::Update(p), _) => {
                c.hit("tables replaced");
                parts = preset(p, &pre.parts, pre.header());
                headers = false;
            }
            (Op::Take, _) => {
                c.hit("tables taken");
                parts.clear();
            }
            (Op::Write, _) => headers = false,
            (Op::Reopen | Op::WriteConsume, _) => return Ok(()),
            _ => c.hit("calls that only look or hand over"),
        }
        if post.parts != parts || !post.parts.iter().zip(&parts).all(|((_, a), (_, b))| a.part_type_guid.os == b.part_type_guid.os) {
            return fail("the table shown afterwards is not the table before with the change asked for");
        }
        if guid.is_some_and(|g| g != post.guid) {
            return fail("the disk GUID shown afterwards is not the expected one");
        }
        if headers && (pre.h1 != post.h1 || pre.h2 != post.h2) {
            return fail("an edit that does not concern the headers changed them");
        }
    }
    // what is asked for in several ways gets one answer
    let d = &mut *s.disk;
    if d.header() != post.header() || d.partitions() != &post.parts || *d.guid() != post.guid || *d.logical_block_size() != s.world.cfg.lb() {
        return fail("header(), partitions(), guid() or logical_block_size() are not what was seen before");
    }
    inspect(d);
    if Snap::of(d) != *post {
        return fail("looking at the disk changed it");
    }
    // a table with a number 0 is never accepted
    let mut zero = post.parts.clone();
    zero.insert(0, part(0, 5, 40, 41, 0, 0));
    if lib(|| d.update_partitions(zero)).is_ok_and(|r| r.is_ok()) {
        return fail("a table with a partition 0 was accepted");
    }
    if Snap::of(d) != *post {
        return fail("a table with a partition 0 changed the disk");
    }
    // an entry of the library's own making goes in and out of a table unchanged
    let given = d.take_partitions();
    if given != post.parts || !d.partitions().is_empty() {
        return fail("taking the table does not give all of it and leave none");
    }
    let rest = Snap::of(d);
    if (rest.guid, &rest.h1, &rest.h2) != (post.guid, &post.h1, &post.h2) {
        return fail("taking the table changed more than the table");
    }
    match lib(|| d.update_partitions(given)) {
        Ok(Ok(())) => {
            c.hit("tables put back");
            if *d.partitions() != post.parts || *d.guid() != post.guid {
                return fail("a table that is taken and put back is another one");
            }
        }
        Ok(Err(_)) => {
            if !d.partitions().is_empty() {
                return fail("a refused table is shown");
            }
        }
        Err(p) => return fail(format!("putting the table back panicked: {p}")),
    }
    if !s.post_dev.diff(d.device_ref()).is_empty() {
        return fail("an edit in memory wrote to the device");
    }
    Ok(())
}

pub fn c26(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    let mut ws = write_worlds(deep);
    ws.extend(memory_worlds(if deep { 4 } else { 3 }));
    for w in &ws {
        explore(&mut r, w, &m26);
    }
    r
}

pub fn memory_worlds(d: usize) -> Vec<World> {
    let mut ws = vec![];
    let f5 = first_usable(Lb512);
    for cfg in [Cfg::rw(Lb512), Cfg::rw(Lb512).growing(), Cfg::rw(Lb512).readonly(), Cfg::rw(Lb512).ro_backup().growing()] {
        let mut o = edits(512, f5);
        o.retain(|o| !matches!(o, Op::Reopen | Op::WriteConsume));
        o.extend([
            Op::RemoveGuidAbsent,
            Op::RemoveGuidOf(0),
            Op::Remove(0),
            Op::Remove(3),
            Op::Remove(u32::MAX),
            Op::Inspect,
            Op::CloneSwap,
            Op::HandOver,
            Op::SwapSame(true),
            Op::SwapSame(false),
            Op::Update(Preset::Same),
            Op::Update(Preset::Empty),
            Op::Update(Preset::AllUnused),
            Op::Update(Preset::OddUnused),
            Op::Update(Preset::High),
            Op::Update(Preset::Padded(3, 9)),
            Op::Update(Preset::Seq(129)),
            Op::Update(Preset::Inverted),
            Op::Update(Preset::OutOfRange),
            Op::SetGuid(2),
        ]);
        for n in 0..13 {
            if n > 2 {
                o.push(Op::Add { size: 1, align: None, t: 2, flags: u64::MAX, name: n });
            }
        }
        ws.push(World::open(&format!("memory {cfg:?}"), plain(Lb512).build(), cfg, o.clone(), d));
        ws.push(World::create(&format!("memory new {cfg:?}"), dev_usable(Lb512, 40), cfg, o, d));
    }
    ws
}
