//! C14: absurd contents and arguments must give a value or an error.
use super::alloc::*;
use super::fault::*;
use super::write::*;
use crate::dev::Dev;
use crate::refm::*;
use crate::rep::*;
use crate::sm::*;
use gpt::disk::LogicalBlockSize::{self, Lb4096, Lb512};
use gpt::header::{parse_uuid, read_header_from_arbitrary_device, Header, HeaderBuilder};
use gpt::mbr::{self, PartRecord, ProtectiveMBR};
use gpt::partition::{file_read_partitions, Partition};
use gpt::partition_types::Type;
use gpt::GptDisk;
use std::str::FromStr;

/// one allocation this big, asked for by a device this small, is running away
const BIG: usize = 256 << 20;

fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    crate::PEAK.with(|p| p.set(0));
    let r = lib(f).map_err(|p| format!("{what} panicked: {p}"))?;
    let n = crate::PEAK.with(|p| p.get());
    if n > BIG {
        return Err(format!("{what} asked for {n} bytes of memory"));
    }
    Ok(r)
}

fn u64s(dev: u64, bs: u64, deep: bool) -> Vec<u64> {
    let end = last_block(dev, bs);
    let mut v = vec![0, 1, 2, 33, 34, 35, end.saturating_sub(33), end.saturating_sub(1), end, end + 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1u64 << 63) / bs, u64::MAX / bs, u64::MAX / bs + 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
    if deep {
        v.extend([3, 5, 6, 7, 36, 40, end / 2, end + 2, end + 34, 1 << 40, 1 << 53, (1 << 63) / bs + 1, u64::MAX / bs - 1, (1 << 63) + 1, u64::MAX - 33, u64::MAX - 34, u64::MAX - 2]);
    }
    v.sort();
    v.dedup();
    v
}
const U32S: [u32; 17] = [0, 1, 2, 3, 4, 5, 127, 128, 129, 160, 255, 1 << 16, 1 << 22, (1 << 31) - 1, 1 << 31, u32::MAX - 1, u32::MAX];

/// look at the disk, edit it in every way, write it and open what was written
fn torture(d: &GptDisk<Dev>, cfg: Cfg, writes: bool, edits: &[Op]) -> Result<(), String> {
    guarded("looking at the disk", || inspect(d))?;
    let mut alone = vec![Op::Write];
    // placements at the edges of what the header calls usable
    let (first, last) = (d.header().first_usable, d.header().last_usable);
    let at = |first: u64, len: u64| Op::AddAt { id: 3, first, len, t: 0, flags: 0, name: 0 };
    alone.extend([at(first, 1), at(last, 1)]);
    if last >= first && last - first < u64::MAX {
        alone.push(at(first, last - first + 1));
    }
    for op in edits.iter().chain(&alone) {
        let mut run = Run { cfg, writable: cfg.writable, disk: Some(d.clone()) };
        let seq: Vec<Op> = if *op == Op::Write { vec![Op::Write, Op::Write, Op::Reopen] } else if writes { vec![*op, Op::Inspect, Op::Write, Op::Inspect, Op::Reopen] } else { vec![*op, Op::Inspect] };
        for o in seq {
            if run.disk.is_none() {
                break;
            }
            let r = guarded(&format!("{o:?}"), || run.apply(o))?;
            if let Res::Panic(p) = r {
                return Err(format!("{op:?}, then {o:?}: panicked: {p}"));
            }
        }
    }
    Ok(())
}
fn few(bs: u64) -> Vec<Op> {
    vec![
        add(1, None),
        Op::Add { size: u64::MAX, align: Some(u64::MAX), t: 0, flags: u64::MAX, name: 4 },
        Op::Add { size: bs * 2, align: Some(2048), t: 1, flags: 1, name: 2 },
        Op::AddAt { id: 1, first: 34, len: 1, t: 0, flags: 0, name: 0 },
        Op::AddAt { id: 129, first: 40, len: 1, t: 0, flags: 0, name: 0 },
        Op::AddAt { id: u32::MAX, first: u64::MAX, len: u64::MAX, t: 0, flags: 0, name: 0 },
        Op::Remove(1),
        Op::Take,
        Op::Update(Preset::Same),
        Op::Update(Preset::Many(130)),
        Op::Update(Preset::Fancy),
        Op::SetGuid(1),
        Op::CloneSwap,
    ]
}

fn try_open(c: &mut Ctx, dev: &Dev, cfg: Cfg, writes: bool, edits: &[Op], case: &dyn Fn() -> String) {
    c.eval();
    let d = dev.clone();
    let r = guarded("opening", || cfg.gpt().open_from_device(d)).and_then(|r| match r {
        Ok(g) => {
            c.outcome("opened");
            torture(&g, cfg, writes, edits)
        }
        Err(e) => {
            c.outcome("refused");
            guarded("showing the error", || format!("{e} {e:?} {}", std::error::Error::source(&e).map(|s| s.to_string()).unwrap_or_default())).map(|_| ())
        }
    });
    if let Err(m) = r {
        c.violation(m, case());
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum F {
    Rev,
    Size,
    Reserved,
    My,
    Alt,
    First,
    Last,
    Start,
    Num,
    Esize,
    Pcrc,
}
const FIELDS: [F; 11] = [F::Rev, F::Size, F::Reserved, F::My, F::Alt, F::First, F::Last, F::Start, F::Num, F::Esize, F::Pcrc];
fn values(f: F, len: u64, bs: u64, deep: bool) -> Vec<u64> {
    match f {
        F::My | F::Alt | F::First | F::Last | F::Start => u64s(len, bs, deep),
        F::Num | F::Esize => U32S.iter().map(|x| *x as u64).collect(),
        _ => vec![0, 1, 91, u32::MAX as u64],
    }
}
fn set(h: &mut RHeader, f: F, v: u64) {
    match f {
        F::Rev => h.rev = v as u32,
        F::Size => h.hsize = v as u32,
        F::Reserved => h.reserved = v as u32,
        F::My => h.my = v,
        F::Alt => h.alt = v,
        F::First => h.first = v,
        F::Last => h.last = v,
        F::Start => h.pstart = v,
        F::Num => h.nparts = v as u32,
        F::Esize => h.psize = v as u32,
        F::Pcrc => h.pcrc = v as u32,
    }
}
/// put the header down, with an array checksum that fits what is on the device
fn place(d: &mut Dev, lb: LogicalBlockSize, at: u64, mut h: RHeader, pcrc: bool) {
    let bs = lbs(lb);
    if pcrc {
        let n = h.nparts as u64 * h.psize as u64;
        if n <= d.size() {
            if let Some(t) = h.pstart.checked_mul(bs).and_then(|o| d.peek(o, n as usize)) {
                h.pcrc = crc32(&t);
            }
        }
    }
    d.poke(at * bs, &h.sealed());
}

pub fn c14(deep: bool) -> Report {
    let mut r = Report::new(
        "exploration",
        "all pairs of boundary values of header fields under valid checksums (primary, backup, both), all pairs of boundary spans of entries, devices of every small length and filling, then looking, editing and writing in several configurations; boundary arguments of every public call; byte slices of every small length. A panic, an abort, an allocation above 256 MiB or a case of more than a minute is a violation. distinct_nontrivial counts distinct contents and arguments",
    );
    // headers
    let mut items: Vec<(LogicalBlockSize, u8, F, u64, F)> = vec![];
    for lb in [Lb512, Lb4096] {
        let len = plain(lb).blocks * lbs(lb);
        for place in 0..3u8 {
            for (i, f) in FIELDS.iter().enumerate() {
                for v in values(*f, len, lbs(lb), deep) {
                    for g in &FIELDS[i..] {
                        items.push((lb, place, *f, v, *g));
                    }
                }
            }
        }
    }
    par(&mut r, &items, |c, (lb, who, f, v, g)| {
        let bs = lbs(*lb);
        let i = plain(*lb);
        let len = i.blocks * bs;
        let end = i.blocks - 1;
        let all = few(bs);
        let some = [all[0], all[4], all[8], all[9]];
        let ws: Vec<u64> = if f == g { vec![*v] } else { values(*g, len, bs, deep) };
        for w in ws {
            let mut d = i.build();
            let (mut p, mut b) = i.headers();
            for h in [&mut p, &mut b] {
                set(h, *f, *v);
                set(h, *g, w);
            }
            let pcrc = *f != F::Pcrc && *g != F::Pcrc;
            match who {
                0 => {
                    place(&mut d, *lb, 1, p, pcrc);
                    wipe(&mut d, end * bs, bs);
                }
                1 => {
                    place(&mut d, *lb, end, b, pcrc);
                    wipe(&mut d, bs, bs);
                }
                _ => {
                    place(&mut d, *lb, 1, p, pcrc);
                    place(&mut d, *lb, end, b, pcrc);
                }
            }
            c.seen((*who, f, v, g, w));
            let mut cfgs = vec![Cfg::rw(*lb).growing()];
            if f == g || deep {
                cfgs.extend([Cfg::rw(*lb), Cfg::rw(*lb).ro_backup(), Cfg::rw(*lb).strict().growing(), Cfg::rw(*lb).readonly()]);
            }
            for cfg in cfgs {
                let case = || format!("lb {bs}, {} header with {f:?}={v:#x} {g:?}={w:#x}, {cfg:?}", ["primary", "backup", "either"][*who as usize]);
                c.begin(&case());
                try_open(c, &d, cfg, true, if f == g || deep { &all } else { &some }, &case);
            }
        }
    });
    let n0 = r.evals;
    r.parts.push(("header fields".into(), n0));
    // entries
    let mut items = vec![];
    for lb in [Lb512, Lb4096] {
        let v = u64s(plain(lb).blocks * lbs(lb), lbs(lb), deep);
        for a in &v {
            for b in &v {
                items.push((lb, *a, *b));
            }
        }
    }
    par(&mut r, &items, |c, (lb, a, b)| {
        let bs = lbs(*lb);
        let v = u64s(plain(*lb).blocks * bs, bs, deep);
        let others: Vec<(u64, u64)> = v.iter().step_by(if deep { 2 } else { 4 }).flat_map(|x| v.iter().skip(1).step_by(if deep { 3 } else { 5 }).map(move |y| (*x, *y))).collect();
        for (k, (x, y)) in std::iter::once((1u64, 0u64)).chain(others).enumerate() {
            let mut i = plain(*lb);
            i.entries = vec![(2, ent((k % 4) as u8, 1, *a, *b, u64::MAX, 8))];
            if k > 0 {
                i.entries.push((128, ent(1, 2, x, y, 0, 1)));
            }
            let case = || format!("lb {bs}, entries {a:#x}..={b:#x} and {:?}", (k > 0).then_some((x, y)));
            c.begin(&case());
            c.seen((bs, a, b, x, y));
            let ops = few(bs);
            let ops = if k == 0 { &ops[..] } else { &ops[..5] };
            try_open(c, &i.build(), Cfg::rw(*lb), k == 0, ops, &case);
        }
    });
    // every 16-bit unit, and pairs around the surrogates, in a name
    let mut units: Vec<Vec<u16>> = (0..=u16::MAX).step_by(if deep { 1 } else { 16 }).map(|u| vec![u, 0x41, u]).collect();
    let s = [0xD7FFu16, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0, 0xFFFF, 0xFEFF, 0xFFFE];
    for a in s {
        for b in s {
            units.push(vec![a, b]);
            units.push(std::iter::repeat_n([a, b], 18).flatten().collect());
            let mut t = vec![0x41; 34];
            t.extend([a, b]);
            units.push(t);
        }
    }
    let groups: Vec<Vec<Vec<u16>>> = units.chunks(100).map(|x| x.to_vec()).collect();
    par(&mut r, &groups, |c, g| {
        let mut i = plain(Lb512);
        i.entries = g.iter().enumerate().map(|(k, u)| (k as u32 + 1, entry([1; 16], [k as u8 + 1; 16], 40, 41, 0, u))).collect();
        let case = || format!("names {:x?}...", &g[..2]);
        c.begin(&case());
        c.seen(g);
        try_open(c, &i.build(), Cfg::rw(Lb512), true, &[Op::SetGuid(1)], &case);
    });
    let n1 = r.evals;
    r.parts.push(("entries".into(), n1 - n0));
    // lengths and fillings
    let mut lens: Vec<u64> = (0..=if deep { 70u64 } else { 40 }).flat_map(|b| [0, 1, 91, 92, 93, 127, 128, 511].map(move |x| b * 512 + x)).collect();
    lens.extend((0..=9u64).flat_map(|b| [0, 1, 91, 92, 127, 4095].map(move |x| b * 4096 + x)));
    if deep {
        lens.extend(0..=4096);
    }
    lens.sort();
    lens.dedup();
    par(&mut r, &lens, |c, len| {
        let mut devs: Vec<(String, Dev)> = vec![
            ("zeros".into(), Dev::zeros(*len)),
            ("ones".into(), Dev::flat(vec![0xFF; *len as usize])),
            ("pattern".into(), Dev::patterned(*len)),
            ("signatures".into(), Dev::flat(b"EFI PART".iter().copied().cycle().take(*len as usize).collect())),
        ];
        // valid headers everywhere, with an empty table, one that is cut off, and one that is not
        for (num, at) in [(0u32, 2u64), (1, 2), (4, 0), (128, 2), (128, 1), (1 << 20, 0)] {
            for bs in [512u64, 4096] {
                let mut h = RHeader::new();
                (h.my, h.alt, h.first, h.last, h.pstart, h.nparts, h.psize) = (1, len / bs, 2, len / bs, at, num, 128);
                h.pcrc = 0;
                let mut d = Dev::zeros(*len);
                for b in 0..len / bs {
                    if b * bs + 92 <= *len {
                        d.poke(b * bs, &h.sealed());
                    }
                }
                if let Some(t) = d.peek(at * bs, num as usize * 128) {
                    // the array contains headers: settle its checksum, first copy outside of it
                    h.pcrc = crc32(&t);
                    if bs + 92 <= *len && at > 1 {
                        d.poke(bs, &h.sealed());
                    }
                }
                devs.push((format!("headers every {bs} bytes with {num} entries at {at}"), d));
            }
        }
        for lb in [Lb512, Lb4096] {
            let mut d = plain(lb).build();
            d.resize(*len, 0);
            devs.push((format!("cut table {}", lbs(lb)), d));
        }
        for (n, d) in &devs {
            for lb in [Lb512, Lb4096] {
                for cfg in [Cfg::rw(lb), Cfg::rw(lb).strict(), Cfg::rw(lb).growing().ro_backup()] {
                    let case = || format!("{n}, {len} bytes, {cfg:?}");
                    c.begin(&case());
                    c.seen((n, len, cfg));
                    try_open(c, d, cfg, true, &few(lbs(lb))[..6], &case);
                    c.eval();
                    let x = d.clone();
                    let made = guarded("creating", || cfg.gpt().create_from_device(x, Some(fixed_guid(1)))).and_then(|g| match g {
                        Ok(g) => torture(&g, cfg, true, &few(lbs(lb))),
                        Err(_) => Ok(()),
                    });
                    if let Err(m) = made {
                        c.violation(m, format!("{}; creating", case()));
                    }
                }
                let raw = guarded("MBR and header calls", || {
                    let mut x = d.clone();
                    let _ = ProtectiveMBR::from_disk(&mut x, lb).map(|m| format!("{m:?}"));
                    let _ = mbr::read_bootcode(&mut x);
                    let _ = mbr::read_disk_signature(&mut x);
                    if let Ok(h) = read_header_from_arbitrary_device(&mut x, lb) {
                        let _ = file_read_partitions(&mut x, &h, lb);
                    }
                    let _ = mbr::write_bootcode(&mut x, &[1; 440]);
                    let _ = mbr::write_disk_signature(&mut x, &[1; 4]);
                    let _ = ProtectiveMBR::new().overwrite_lba0(&mut x);
                    let _ = ProtectiveMBR::new().update_conservative(&mut x);
                });
                if let Err(m) = raw {
                    c.violation(m, format!("{n}, {len} bytes, lb {}", lbs(lb)));
                }
            }
        }
    });
    let n2 = r.evals;
    r.parts.push(("device lengths and fillings".into(), n2 - n1));
    // arguments of the disk calls
    let mut worlds: Vec<(String, Own, Cfg)> = vec![];
    for lb in [Lb512, Lb4096] {
        for cfg in [Cfg::rw(lb), Cfg::rw(lb).growing()] {
            worlds.push((format!("plain {}", lbs(lb)), Own::new(open(plain(lb).build(), cfg).unwrap()), cfg));
            let mut d = cfg.gpt().create_from_device(dev_usable(lb, 300), Some(fixed_guid(2))).unwrap();
            let m = preset(Preset::Seq(128), d.partitions(), d.header());
            d.update_partitions(m).unwrap();
            worlds.push((format!("full {}", lbs(lb)), Own::new(d), cfg));
            for len in [1u64 << 50, (i64::MAX as u64) & !4095] {
                let d = cfg.gpt().create_from_device(Dev::sparse(len, false), Some(fixed_guid(2))).unwrap();
                worlds.push((format!("{len} bytes {}", lbs(lb)), Own::new(d), cfg));
            }
        }
    }
    let mut items = vec![];
    for w in 0..worlds.len() {
        let bs = lbs(worlds[w].2.lb());
        let len = worlds[w].1.get().device_ref().size();
        for x in u64s(len, bs, true).into_iter().chain([bs - 1, bs, bs + 1, len - 1, len, len + 1]) {
            items.push((w, x));
        }
    }
    par(&mut r, &items, |c, (w, x)| {
        let (name, d, cfg) = &worlds[*w];
        let d = &d.get();
        let bs = lbs(cfg.lb());
        let v = u64s(d.device_ref().size(), bs, deep);
        let mut ops = vec![];
        for y in &v {
            if *x > 0 {
                ops.push(Op::Add { size: *x, align: Some(*y), t: (*y % 4) as u8, flags: *y, name: (*y % 9) as u8 });
            }
            for id in U32S {
                if id > 0 && *y > 0 {
                    ops.push(Op::AddAt { id, first: *x, len: *y, t: (id % 4) as u8, flags: *x, name: (id % 9) as u8 });
                }
            }
        }
        ops.extend([Op::Remove(*x as u32), Op::RemoveGuidOf(*x as usize), Op::RemoveGuidAbsent]);
        for op in ops {
            let case = || format!("{name}, {cfg:?}: {op:?}");
            c.begin(&case());
            c.eval();
            c.seen((w, op));
            let mut run = Run { cfg: *cfg, writable: true, disk: Some(d.clone()) };
            let r = guarded("the call", || run.apply(op));
            let m = match r {
                Err(m) => m,
                Ok(Res::Panic(p)) => format!("panicked: {p}"),
                Ok(Res::Id(_)) => match guarded("looking", || inspect(run.disk.as_ref().unwrap())) {
                    Ok(()) => continue,
                    Err(m) => m,
                },
                Ok(_) => continue,
            };
            c.violation(m, case());
        }
    });
    let n3 = r.evals;
    r.parts.push(("arguments of disk calls".into(), n3 - n2));
    // tables of any numbers
    let keys = [1u32, 2, 127, 128, 129, 1 << 16, u32::MAX - 1, u32::MAX];
    let mut sets: Vec<Vec<u32>> = vec![vec![]];
    for k in 0..1u32 << keys.len() {
        sets.push(keys.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, k)| *k).collect());
    }
    par(&mut r, &sets, |c, ks| {
        for (name, d, cfg) in worlds.iter().take(if deep { 99 } else { 6 }) {
            let d = &d.get();
            for (a, b) in [(34u64, 34u64), (40, 39), (0, u64::MAX), (u64::MAX, u64::MAX), (u64::MAX, 0)] {
                c.eval();
                let case = || format!("{name}, {cfg:?}: table with numbers {ks:?} at {a}..={b}");
                c.begin(&case());
                c.seen((name, ks, a, b, cfg.grow));
                let mut d = d.clone();
                let m: Parts = ks.iter().map(|k| (*k, part((*k % 4) as u8, *k, a, b, 0, 0))).collect();
                let r = guarded("update_partitions", || d.update_partitions(m)).and_then(|_| torture(&d, *cfg, true, &few(lbs(cfg.lb()))[..5]));
                if let Err(m) = r {
                    c.violation(m, case());
                }
            }
        }
    });
    let n4 = r.evals;
    r.parts.push(("tables of any numbers".into(), n4 - n3));
    // header and entry calls
    let mut items: Vec<(LogicalBlockSize, u64)> = vec![];
    for lb in [Lb512, Lb4096] {
        for x in u64s(60 * lbs(lb), lbs(lb), true) {
            items.push((lb, x));
        }
    }
    par(&mut r, &items, |c, (lb, x)| {
        let bs = lbs(*lb);
        let v = u64s(60 * bs, bs, true);
        let names = [String::new(), "é".repeat(200), "😀".repeat(40), "a\0b".into()];
        for y in &v {
            for size in [0u32, 1, 127, 128, 129, 512, 1 << 20] {
                for n in &names {
                    let case = || format!("entry {y} of {size} bytes at block {x}, lb {bs}, name {n:?}");
                    c.begin(&case());
                    c.eval();
                    c.seen((bs, x, y, size, n));
                    let mut p = part(0, 1, *x, *y, u64::MAX, 0);
                    p.name = n.clone();
                    let mut d = Dev::zeros(60 * bs);
                    let r = guarded("write_to_device", || {
                        let _ = p.write_to_device(&mut d, *y, *x, *lb, size);
                        let _ = format!("{p} {p:?}");
                        let _ = (p.bytes_len(*lb), p.bytes_start(*lb), p.sectors_len());
                    });
                    if let Err(m) = r {
                        c.violation(m, case());
                    }
                }
                for count in [0u64, 1, 128, 1 << 32, 1 << 56, u64::MAX] {
                    let case = || format!("{count} empty entries of {size} bytes from {y} at block {x}, lb {bs}");
                    c.begin(&case());
                    c.eval();
                    let mut d = Dev::zeros(60 * bs);
                    // does the end come?
                    d.grow_limit = 70 * bs;
                    let r = guarded("write_zero_entries_to_device", || Partition::write_zero_entries_to_device(&mut d, *y, count, *x, *lb, size));
                    if let Err(m) = r {
                        c.violation(m, case());
                    }
                }
            }
        }
        // headers
        let base = open(plain(*lb).build(), Cfg::rw(*lb)).unwrap();
        let h0 = base.header().clone();
        for f in 0..7 {
            for y in &v {
                for g in 0..7 {
                    for z in v.iter().step_by(if deep { 1 } else { 3 }) {
                        if f == g && y != z {
                            continue;
                        }
                        let mut h = h0.clone();
                        for (k, val) in [(f, *y), (g, *z)] {
                            match k {
                                0 => h.current_lba = val,
                                1 => h.backup_lba = val,
                                2 => h.part_start = val,
                                3 => h.num_parts = val as u32,
                                4 => h.part_size = val as u32,
                                5 => h.first_usable = val,
                                _ => h.last_usable = val,
                            }
                        }
                        if *x != v[(f + g) % v.len()] && !deep {
                            continue;
                        }
                        let case = || format!("header {h:?}, lb {bs}");
                        c.begin(&case());
                        c.eval();
                        let mut d = Dev::zeros(60 * bs);
                        let r = guarded("header calls", || {
                            let _ = file_read_partitions(&mut d, &h, *lb);
                            let _ = format!("{h} {h:?}");
                            let _ = h.clone().write_primary(&mut d, *lb);
                            let _ = h.clone().write_backup(&mut d, *lb);
                            for p in [true, false] {
                                let mut b = HeaderBuilder::from_header(&h);
                                let _ = b.primary(p).build(*lb);
                                let _ = b.num_parts(h.num_parts).part_size(*y as u32).backup_lba(*x).first_usable(*z).last_usable(*y).build(*lb);
                            }
                        });
                        if let Err(m) = r {
                            c.violation(m, case());
                        }
                    }
                }
            }
        }
    });
    // strings in a header
    let mut c = Ctx::new(0);
    for n in 0..=200 {
        for ch in ["E", "é", "😀", "\0"] {
            for backup in [false, true] {
                let case = || format!("header with a signature of {n} times {ch:?}, backup={backup}");
                let base = open(plain(Lb512).build(), Cfg::rw(Lb512)).unwrap();
                let mut h: Header = if backup { base.backup_header().unwrap().clone() } else { base.header().clone() };
                h.signature = ch.repeat(n);
                let mut d = base.take_device();
                c.eval();
                c.seen((n, ch));
                let before = d.clone();
                match guarded("writing the header", || if backup { h.write_backup(&mut d, Lb512) } else { h.write_primary(&mut d, Lb512) }) {
                    Err(m) => c.violation(m, case()),
                    Ok(Ok(_)) if h.signature.len() != 8 => c.violation("a header without a signature of 8 bytes was written", case()),
                    Ok(Err(_)) if d != before => c.violation("a refused header was written", case()),
                    Ok(_) => {}
                }
            }
        }
    }
    r.merge(c);
    let n5 = r.evals;
    r.parts.push(("header and entry calls".into(), n5 - n4));
    // byte slices and texts
    let lens: Vec<usize> = (0..=if deep { 9000 } else { 4200 }).collect();
    par(&mut r, &lens, |c, n| {
        for fill in 0..4u8 {
            let b: Vec<u8> = (0..*n).map(|i| match fill { 0 => 0, 1 => 0xFF, 2 => (i * 7) as u8, _ => if i % 512 == 510 { 0x55 } else if i % 512 == 511 { 0xAA } else { 0x80 } }).collect();
            let case = || format!("{n} bytes, filling {fill}");
            c.begin(&case());
            c.eval();
            c.seen((n, fill));
            let r = guarded("parsing", || {
                for lb in [Lb512, Lb4096] {
                    let _ = ProtectiveMBR::from_bytes(&b, lb).map(|m| format!("{m:?}")).map_err(|e| format!("{e}"));
                }
                let _ = PartRecord::from_bytes(&b).map(|m| format!("{m:?}")).map_err(|e| format!("{e}"));
                let mut x = simple_bytes::Bytes::from(&b[..]);
                while parse_uuid(&mut x).is_ok() {}
            });
            if let Err(m) = r {
                c.violation(m, case());
            }
        }
    });
    let alpha: Vec<char> = "0aFg-{}x é😀\0".chars().collect();
    let mut texts: Vec<String> = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..if deep { 4 } else { 3 } {
        layer = layer.iter().flat_map(|s| alpha.iter().map(move |a| format!("{s}{a}"))).collect();
        texts.extend(layer.clone());
    }
    for u in ["0FC63DAF-8483-4772-8E79-3D69D8477DE4", "{0FC63DAF-8483-4772-8E79-3D69D8477DE4}", "urn:uuid:0FC63DAF-8483-4772-8E79-3D69D8477DE4", "0FC63DAF848347728E793D69D8477DE4"] {
        for i in 0..=u.len() {
            texts.push(u[..i].into());
            texts.push(u[i..].into());
            for a in &alpha {
                texts.push(format!("{}{a}{}", &u[..i], &u[i..]));
                if i < u.len() {
                    texts.push(format!("{}{a}{}", &u[..i], &u[i + 1..]));
                }
            }
        }
    }
    texts.push("x".repeat(100_000));
    par(&mut r, &texts, |c, t| {
        c.begin(t);
        c.eval();
        c.seen(t);
        if let Err(m) = guarded("Type::from_str", || Type::from_str(t).map(|t| format!("{t:?}"))) {
            c.violation(m, format!("text {t:?}"));
        }
    });
    // records of an MBR
    let mut c = Ctx::new(0);
    for i in [0usize, 1, 2, 3, 4, 5, 255, usize::MAX] {
        for lb in [None, Some(0), Some(1), Some(u32::MAX)] {
            c.eval();
            let x = guarded("MBR records", || {
                let mut m = lb.map(ProtectiveMBR::with_lb_size).unwrap_or_default();
                let p = m.partition(i);
                let q = m.set_partition(i, PartRecord::new_protective(lb));
                (p.is_some(), q.is_some(), m.partition(i).is_some(), format!("{m:?}"))
            });
            match x {
                Ok((a, b, e, _)) if a == (i < 4) && b == a && e == a => {}
                x => c.violation(format!("{x:?}"), format!("MBR record {i}, size {lb:?}")),
            }
        }
    }
    r.merge(c);
    let n6 = r.evals;
    r.parts.push(("byte slices and texts".into(), n6 - n5));
    r.assumptions.push("entry sizes above 1 MiB given to write_to_device are left out: the caller asks for that much memory");
    r
}
