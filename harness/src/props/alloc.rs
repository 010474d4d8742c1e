//! C01 - C05: where partitions go and which numbers they get.
use super::write::write_worlds;
use crate::dev::Dev;
use crate::refm::*;
use crate::rep::*;
use crate::sm::*;
use gpt::partition::Partition;
use gpt::disk::LogicalBlockSize::{self, Lb4096, Lb512};

/// a device with exactly n usable sectors for a table of 128 entries
pub fn dev_usable(lb: LogicalBlockSize, n: u64) -> Dev {
    let a = array_blocks(128, 128, lbs(lb)) as u64;
    Dev::patterned((2 + a + n + a + 1) * lbs(lb))
}
pub fn first_usable(lb: LogicalBlockSize) -> u64 {
    2 + array_blocks(128, 128, lbs(lb)) as u64
}

pub const MC_RULE: &str = "breadth-first over all operation histories of each world up to its depth, every transition executed on the real library and compared with the reference; states are equal only if the visible state and the decoded device are";

fn ent(t: u8, g: u32, a: u64, b: u64) -> [u8; 128] {
    enc_entry(&part(t, g, a, b, 0, 0))
}

/// tables made by other tools: overlapping, nested, out of range, adjacent, limits off the defaults
pub fn foreign_images() -> Vec<(String, Dev, Cfg)> {
    let mut v = vec![];
    let mut push = |n: &str, i: Img, c: Cfg| v.push((format!("foreign {n}"), i.build(), c));
    let base = |blocks| Img::new(Lb512, blocks);
    let c = Cfg::rw(Lb512);
    // usable 34..=41
    let mut i = base(75);
    i.entries = vec![(1, ent(0, 1, 35, 38)), (2, ent(0, 2, 37, 39))];
    push("overlap", i, c);
    let mut i = base(75);
    i.entries = vec![(1, ent(0, 1, 34, 41)), (2, ent(0, 2, 36, 37))];
    push("nested", i, c);
    let mut i = base(75);
    i.entries = vec![(3, ent(0, 1, 36, 37)), (2, ent(0, 2, 36, 37)), (1, ent(1, 3, 36, 36))];
    push("identical", i, c);
    let mut i = base(75);
    i.entries = vec![(1, ent(0, 1, 10, 35)), (2, ent(0, 2, 40, 60))];
    push("sticks out", i, c);
    let mut i = base(75);
    i.entries = vec![(1, ent(0, 1, 2, 5)), (2, ent(0, 2, 50, u64::MAX)), (5, ent(0, 3, 38, 38))];
    push("outside", i, c);
    let mut i = base(75);
    i.entries = vec![(1, ent(0, 1, 0, 0)), (2, ent(0, 2, 0, u64::MAX))];
    push("covers all", i, c);
    let mut i = base(75);
    i.entries = vec![(1, ent(0, 1, 0, 0)), (2, ent(0, 2, 36, 36)), (4, enc_entry(&gpt::partition::Partition { part_guid: uuid::Uuid::nil(), ..part(0, 1, 0, 0, 0, 1) }))];
    push("used entries of zeros", i, c);
    let mut i = base(90);
    i.first = Some(40);
    i.last = Some(47);
    i.entries = vec![(1, ent(0, 1, 34, 41)), (4, ent(0, 2, 46, 50))];
    push("narrow limits", i, c);
    let mut i = base(75);
    i.entries = vec![(1, ent(9, 1, 34, 41)), (2, ent(0, 2, 38, 38))];
    push("unused type with span", i, c);
    let mut i = base(75);
    i.entries = vec![(128, ent(0, 1, 41, 41)), (127, ent(0, 2, 34, 34))];
    push("at the ends", i, c);
    let mut i = base(75 + 64);
    i.nparts = 256;
    i.entries = vec![(200, ent(0, 1, 67, 68)), (256, ent(0, 2, 70, 70))];
    push("256 entries", i, c);
    let mut i = Img::new(Lb4096, 20);
    i.entries = vec![(1, ent(0, 1, 7, 9)), (2, ent(0, 2, 9, 10))];
    push("4k overlap", i, Cfg::rw(Lb4096));
    // the copies disagree about the usable range
    for (n, first, last) in [("narrower backup", 38, 43), ("wider backup", 34, 55)] {
        let mut i = base(90);
        i.first = Some(36);
        i.last = Some(47);
        i.entries = vec![(1, ent(0, 1, 40, 41))];
        let mut d = i.build();
        let (_, mut b) = i.headers();
        (b.first, b.last) = (first, last);
        d.poke(89 * 512, &b.sealed());
        v.push((format!("foreign {n}"), d, c));
    }
    v
}

pub fn huge_worlds(ops: fn(u64, u64) -> Vec<Op>, depth: usize) -> Vec<World> {
    let mut v = vec![];
    for (lb, len) in [
        (Lb512, (1u64 << 41) + 512 * 100),
        (Lb512, (i64::MAX as u64) & !511),
        (Lb4096, (i64::MAX as u64) & !4095),
        (Lb4096, 1u64 << 44),
    ] {
        let a = array_blocks(128, 128, lbs(lb)) as u64;
        let l = len / lbs(lb) - 2 - a;
        v.push(World::create(
            &format!("huge {len} bytes lb {}", lbs(lb)),
            Dev::sparse(len, false),
            Cfg::rw(lb),
            ops(first_usable(lb), l),
            depth,
        ));
    }
    v
}

/// tables padded with entries of the unused type
pub fn padded_worlds(depth: usize) -> Vec<World> {
    let mut v = vec![];
    let f = first_usable(Lb512);
    for (n, m) in [(1u32, 128u32), (120, 128), (126, 128), (127, 128), (3, 5)] {
        for cfg in [Cfg::rw(Lb512), Cfg::rw(Lb512).growing()] {
            let e = f + n as u64 + 8;
            let mut o = vec![add(512, None), add(1024, Some(2)), Op::RemoveGuidOf(0), Op::Write, Op::Reopen, Op::Update(Preset::Same), Op::Update(Preset::PlusUnused)];
            for id in [1, n, n + 1, m, m + 1, 128, 129] {
                o.push(Op::Remove(id));
                o.push(add_at(id, e + id as u64 % 9, 1));
            }
            o.dedup();
            v.push(World::create(&format!("{n} used, padded to {m} grow={}", cfg.grow), dev_usable(Lb512, 200), cfg, o, depth).after(&[Op::Update(Preset::Padded(n, m))]));
        }
    }
    v
}

// ---------------------------------------------------------------- C01

fn m01(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    let (Some(op), Res::Id(id)) = (s.op, s.res) else { return Ok(()) };
    if !matches!(op, Op::Add { .. } | Op::AddAt { .. }) {
        return Ok(());
    }
    let Some(p) = s.post.parts.get(id) else { return fail(format!("no partition {id} after adding it")) };
    let h = s.pre.header();
    c.hit("adds");
    if p.first_lba > p.last_lba {
        return fail(format!("the added partition {id} has an inverted span {}..={}", p.first_lba, p.last_lba));
    }
    if p.first_lba < h.first_usable || p.last_lba > h.last_usable {
        return fail(format!(
            "the added partition {id} at {}..={} leaves the usable range {}..={}",
            p.first_lba, p.last_lba, h.first_usable, h.last_usable
        ));
    }
    for (k, q) in s.pre.used().chain(s.post.used().filter(|(k, _)| *k != id)) {
        let (a, b) = (q.first_lba.min(q.last_lba), q.first_lba.max(q.last_lba));
        if q.first_lba <= q.last_lba && a <= p.last_lba && p.first_lba <= b {
            return fail(format!("the added partition {id} at {}..={} overlaps partition {k} at {a}..={b}", p.first_lba, p.last_lba));
        }
    }
    Ok(())
}

fn space_ops(f: u64, l: u64, lb: u64, full: bool) -> Vec<Op> {
    let n = l - f + 1;
    let mut v = vec![];
    let mut sizes = vec![1, lb, lb + 1];
    for k in 2..=n + 1 {
        sizes.push(k * lb);
    }
    sizes.push(n * lb + 1);
    sizes.push(u64::MAX);
    for s in sizes {
        for a in [None, Some(0), Some(2), Some(3), Some(5), Some(f), Some(l + 1), Some(u64::MAX)] {
            if full || a != Some(5) {
                v.push(add(s, a));
            }
        }
    }
    let mut firsts: Vec<u64> = (f - 1..=l + 1).collect();
    firsts.extend([0, 1, u64::MAX]);
    let ids: &[u32] = if full { &[1, 2, 3, 128, 129] } else { &[1, 3] };
    for &id in ids {
        for &st in &firsts {
            let mut lens: Vec<u64> = (1..=n + 1).collect();
            lens.extend([u64::MAX, (u64::MAX - st).wrapping_add(1)]);
            for ln in lens {
                if ln > 0 {
                    v.push(add_at(id, st, ln));
                }
            }
        }
    }
    for i in 1..=4 {
        v.push(Op::Remove(i));
    }
    v.push(Op::RemoveGuidOf(1));
    v
}
pub fn huge_ops(f: u64, l: u64) -> Vec<Op> {
    let mut v = vec![];
    let n = l - f + 1;
    for s in [1, 1 << 41, n.saturating_mul(512), n.saturating_mul(4096), (1 << 41) + 1, u64::MAX, u64::MAX / 2, 1 << 32, (1 << 32) * 512] {
        for a in [None, Some(2048), Some(1 << 33), Some(l), Some(l + 1), Some(u64::MAX)] {
            v.push(add(s, a));
        }
    }
    for id in [1, 2] {
        for st in [f, 1 << 32, (1 << 32) + 1, l - 5, l, l + 1] {
            for ln in [1, 6, 1 << 32, (1 << 32) + 1, l - st.min(l) + 1, l - st.min(l) + 2, u64::MAX] {
                v.push(add_at(id, st, ln));
            }
        }
    }
    v.push(Op::Remove(1));
    v.push(Op::Remove(2));
    v
}

pub fn c01(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    let f5 = first_usable(Lb512);
    let f4 = first_usable(Lb4096);
    let u = if deep { 5 } else { 4 };
    let mut ws = vec![
        World::create("one usable sector", dev_usable(Lb512, 1), Cfg::rw(Lb512), space_ops(f5, f5, 512, true), 9),
        World::create("small", dev_usable(Lb512, u), Cfg::rw(Lb512), space_ops(f5, f5 + u - 1, 512, false), if deep { 9 } else { 4 }),
        World::create("small 4k", dev_usable(Lb4096, 3), Cfg::rw(Lb4096), space_ops(f4, f4 + 2, 4096, true), 9),
    ];
    // with writes, reopens and replacements in between
    let mut ops = vec![
        add(512, None),
        add(1024, Some(2)),
        add(1536, None),
        add_at(2, 35, 2),
        add_at(3, 36, 1),
        add_at(1, 34, 3),
        add_at(7, 37, 3),
        add_at(9, 38, 2),
        Op::Remove(1),
        Op::Remove(2),
        Op::RemoveGuidOf(0),
        Op::Update(Preset::Overlap),
        Op::Update(Preset::OddUnused),
        Op::Update(Preset::Nested),
        Op::Update(Preset::OutOfRange),
        Op::Update(Preset::ShiftUp),
        Op::Update(Preset::Single5),
        Op::Update(Preset::PlusUnused),
        Op::Take,
        Op::Write,
        Op::Reopen,
        Op::WriteConsume,
        Op::CloneSwap,
        Op::HandOver,
    ];
    ws.push(World::create("lifecycle", dev_usable(Lb512, 6), Cfg::rw(Lb512), ops.clone(), if deep { 5 } else { 3 }));
    for n in [126u32, 127, 128] {
        ops.push(Op::AddAt { id: 129, first: 170, len: 1, t: 0, flags: 0, name: 0 });
        for cfg in [Cfg::rw(Lb512), Cfg::rw(Lb512).growing()] {
            let mut o = ops.clone();
            o.extend([add_at(129, 34 + n as u64, 1), add_at(128, 35 + n as u64, 2)]);
            ws.push(
                World::create(&format!("{n} partitions grow={}", cfg.grow), dev_usable(Lb512, 140), cfg, o, if deep { 3 } else { 2 })
                    .after(&[Op::Update(Preset::Seq(n))]),
            );
        }
    }
    for (n, d, c) in foreign_images() {
        let lb = lbs(c.lb());
        let (f, l) = {
            let cp = read_copy(&d, c.lb(), 1).unwrap();
            (cp.h.first, cp.h.last)
        };
        let mut o = space_ops(f, l, lb, false);
        if l - f > 5 && !deep {
            o.retain(|x| !matches!(x, Op::AddAt { id: 3, .. } | Op::Add { align: Some(5 | 3), .. }));
        }
        o.extend([Op::Write, Op::Reopen]);
        ws.push(World::open(&n, d, c, o, if deep { 3 } else { 2 }));
    }
    ws.extend(huge_worlds(huge_ops, if deep { 3 } else { 2 }));
    ws.extend(write_worlds(deep));
    for w in &ws {
        explore(&mut r, w, &m01);
    }
    r
}

// ---------------------------------------------------------------- C02

/// lowest start that is a multiple of align from which n sectors fit into a free run
pub fn first_fit(free: &[(u64, u64)], n: u128, align: Option<u64>) -> Option<u64> {
    let a = align.unwrap_or(0).max(1) as u128;
    for (s, l) in free {
        let st = (*s as u128).div_ceil(a) * a;
        if st + n <= *s as u128 + *l as u128 {
            return Some(st as u64);
        }
    }
    None
}
pub fn lowest_unused(s: &Snap) -> u32 {
    let mut id = 1;
    while s.parts.get(&id).is_some_and(is_used) {
        id += 1;
    }
    id
}
/// does giving this number out change the entry count?
pub fn needs_growth(s: &Snap, id: u32) -> bool {
    let n = s.header().num_parts;
    let want = id.max(s.used().count() as u32 + 1).max(128);
    want > n
}

/// the GUID of an added partition is its own, and another one in every run
fn fresh(c: &mut Ctx, s: &Step, id: u32, p: &Partition) -> Result<(), Fail> {
    if p.part_guid.is_nil() || s.pre.parts.values().any(|q| q.part_guid == p.part_guid) || p.part_guid == s.pre.guid {
        return fail(format!("partition GUID {} is not fresh", p.part_guid));
    }
    if s.hist.len() <= 2 {
        // the same history once more must give another GUID
        let mut r2 = s.world.start().map_err(|e| (String::new(), e))?;
        for i in s.hist {
            r2.apply(s.world.ops[*i as usize]);
        }
        let again = r2.disk.as_ref().and_then(|d| d.partitions().get(&id)).map(|q| q.part_guid);
        c.hit("guid compared across runs");
        if again == Some(p.part_guid) {
            return fail(format!("partition GUID {} is the same in every run", p.part_guid));
        }
    }
    Ok(())
}

fn m02(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    let Some(Op::Add { size, align, t, flags, name }) = s.op else { return Ok(()) };
    if s.pre.inverted() {
        return Ok(());
    }
    let n = (size as u128).div_ceil(s.lb() as u128);
    let want = first_fit(&s.pre.free(), n, align);
    let growth = needs_growth(s.pre, lowest_unused(s.pre));
    match (want, s.res) {
        (Some(st), Res::Id(id)) => {
            c.hit("placed");
            let Some(p) = s.post.parts.get(id) else { return fail(format!("no partition {id} after adding it")) };
            let last = st + n as u64 - 1;
            if (p.first_lba, p.last_lba) != (st, last) {
                return fail(format!("placed at {}..={}, first fit is {st}..={last} ({n} blocks)", p.first_lba, p.last_lba));
            }
            if p.part_type_guid != ty(t) || p.flags != flags || p.name != nm(name) {
                return fail(format!("entry does not carry the given type/flags/name: {p:?}"));
            }
            fresh(c, s, *id, p)
        }
        (Some(st), r) => {
            if growth && r.err().is_some_and(|e| e != "NotEnoughSpace") {
                c.hit("refused for the entry count");
                return Ok(());
            }
            fail(format!("{n} blocks fit at {st} (alignment {align:?}), got {r:?}"))
        }
        (None, Res::Err(e)) => {
            c.hit("no space");
            if e == "NotEnoughSpace" || growth {
                return Ok(());
            }
            fail(format!("no fit for {n} blocks must be reported as lack of space, got {e}"))
        }
        (None, r) => fail(format!("{n} blocks fit nowhere (alignment {align:?}), got {r:?}")),
    }
}

fn fit_ops(f: u64, l: u64, lb: u64) -> Vec<Op> {
    let n = l - f + 1;
    let mut v = vec![];
    let mut sizes = vec![1, lb - 1, lb, lb + 1];
    for k in 2..=n + 1 {
        sizes.extend([k * lb - 1, k * lb, k * lb + 1]);
    }
    sizes.extend([u64::MAX, u64::MAX - lb, u64::MAX - lb + 2]);
    sizes.sort();
    sizes.dedup();
    let mut aligns: Vec<Option<u64>> = vec![None];
    aligns.extend((0..=n + 1).map(Some));
    aligns.extend([Some(f - 1), Some(f), Some(f + 1), Some(l), Some(l + 1), Some(u64::MAX)]);
    aligns.sort();
    aligns.dedup();
    for (i, s) in sizes.iter().enumerate() {
        for (j, a) in aligns.iter().enumerate() {
            let k = (i + j) as u8;
            v.push(Op::Add { size: *s, align: *a, t: k % 3, flags: if k % 4 == 3 { 1 << 63 | 1 } else { 0 }, name: k % 9 });
        }
    }
    for st in f..=l {
        v.push(Op::AddAt { id: 10 + (st - f) as u32, first: st, len: 1, t: 0, flags: 0, name: 0 });
    }
    for st in f..l {
        v.push(Op::AddAt { id: 30, first: st, len: 2, t: 0, flags: 0, name: 0 });
    }
    for i in [1, 2, 3, 10, 12] {
        v.push(Op::Remove(i));
    }
    v
}

pub fn c02(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    let f5 = first_usable(Lb512);
    let f4 = first_usable(Lb4096);
    let mut ws = vec![];
    ws.extend(padded_worlds(if deep { 3 } else { 2 }));
    ws.extend(padded_worlds(if deep { 3 } else { 2 }));
    for u in 1..=if deep { 6 } else { 4 } {
        ws.push(World::create(
            &format!("{u} usable"),
            dev_usable(Lb512, u),
            Cfg::rw(Lb512),
            fit_ops(f5, f5 + u - 1, 512),
            if deep { 4 } else { 3 },
        ));
    }
    ws.push(World::create("4k 4 usable", dev_usable(Lb4096, 4), Cfg::rw(Lb4096), fit_ops(f4, f4 + 3, 4096), if deep { 4 } else { 3 }));
    // every set of occupied single sectors of 8: all gap patterns
    let gaps: Vec<Op> = (0..8).map(|k| Op::AddAt { id: 10 + k, first: f5 + k as u64, len: 1, t: 0, flags: 0, name: 0 }).collect();
    let probe = {
        let mut v = gaps;
        for s in [1, 513, 1025, 1537, 2049, 4096] {
            for a in [None, Some(2), Some(3), Some(4), Some(5)] {
                v.push(add(s, a));
            }
        }
        v
    };
    let d = if deep { 8 } else { 4 };
    ws.push(World::create("all gap patterns of 8", dev_usable(Lb512, 8), Cfg::rw(Lb512), probe, d));
    for (n, d, c) in foreign_images() {
        let (f, l) = {
            let cp = read_copy(&d, c.lb(), 1).unwrap();
            (cp.h.first, cp.h.last)
        };
        ws.push(World::open(&n, d, c, fit_ops(f, l, lbs(c.lb())), if deep { 3 } else { 2 }));
    }
    for n in [127u32, 128] {
        for cfg in [Cfg::rw(Lb512), Cfg::rw(Lb512).growing()] {
            let mut o = vec![Op::Remove(5), Op::Remove(6), Op::Remove(100), Op::Write, Op::Reopen];
            for s in [1, 512, 1024, 1025, 512 * 10, 512 * 200] {
                for a in [None, Some(2), Some(7)] {
                    o.push(add(s, a));
                }
            }
            ws.push(
                World::create(&format!("{n} partitions grow={}", cfg.grow), dev_usable(Lb512, 150), cfg, o, if deep { 4 } else { 3 })
                    .after(&[Op::Update(Preset::Seq(n))]),
            );
        }
    }
    let mut life = vec![
        Op::Update(Preset::Overlap),
        Op::Update(Preset::OddUnused),
        Op::Update(Preset::OutOfRange),
        Op::Update(Preset::PlusUnused),
        Op::Update(Preset::Nested),
        Op::Update(Preset::ShiftUp),
        Op::Write,
        Op::Reopen,
        Op::CloneSwap,
        Op::Remove(1),
        Op::RemoveGuidOf(1),
    ];
    for s in [1, 1024, 1025] {
        for a in [None, Some(2), Some(4), Some(0)] {
            life.push(add(s, a));
        }
    }
    ws.push(World::create("lifecycle", dev_usable(Lb512, 7), Cfg::rw(Lb512), life, if deep { 6 } else { 4 }));
    ws.extend(huge_worlds(huge_ops, if deep { 3 } else { 2 }));
    ws.extend(write_worlds(deep));
    for w in &ws {
        explore(&mut r, w, &m02);
    }
    r
}

// ---------------------------------------------------------------- C03

fn m03(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    let Some(Op::AddAt { id, first, len, t, flags, name }) = s.op else { return Ok(()) };
    if s.pre.inverted() {
        return Ok(());
    }
    let used = s.pre.parts.get(&id).is_some_and(is_used);
    let end = first as u128 + len as u128;
    let fits = s.pre.free().iter().any(|(a, n)| *a <= first && end <= *a as u128 + *n as u128);
    let growth = needs_growth(s.pre, id);
    if let Res::Id(got) = s.res {
        c.hit("placed");
        if *got != id {
            return fail(format!("asked for number {id}, got {got}"));
        }
        if used {
            return fail(format!("number {id} was held by a used partition"));
        }
        if !fits {
            return fail(format!("{first}+{len} is not wholly free and usable"));
        }
        let Some(p) = s.post.parts.get(&id) else { return fail(format!("no partition {id} after adding it")) };
        if (p.first_lba, p.last_lba) != (first, (end - 1) as u64) {
            return fail(format!("placed at {}..={} instead of {first}+{len}", p.first_lba, p.last_lba));
        }
        if p.part_type_guid != ty(t) || p.flags != flags || p.name != nm(name) {
            return fail(format!("entry does not carry the given type/flags/name: {p:?}"));
        }
        return fresh(c, s, id, p);
    }
    let Res::Err(e) = s.res else { return fail(format!("{:?}", s.res)) };
    if used {
        c.hit("number used");
        if e != "PartitionIdAlreadyUsed" {
            return fail(format!("number {id} is used, but refused as {e}"));
        }
        return Ok(());
    }
    if e == "PartitionIdAlreadyUsed" {
        return fail(format!("number {id} is not used"));
    }
    if !fits {
        c.hit("no space");
        if e != "NotEnoughSpace" && !growth {
            return fail(format!("range {first}+{len} is not free, but refused as {e}"));
        }
        return Ok(());
    }
    if e == "NotEnoughSpace" {
        return fail(format!("range {first}+{len} is free and usable, but refused as {e}"));
    }
    if !growth {
        return fail(format!("number {id} is unused and within the table and {first}+{len} is free, but refused as {e}"));
    }
    c.hit("refused for the entry count");
    Ok(())
}

fn at_ops(f: u64, l: u64, ids: &[u32]) -> Vec<Op> {
    let n = l - f + 1;
    let mut firsts: Vec<u64> = (f - 2..=l + 2).collect();
    firsts.extend([0, 1, 2, u64::MAX - 1, u64::MAX]);
    let mut v = vec![];
    let mut k = 0u8;
    for &id in ids {
        for &st in &firsts {
            let mut lens: Vec<u64> = (1..=n + 2).collect();
            lens.extend([u64::MAX, u64::MAX - 1, (u64::MAX - st).wrapping_add(1), (u64::MAX - st).wrapping_add(2)]);
            lens.sort();
            lens.dedup();
            for ln in lens {
                if ln > 0 {
                    k = k.wrapping_add(1);
                    v.push(Op::AddAt { id, first: st, len: ln, t: k % 3, flags: if k % 4 == 1 { 0x8000_0000_0000_0005 } else { 0 }, name: k % 9 });
                }
            }
        }
    }
    for i in [1, 2, 5] {
        v.push(Op::Remove(i));
    }
    v
}

pub fn c03(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    let f5 = first_usable(Lb512);
    let f4 = first_usable(Lb4096);
    let mut ws = vec![];
    ws.extend(padded_worlds(if deep { 3 } else { 2 }));
    for u in [1, 2, if deep { 5 } else { 3 }] {
        ws.push(World::create(
            &format!("{u} usable"),
            dev_usable(Lb512, u),
            Cfg::rw(Lb512),
            at_ops(f5, f5 + u - 1, &[1, 2, 5, 127, 128, 129, u32::MAX]),
            if deep { 4 } else { 3 },
        ));
    }
    ws.push(World::create("4k", dev_usable(Lb4096, 3), Cfg::rw(Lb4096), at_ops(f4, f4 + 2, &[1, 2, 128, 129]), 3));
    ws.push(World::create("growing", dev_usable(Lb512, 4), Cfg::rw(Lb512).growing(), at_ops(f5, f5 + 3, &[1, 5, 128, 129, 130]), if deep { 3 } else { 2 }));
    let mut life: Vec<Op> = vec![
        Op::Update(Preset::Overlap),
        Op::Update(Preset::Nested),
        Op::Update(Preset::OutOfRange),
        Op::Update(Preset::PlusUnused),
        Op::Update(Preset::AllUnused),
        Op::Update(Preset::OddUnused),
        Op::Update(Preset::ShiftUp),
        Op::Update(Preset::High),
        Op::Write,
        Op::Reopen,
        Op::Remove(1),
        add(512, None),
        add(1024, None),
    ];
    for id in [1, 2, 3, 129] {
        for st in [f5, f5 + 1, f5 + 3, f5 + 6] {
            for ln in [1, 2, 4] {
                life.push(add_at(id, st, ln));
            }
        }
    }
    ws.push(World::create("lifecycle", dev_usable(Lb512, 7), Cfg::rw(Lb512), life, if deep { 4 } else { 3 }));
    for (n, d, c) in foreign_images() {
        let (f, l) = {
            let cp = read_copy(&d, c.lb(), 1).unwrap();
            (cp.h.first, cp.h.last)
        };
        ws.push(World::open(&n, d, c, at_ops(f, l, if deep { &[1, 2, 6, 128, 129, 256, 257] } else { &[1, 6, 129, 256] }), if deep { 2 } else { 1 }));
    }
    for n in [126u32, 127, 128] {
        for cfg in [Cfg::rw(Lb512), Cfg::rw(Lb512).growing()] {
            let e = f5 + n as u64;
            let mut o = vec![Op::Remove(5), Op::Remove(100), Op::Write];
            for id in [5, 100, 127, 128, 129, 130, 1000] {
                for (st, ln) in [(e, 1), (e, 2), (e + 3, 4), (f5 + 4, 1), (f5 + 99, 1), (f5 + 99, 2), (e - 1, 1), (e - 1, 2)] {
                    o.push(add_at(id, st, ln));
                }
            }
            ws.push(
                World::create(&format!("{n} partitions grow={}", cfg.grow), dev_usable(Lb512, 145), cfg, o, if deep { 3 } else { 2 })
                    .after(&[Op::Update(Preset::Seq(n))]),
            );
        }
    }
    ws.extend(huge_worlds(huge_ops, if deep { 3 } else { 2 }));
    ws.extend(write_worlds(deep));
    for w in &ws {
        explore(&mut r, w, &m03);
    }
    r
}

// ---------------------------------------------------------------- C04

fn check_free(s: &Snap, got: &[(u64, u64)]) -> Result<(), Fail> {
    let want = s.free();
    if s.header().last_usable - s.header().first_usable < 64 && s.header().last_usable < u64::MAX {
        let b = free_runs_brute(s.header().first_usable, s.header().last_usable, &s.spans());
        assert_eq!(b, want, "the two references disagree");
    }
    if got != want {
        return fail(format!("free space reported as {got:?}, exactly free is {want:?}"));
    }
    Ok(())
}
fn m04(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    if s.post.inverted() {
        return Ok(());
    }
    let got = s.disk.find_free_sectors();
    c.hit("reports");
    check_free(s.post, &got)
}

pub fn c04(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    r.assumptions.push("entries whose last sector is before their first are left out: which sectors they cover is not defined");
    // every set of up to n entries with arbitrary spans around a small usable range
    for (f, l, lo, hi, n) in [(34u64, 38u64, 32u64, 40u64, if deep { 4usize } else { 3 }), (34, 36, 32, 38, if deep { 5 } else { 4 })] {
        let mut img = Img::new(Lb512, l + 34);
        assert_eq!((img.first_usable(), img.last_usable()), (f, l));
        img.pattern = false;
        let dev = img.build();
        let mut spans = vec![];
        for a in lo..=hi {
            for b in a..=hi {
                spans.push((a, b));
            }
        }
        spans.push((0, u64::MAX));
        spans.push((u64::MAX, u64::MAX));
        spans.push((0, 0));
        let mut sets: Vec<Vec<usize>> = vec![vec![]];
        let mut all = sets.clone();
        for _ in 0..n {
            let mut nx = vec![];
            for s in &sets {
                for i in s.last().copied().unwrap_or(0)..spans.len() {
                    let mut t = s.clone();
                    t.push(i);
                    nx.push(t);
                }
            }
            all.extend(nx.iter().cloned());
            sets = nx;
        }
        let before = r.evals;
        par(&mut r, &all, |c, set| {
            // numbers ascending and descending along the disk, and one entry of unused type
            for variant in 0..3 {
                let mut m = Parts::new();
                for (i, k) in set.iter().enumerate() {
                    let id = if variant == 1 { (set.len() - i) as u32 } else { i as u32 + 1 };
                    let t = if variant == 2 && i == 0 { 9 } else { 0 };
                    m.insert(id, part(t, id, spans[*k].0, spans[*k].1, 0, 0));
                }
                let case = format!("usable {f}..={l}, entries {:?}", m.iter().map(|(k, p)| (*k, p.first_lba, p.last_lba, is_used(p))).collect::<Vec<_>>());
                c.begin(&case);
                c.eval();
                c.seen((f, set, variant));
                let got = lib(|| {
                    let mut d = Cfg::rw(Lb512).gpt().open_from_device(dev.clone()).map_err(|e| ekind(&e))?;
                    d.update_partitions(m.clone()).map_err(|e| ekind(&e))?;
                    Ok::<_, String>((Snap::of(&d), d.find_free_sectors()))
                });
                match got {
                    Ok(Ok((s, fr))) => {
                        if s.header().first_usable != f || s.header().last_usable != l {
                            c.violation("the usable range changed", case.clone());
                        }
                        c.outcome(&format!("{} free runs", fr.len()));
                        if let Err((_, m)) = check_free(&s, &fr) {
                            c.violation(m, case.clone());
                        }
                        if set.len() == n {
                            c.sample(|| format!("{case} -> {fr:?}"));
                        }
                    }
                    Ok(Err(e)) => c.violation(format!("setup refused: {e}"), case),
                    Err(p) => c.violation(format!("panicked: {p}"), case),
                }
            }
        });
        r.parts.push((format!("all sets of up to {n} entries over {lo}..={hi}, usable {f}..={l}"), r.evals - before));
    }
    // limits at the edges of the number range
    let mut ws = vec![];
    let lims = [0u64, 1, 2, 34, 35, 40, 41, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX];
    for f in lims {
        for l in lims {
            if f > l || (f == 0 && l == u64::MAX) {
                continue;
            }
            let mut i = Img::new(Lb512, 80);
            i.first = Some(f);
            i.last = Some(l);
            i.entries = vec![(1, ent(0, 1, 35, 36)), (2, ent(1, 2, l, l)), (3, ent(1, 3, f, f)), (9, ent(0, 4, 0, 0)), (4, ent(0, 5, u64::MAX, u64::MAX))];
            let ops = vec![Op::Remove(1), Op::Remove(2), Op::Remove(3), Op::Remove(4), Op::Remove(9)];
            ws.push(World::open(&format!("limits {f}..={l}"), i.build(), Cfg::rw(Lb512), ops, 5));
        }
    }
    let f5 = first_usable(Lb512);
    let mut ops = space_ops(f5, f5 + 4, 512, false);
    ops.retain(|o| !matches!(o, Op::Add { align: Some(_), .. }));
    ops.extend([Op::Update(Preset::Overlap), Op::Update(Preset::OddUnused), Op::Update(Preset::OutOfRange), Op::Update(Preset::PlusUnused), Op::Take, Op::Write, Op::Reopen, Op::CloneSwap]);
    ws.push(World::create("histories", dev_usable(Lb512, 5), Cfg::rw(Lb512), ops, if deep { 4 } else { 3 }));
    let grow_ops = vec![add(512, None), add(1024, None), Op::Remove(7), Op::Remove(128), Op::Write, Op::Reopen, Op::Update(Preset::Seq(129)), Op::Update(Preset::Seq(133))];
    ws.push(
        World::create("growth", dev_usable(Lb512, 150), Cfg::rw(Lb512).growing(), grow_ops, if deep { 5 } else { 3 })
            .after(&[Op::Update(Preset::Seq(127))]),
    );
    for (n, d, c) in foreign_images() {
        let ops = vec![add(lbs(c.lb()), None), add(2 * lbs(c.lb()), Some(2)), Op::Remove(1), Op::Remove(2), Op::Remove(128), Op::Write, Op::Reopen];
        ws.push(World::open(&n, d, c, ops, if deep { 5 } else { 4 }));
    }
    ws.extend(huge_worlds(huge_ops, if deep { 3 } else { 2 }));
    ws.extend(write_worlds(deep));
    for w in &ws {
        explore(&mut r, w, &m04);
    }
    r
}

// ---------------------------------------------------------------- C05

fn same_others(pre: &Snap, post: &Snap, except: Option<u32>) -> Result<(), Fail> {
    for (k, p) in pre.used() {
        if Some(*k) != except && post.parts.get(k) != Some(p) {
            return fail(format!("partition {k} was changed or lost"));
        }
    }
    for (k, p) in post.used() {
        if Some(*k) != except && pre.parts.get(k) != Some(p) {
            return fail(format!("partition {k} appeared or changed"));
        }
    }
    Ok(())
}

fn m05(c: &mut Ctx, s: &mut Step) -> Result<(), Fail> {
    // the announced next number in the state reached
    let n = s.post.header().num_parts;
    let low = lowest_unused(s.post);
    let want = if low <= n { Some(low) } else { None };
    if n > 0 {
        let got = s.disk.find_next_partition_id();
        c.hit("announcements");
        if got != want {
            return fail(format!("next number announced as {got:?}, lowest unused is {want:?} of {n}"));
        }
    }
    match (s.op, s.res) {
        (Some(Op::Add { .. }), Res::Id(id)) => {
            c.hit("numbered adds");
            let want = lowest_unused(s.pre);
            if *id != want {
                return fail(format!("got number {id}, lowest unused is {want}"));
            }
            if !s.post.parts.contains_key(id) {
                return fail(format!("no partition {id} after adding it"));
            }
            same_others(s.pre, s.post, Some(*id))
        }
        (Some(Op::AddAt { id, .. }), Res::Id(_)) => same_others(s.pre, s.post, Some(id)),
        (Some(Op::Add { .. } | Op::AddAt { .. }), _) => same_others(s.pre, s.post, None),
        (Some(Op::Remove(id)), r) => {
            let want = s.pre.parts.contains_key(&id).then_some(id);
            removed(c, s, r, want)
        }
        (Some(Op::RemoveGuidOf(k)), r) => {
            let g = s.pre.parts.values().nth(k).map(|p| p.part_guid).unwrap_or_else(|| fixed_guid(999_999));
            let want = s.pre.parts.iter().find(|(_, p)| p.part_guid == g).map(|(k, _)| *k);
            removed(c, s, r, want)
        }
        (Some(Op::RemoveGuidAbsent), r) => removed(c, s, r, None),
        _ => Ok(()),
    }
}
fn removed(c: &mut Ctx, s: &Step, r: &Res, want: Option<u32>) -> Result<(), Fail> {
    c.hit(if want.is_some() { "removals" } else { "removals of nothing" });
    if *r != Res::Opt(want) {
        return fail(format!("removal reported {r:?} instead of {want:?}"));
    }
    let mut m = s.pre.parts.clone();
    if let Some(k) = want {
        m.remove(&k);
    }
    if m != s.post.parts {
        return fail(format!("removal must take away exactly {want:?}"));
    }
    Ok(())
}

pub fn c05(deep: bool) -> Report {
    let mut r = Report::new("model_checking", MC_RULE);
    let mut ws = vec![];
    ws.extend(padded_worlds(if deep { 3 } else { 2 }));
    let mut ops = vec![
        add(512, None),
        add(1024, None),
        add(512 * 400, None),
        Op::RemoveGuidOf(0),
        Op::RemoveGuidOf(1),
        Op::RemoveGuidOf(2),
        Op::RemoveGuidAbsent,
        Op::Remove(0),
        Op::Remove(u32::MAX),
        Op::Update(Preset::DupGuid),
        Op::Update(Preset::PlusUnused),
        Op::Update(Preset::ShiftUp),
        Op::Update(Preset::High),
        Op::Update(Preset::AllUnused),
        Op::Update(Preset::OddUnused),
        Op::Update(Preset::Single5),
        Op::Take,
        Op::Write,
        Op::Reopen,
        Op::CloneSwap,
    ];
    for id in [1, 2, 3, 4, 5, 128, 129] {
        ops.push(Op::Remove(id));
        ops.push(add_at(id, 34 + (id as u64 % 7), 1));
    }
    ws.push(World::create("numbers", dev_usable(Lb512, 8), Cfg::rw(Lb512), ops.clone(), if deep { 5 } else { 3 }));
    ws.push(World::create("numbers 4k", dev_usable(Lb4096, 8), Cfg::rw(Lb4096), ops.clone(), 2));
    for (n, pre) in [
        ("126", vec![Op::Update(Preset::Seq(126))]),
        ("128", vec![Op::Update(Preset::Seq(128))]),
        ("127 of 128, hole at 64", vec![Op::Update(Preset::SeqBut(128, 64))]),
        ("1..=127 and 129", vec![Op::Update(Preset::Gap128)]),
        ("129 and 200", vec![Op::Update(Preset::High)]),
    ] {
        for cfg in [Cfg::rw(Lb512), Cfg::rw(Lb512).growing()] {
            let mut o = ops.clone();
            o.retain(|x| !matches!(x, Op::Update(Preset::ShiftUp) | Op::Remove(0 | 3 | 4)));
            o.extend([Preset::Inverted, Preset::OutOfRange, Preset::Nested].map(Op::Update));
            for id in [64, 127, 128, 129, 130, 131, 200] {
                o.push(Op::Remove(id));
                o.push(add_at(id, 200 + id as u64, 1));
            }
            if cfg.grow {
                o.push(Op::Update(Preset::Seq(130)));
                o.push(Op::Update(Preset::SeqBut(131, 129)));
            }
            ws.push(World::create(&format!("{n} grow={}", cfg.grow), dev_usable(Lb512, 420), cfg, o, if deep { 3 } else { 2 }).after(&pre));
        }
    }
    for (n, d, c) in foreign_images() {
        let l = lbs(c.lb());
        let mut o = vec![add(l, None), add(2 * l, None), Op::RemoveGuidOf(0), Op::RemoveGuidOf(1), Op::Write, Op::Reopen];
        for id in [1, 2, 3, 127, 128, 200, 256] {
            o.push(Op::Remove(id));
        }
        ws.push(World::open(&n, d, c, o, if deep { 4 } else { 3 }));
    }
    // other entry counts
    for np in [1u32, 4, 127, 128, 129, 160, 256, 512, 1100] {
        for grow in [false, true] {
            let mut i = Img::new(Lb512, 3 + 2 * (np as u64).div_ceil(4).max(33) + 12);
            i.nparts = np;
            let f = 2 + 34.max((np as u64).div_ceil(4) + 1);
            i.first = Some(f);
            i.last = Some(f + 5);
            i.entries = vec![(1, ent(0, 1, f, f)), (np, ent(0, 2, f + 1, f + 1))];
            let mut cfg = Cfg::rw(Lb512);
            cfg.grow = grow;
            let mut o = vec![add(512, None), Op::Write, Op::Reopen, Op::RemoveGuidOf(0), Op::RemoveGuidOf(1)];
            for id in [1, 2, np, np + 1] {
                o.push(Op::Remove(id));
                o.push(add_at(id, f + 3, 1));
            }
            ws.push(World::open(&format!("count {np} grow={grow}"), i.build(), cfg, o.clone(), if deep { 5 } else { 3 }));
            // nearly full
            if np >= 127 {
                o.push(Op::Update(Preset::Seq(np)));
                o.push(Op::Update(Preset::Seq(np - 1)));
                for k in [1, np / 2, np - 1] {
                    o.push(Op::Update(Preset::SeqBut(np, k)));
                }
                ws.push(World::open(&format!("count {np} nearly full grow={grow}"), i.build(), cfg, o, if deep { 3 } else { 2 }));
            }
        }
    }
    ws.extend(write_worlds(deep));
    for w in &ws {
        explore(&mut r, w, &m05);
    }
    r
}
