//! C08, C19, C20, C21, C23: builders, codecs and queries, over complete bounded input spaces.
use super::write::*;
use crate::dev::{pattern_byte, Dev};
use crate::refm::*;
use crate::rep::*;
use crate::sm::*;
use crate::types::known;
use gpt::disk::LogicalBlockSize::{self, Lb4096, Lb512};
use gpt::header::{read_header_from_arbitrary_device, Header, HeaderBuilder};
use gpt::mbr::{self, PartRecord, ProtectiveMBR};
use gpt::partition::{file_read_partitions, Partition};
use gpt::partition_types::{OperatingSystem, Type};
use std::collections::BTreeMap;
use std::str::FromStr;
use uuid::Uuid;

const LBS: [LogicalBlockSize; 2] = [Lb512, Lb4096];

// ---------------------------------------------------------------- C08

/// the rules every built header has to satisfy, `end` being the block of the backup header
fn layout(h: &Header, primary: bool, lb: u64, end: u64) -> Result<(), String> {
    let a = array_blocks(h.num_parts as u64, h.part_size as u64, lb);
    let bad = |m: String| Err(format!("{} header: {m}: {h:?}", if primary { "primary" } else { "backup" }));
    if h.signature != "EFI PART" || h.revision != (1, 0) || h.header_size_le != 92 || h.reserved != 0 {
        return bad("identification".into());
    }
    let (my, alt) = if primary { (1, end) } else { (end, 1) };
    if h.current_lba != my || h.backup_lba != alt {
        return bad(format!("should be in block {my} with the other in {alt}"));
    }
    if h.first_usable > h.last_usable {
        return bad("no usable sector".into());
    }
    if (h.first_usable as u128) < 2 + a {
        return bad(format!("no room for {a} array blocks in front of the usable range"));
    }
    if h.last_usable as u128 + a + 1 > end as u128 {
        return bad(format!("no room for {a} array blocks between the usable range and block {end}"));
    }
    let p = h.part_start as u128;
    if primary {
        if p < 2 || p + a > h.first_usable as u128 {
            return bad("array not between header and usable range".into());
        }
    } else if p <= h.last_usable as u128 || p + a > end as u128 {
        return bad("array not between usable range and header".into());
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Set {
    lb: LogicalBlockSize,
    n: Option<u32>,
    s: Option<u32>,
    b: Option<u64>,
    f: Option<u64>,
    l: Option<u64>,
}
fn try_build(c: &mut Ctx, x: &Set) -> Result<(), String> {
    let lb = lbs(x.lb);
    let guid = fixed_guid(77);
    let make = |primary: bool| {
        let mut hb = HeaderBuilder::new();
        hb.disk_guid(guid).primary(primary);
        if let Some(v) = x.n {
            hb.num_parts(v);
        }
        if let Some(v) = x.s {
            hb.part_size(v);
        }
        if let Some(v) = x.b {
            hb.backup_lba(v);
        }
        if let Some(v) = x.f {
            hb.first_usable(v);
        }
        if let Some(v) = x.l {
            hb.last_usable(v);
        }
        let r = lib(|| hb.build(x.lb)).map_err(|p| format!("panic: {p}"))?;
        let again = lib(|| hb.build(x.lb)).map_err(|p| format!("panic: {p}"))?;
        if r.as_ref().ok() != again.as_ref().ok() {
            return Err(format!("building twice gives {r:?} and {again:?}"));
        }
        Ok::<_, String>(r)
    };
    let n = x.n.unwrap_or(0).max(128);
    let s = x.s.unwrap_or(128);
    let a = array_blocks(n as u64, s as u64, lb);
    let end = x.b.unwrap_or(0) as u128;
    let first = (x.f.unwrap_or(0) as u128).max(2 + a);
    let room = end >= first + a + 1;
    let fits_at_all = end >= 2 + a + a + 1;
    let (p, q) = (make(true)?, make(false)?);
    c.outcome(&format!("room={room} primary={} backup={}", p.is_ok(), q.is_ok()));
    if p.is_ok() != q.is_ok() {
        return Err(format!("primary gives {p:?} but backup {q:?}"));
    }
    // what was set before makes no difference
    if x.n.is_some() && x.s.is_some() && x.b.is_some() && x.f.is_some() && x.l.is_some() {
        let (n, s, b, f, l) = (x.n.unwrap(), x.s.unwrap(), x.b.unwrap(), x.f.unwrap(), x.l.unwrap());
        for up in [true, false] {
            let o = |v: u64| if up { v.saturating_mul(2).saturating_add(9) } else { v / 2 };
            let mut hb = HeaderBuilder::new();
            hb.primary(!up).disk_guid(fixed_guid(78)).num_parts(o(n as u64).min(u32::MAX as u64) as u32).part_size(o(s as u64).min(u32::MAX as u64) as u32);
            hb.last_usable(o(l)).first_usable(o(f)).backup_lba(o(b));
            let _ = lib(|| hb.build(x.lb).is_ok()).map_err(|p| format!("panic: {p}"))?;
            hb.last_usable(l).first_usable(f).backup_lba(b).part_size(s).num_parts(n).disk_guid(guid);
            for (primary, want) in [(true, &p), (false, &q)] {
                let g = lib(|| hb.primary(primary).build(x.lb)).map_err(|p| format!("panic: {p}"))?;
                if g.as_ref().ok() != want.as_ref().ok() {
                    return Err(format!("after other settings the builder gives {g:?}, freshly made {want:?}"));
                }
            }
        }
    }
    let (p, q) = match (p, q) {
        (Ok(p), Ok(q)) => (p, q),
        (Err(e), _) => {
            return if room { Err(format!("building failed with {} although a usable sector remains", hkind(&e))) } else { Ok(()) };
        }
        _ => unreachable!(),
    };
    if !fits_at_all {
        return Err(format!("built a header although no usable sector remains: {p:?}"));
    }
    for (h, primary) in [(&p, true), (&q, false)] {
        layout(h, primary, lb, end as u64)?;
        if h.num_parts != n || h.part_size != s || h.disk_guid != guid {
            return Err(format!("settings not taken over: {h:?}"));
        }
    }
    if (p.first_usable, p.last_usable) != (q.first_usable, q.last_usable) {
        return Err(format!("the two headers disagree on the usable range: {p:?} / {q:?}"));
    }
    let max_last = end - a - 1;
    if let Some(f) = x.f {
        if f as u128 >= 2 + a && f as u128 <= max_last && p.first_usable != f {
            return Err(format!("first usable {f} leaves room but became {}", p.first_usable));
        }
    }
    if let Some(l) = x.l {
        if l as u128 >= first && l as u128 <= max_last && p.last_usable != l {
            return Err(format!("last usable {l} leaves room but became {}", p.last_usable));
        }
    }
    // a builder made from a header gives that header again, and its counterpart
    for h in [&p, &q] {
        for (primary, want) in [(true, &p), (false, &q)] {
            let mut hb = HeaderBuilder::from_header(h);
            let r = lib(|| hb.primary(primary).build(x.lb)).map_err(|p| format!("panic: {p}"))?;
            match r {
                Ok(g) if g == *want => {}
                r => return Err(format!("from_header({h:?}).primary({primary}) gives {r:?}")),
            }
        }
        let mut hb = HeaderBuilder::from_header(h);
        match lib(|| hb.build(x.lb)).map_err(|p| format!("panic: {p}"))? {
            Ok(g) if g == *h => {}
            r => return Err(format!("from_header({h:?}) gives {r:?}")),
        }
    }
    c.seen((n, s, lb, p.first_usable, p.last_usable, p.backup_lba));
    Ok(())
}

fn around(v: &[u128], d: i128) -> Vec<u64> {
    let mut o: Vec<u64> = v
        .iter()
        .flat_map(|x| (-d..=d).filter_map(|k| u64::try_from(*x as i128 + k).ok()))
        .collect();
    o.sort();
    o.dedup();
    o
}

pub fn c08(deep: bool) -> Report {
    let mut r = Report::new(
        "exploration",
        "every combination of builder settings from boundary sets around each layout threshold, every small device size, every growth of the entry count around each threshold; the result is judged by layout rules in 128-bit arithmetic. distinct_nontrivial counts distinct built layouts",
    );
    let mut ns: Vec<Option<u32>> = [0, 1, 4, 127, 128, 129, 132, 133, 256, 1 << 16, 1 << 20, 1 << 28, u32::MAX].into_iter().map(Some).collect();
    ns.push(None);
    let mut ss: Vec<Option<u32>> = [0, 1, 4, 127, 128, 129, 256, 512, 4096, 1 << 16, 1 << 30, u32::MAX].into_iter().map(Some).collect();
    ss.push(None);
    if deep {
        for n in [2, 3, 5, 64, 126, 130, 131, 134, 135, 136, 255, 257, 511, 512, 1000, 4000, 4096, (1 << 31), u32::MAX - 1] {
            ns.push(Some(n));
        }
        for s in [2, 3, 8, 16, 32, 64, 126, 130, 255, 257, 511, 513, 1000, 1 << 20, u32::MAX - 1] {
            ss.push(Some(s));
        }
    }
    let mut outer = vec![];
    for lb in LBS {
        for n in &ns {
            for s in &ss {
                outer.push((lb, *n, *s));
            }
        }
    }
    par(&mut r, &outer, |c, (lb, n, s)| {
        let bs = lbs(*lb);
        let a = array_blocks(n.unwrap_or(0).max(128) as u64, s.unwrap_or(128) as u64, bs);
        let w = if deep { 4 } else { 2 };
        let mut bset: Vec<Option<u64>> = around(&[0, 2, 2 + a, 2 * a + 3, 3 * a + 3, 2 * a + 100, 1 << 32, 1 << 55, 1 << 63], w)
            .into_iter()
            .chain([u64::MAX - 1, u64::MAX])
            .map(Some)
            .collect();
        bset.push(None);
        for b in bset {
            let e = b.unwrap_or(0) as u128;
            let max_last = e.saturating_sub(a + 1);
            let mut fs: Vec<Option<u64>> = around(&[0, 2 + a, 10 + a, max_last, e, 1 << 63], if deep { 2 } else { 1 }).into_iter().chain([u64::MAX]).map(Some).collect();
            fs.push(None);
            let mut ls = fs.clone();
            ls.push(Some(u64::try_from((2 + a + max_last) / 2).unwrap_or(u64::MAX)));
            for f in &fs {
                for l in &ls {
                    let x = Set { lb: *lb, n: *n, s: *s, b, f: *f, l: *l };
                    c.begin(&format!("{x:?}"));
                    c.eval();
                    if let Err(m) = try_build(c, &x) {
                        c.violation(m, format!("HeaderBuilder {x:?}"));
                    }
                }
            }
        }
    });
    let n = r.evals;
    r.parts.push(("builder settings".into(), n));

    // new disks of every size
    let mut sizes: Vec<(LogicalBlockSize, u64, bool)> = vec![];
    for lb in LBS {
        let bs = lbs(lb);
        for blocks in 0..if deep { 400 } else { 110 } {
            for x in [0, 1, bs / 2, bs - 1] {
                sizes.push((lb, blocks * bs + x, false));
            }
        }
        for k in 20..63 {
            for d in [-1i64, 0, 1, bs as i64] {
                sizes.push((lb, ((1i64 << k).saturating_add(d)) as u64, true));
            }
        }
        sizes.push((lb, i64::MAX as u64, true));
    }
    par(&mut r, &sizes, |c, (lb, len, sparse)| {
        let bs = lbs(*lb);
        let a = array_blocks(128, 128, bs) as u64;
        for (strict, ro) in [(false, false), (false, true), (true, false)] {
            let case = format!("create_from_device, device of {len} bytes, {lb:?}, strict={strict} readonly_backup={ro}");
            c.begin(&case);
            c.eval();
            let dev = if *sparse { Dev::sparse(*len, false) } else { Dev::patterned(*len) };
            let mut cfg = Cfg::rw(*lb);
            cfg.strict = strict;
            cfg.ro_backup = ro;
            let end = (len / bs).saturating_sub(1);
            let room = end > 2 + 2 * a;
            let res = (|| {
                let d = match lib(|| cfg.gpt().create_from_device(dev, Some(fixed_guid(5)))) {
                    Err(p) => return Err(format!("panic: {p}")),
                    Ok(Err(e)) => {
                        return if room { Err(format!("fails with {} although there is room", ekind(&e))) } else { Ok(false) };
                    }
                    Ok(Ok(d)) => d,
                };
                if !room {
                    return Err(format!("succeeds without room for a usable sector: {:?}", d.primary_header()));
                }
                let s = Snap::of(&d);
                layout(s.h1.as_ref().map_err(|e| e.clone())?, true, bs, end)?;
                let h = s.header();
                if h.num_parts < 128 || h.part_size != 128 || s.guid != fixed_guid(5) || h.disk_guid != s.guid || !s.parts.is_empty() {
                    return Err(format!("not a new empty table: {}", s.brief()));
                }
                match &s.h2 {
                    Ok(b) => {
                        layout(b, false, bs, end)?;
                        if (b.first_usable, b.last_usable, b.num_parts) != (h.first_usable, h.last_usable, h.num_parts) {
                            return Err("headers disagree".into());
                        }
                    }
                    Err(e) if !ro => return Err(format!("no backup header: {e}")),
                    _ => {}
                }
                // the layout is also what a write puts down
                let mut d = d;
                match lib(|| d.write_inplace()) {
                    Ok(Ok(())) => {}
                    x => return Err(format!("writing the new table: {x:?}")),
                }
                validate_device(d.device_ref(), *lb, !ro)?;
                Ok(true)
            })();
            match res {
                Ok(ok) => {
                    c.outcome(if ok { "create:ok" } else { "create:refused" });
                    if ok {
                        c.seen(("create", len, bs));
                    }
                }
                Err(m) => c.violation(m, case),
            }
        }
    });
    let m = r.evals;
    r.parts.push(("new disks".into(), m - n));

    // growing the entry count and moving to devices of other sizes
    let mut grow: Vec<(LogicalBlockSize, u64, u32)> = vec![];
    for lb in LBS {
        let bs = lbs(lb);
        let mut counts = vec![1, 128, 129, 132, 133, 160, 161, 192, 256, 257, 1000];
        if deep {
            counts.extend([2000, 4000, 130, 131, 134, 135, 136, 137]);
        }
        for n in counts {
            let a = array_blocks(n.max(128) as u64, 128, bs) as u64;
            let a0 = array_blocks(128, 128, bs) as u64;
            for b in around(&[2 * a0 as u128 + 4, 2 * a as u128 + 4, 3 * a as u128, (a + a0) as u128 + 4], if deep { 6 } else { 3 }) {
                if b >= 2 * a0 + 4 {
                    grow.push((lb, b, n));
                }
            }
        }
    }
    par(&mut r, &grow, |c, (lb, blocks, n)| {
        let bs = lbs(*lb);
        let a = array_blocks((*n).max(128) as u64, 128, bs) as u64;
        for how in 0..4 {
            // 0: fresh disk; 1: opened; 2: opened with a header of limited range; 3: the device grew after the table was made
            let case = format!("replace the table by {n} entries on {blocks} blocks of {bs}, variant {how}");
            c.begin(&case);
            c.eval();
            let a0 = array_blocks(128, 128, bs) as u64;
            let res = (|| {
                let mut img = Img::new(*lb, *blocks);
                if how == 2 {
                    img.last = Some(img.first_usable());
                }
                if how == 3 {
                    img.blocks = 2 * a0 + 4;
                }
                let mut dev = img.build();
                dev.resize(*blocks * bs + 3, 0);
                let cfg = Cfg::rw(*lb).growing();
                let d = match how {
                    0 => lib(|| cfg.gpt().create_from_device(dev, Some(fixed_guid(5)))),
                    _ => lib(|| cfg.gpt().open_from_device(dev)),
                };
                let mut d = d.map_err(|p| format!("panic: {p}"))?.map_err(|e| format!("can not be opened: {}", ekind(&e)))?;
                let before = Snap::of(&d);
                let f = before.header().first_usable;
                let mut pp = BTreeMap::new();
                for i in 1..=*n {
                    pp.insert(i, part(0, i, f, f, 0, 0));
                }
                let end = blocks - 1;
                let room = end >= f.max(2 + a) + a + 1;
                match lib(|| d.update_partitions(pp)).map_err(|p| format!("panic: {p}"))? {
                    Err(e) => {
                        if room {
                            return Err(format!("fails with {} although there is room", ekind(&e)));
                        }
                        if Snap::of(&d) != before {
                            return Err("a refused growth changed the disk".into());
                        }
                        return Ok(false);
                    }
                    Ok(()) if !room => return Err(format!("succeeds without room: {:?}", d.header())),
                    Ok(()) => {}
                }
                let s = Snap::of(&d);
                layout(s.h1.as_ref().map_err(|e| e.clone())?, true, bs, end)?;
                layout(s.h2.as_ref().map_err(|e| e.clone())?, false, bs, end)?;
                if s.header().num_parts < *n {
                    return Err(format!("{} slots for {n} entries", s.header().num_parts));
                }
                match lib(|| d.write_inplace()) {
                    Ok(Ok(())) => {}
                    x => return Err(format!("writing the grown table: {x:?}")),
                }
                validate_device(d.device_ref(), *lb, true)?;
                Ok(true)
            })();
            match res {
                Ok(ok) => {
                    c.outcome(if ok { "grow:ok" } else { "grow:refused" });
                    if ok {
                        c.seen(("grow", n, blocks, bs, how));
                    }
                }
                Err(m) => c.violation(m, case),
            }
        }
    });
    let k = r.evals;
    r.parts.push(("growth".into(), k - m));
    r.assumptions.push("headers whose own location is not block 1 are not used as builder input");
    r
}

// ---------------------------------------------------------------- C19

fn sector(fill: u8, pat: bool) -> [u8; 512] {
    let mut b = [fill; 512];
    if pat {
        for (i, x) in b.iter_mut().enumerate() {
            *x = pattern_byte(i as u64 * 3 + 7);
        }
    }
    b[510] = 0x55;
    b[511] = 0xAA;
    b
}
fn rec_bytes(p: &PartRecord) -> [u8; 16] {
    let mut b = [0; 16];
    b[..8].copy_from_slice(&[p.boot_indicator, p.start_head, p.start_sector, p.start_track, p.os_type, p.end_head, p.end_sector, p.end_track]);
    b[8..12].copy_from_slice(&p.lb_start.to_le_bytes());
    b[12..].copy_from_slice(&p.lb_size.to_le_bytes());
    b
}
/// what an MBR object must say when it stands for these 512 bytes
fn mbr_is(m: &ProtectiveMBR, want: &[u8; 512]) -> Result<(), String> {
    let out = lib(|| m.to_bytes()).map_err(|p| format!("panic: {p}"))?;
    if out != *want {
        let at = (0..512).find(|i| out[*i] != want[*i]).unwrap();
        return Err(format!("serialised byte {at} is {:#04x}, should be {:#04x}", out[at], want[at]));
    }
    if m.bootcode()[..] != want[..440] || m.disk_signature()[..] != want[440..444] {
        return Err("boot code or disk signature accessor wrong".into());
    }
    for i in 0..6 {
        match (m.partition(i), i < 4) {
            (Some(p), true) if rec_bytes(&p) == want[446 + 16 * i..462 + 16 * i] => {}
            (None, false) => {}
            (x, _) => return Err(format!("partition({i}) is {x:?}")),
        }
    }
    Ok(())
}
fn parse_check(c: &mut Ctx, b: &[u8; 512]) {
    c.eval();
    let res = (|| {
        let m = lib(|| ProtectiveMBR::from_bytes(b, Lb512)).map_err(|p| format!("panic: {p}"))?;
        let ok = b[510..] == [0x55, 0xAA];
        match m {
            Ok(m) => {
                if !ok {
                    return Err("a block without the signature is accepted".into());
                }
                mbr_is(&m, b)
            }
            Err(e) if ok => Err(format!("a block with the signature is rejected: {e}")),
            Err(_) => Ok(()),
        }
    })();
    c.seen(&b[..]);
    if let Err(m) = res {
        c.violation(m, format!("from_bytes of {b:02x?}"));
    }
}

#[derive(Clone, Copy, Debug)]
enum MOp {
    FromDisk,
    Overwrite(u8),
    Conservative(u8),
    ReadBoot,
    WriteBoot(u8),
    ReadSig,
    WriteSig(u8),
    SeekTo(u64),
}
fn mbr_obj(k: u8) -> (ProtectiveMBR, [u8; 512]) {
    let b = match k {
        0 => sector(0, false),
        1 => sector(0xFF, false),
        _ => {
            let mut b = sector(0, true);
            b.iter_mut().take(510).for_each(|x| *x ^= k.wrapping_mul(29));
            b
        }
    };
    (ProtectiveMBR::from_bytes(&b, Lb512).expect("own sector"), b)
}
fn mbr_step(dev: &mut Dev, op: MOp, lb: LogicalBlockSize) -> Result<String, String> {
    let mut want = dev.clone();
    let pos = dev.pos();
    let len = dev.size();
    let p = |p: String| format!("panic: {p}");
    let expect_ok;
    let got_ok;
    dev.reset();
    match op {
        MOp::SeekTo(x) => {
            dev.set_pos(x);
            return Ok("seek".into());
        }
        MOp::FromDisk => {
            let r = lib(|| ProtectiveMBR::from_disk(dev, lb)).map_err(p)?;
            expect_ok = len >= lbs(lb) && want.peek(510, 2).as_deref() == Some(&[0x55, 0xAA]);
            got_ok = r.is_ok();
            if let Ok(m) = &r {
                let mut b = [0; 512];
                b.copy_from_slice(&want.peek(0, 512).ok_or("read an MBR from a device that has no block")?);
                if expect_ok {
                    mbr_is(m, &b)?;
                }
            }
        }
        MOp::Overwrite(k) => {
            let (m, b) = mbr_obj(k);
            let r = lib(|| m.overwrite_lba0(dev)).map_err(p)?;
            expect_ok = true;
            got_ok = r.is_ok();
            if let Ok(n) = r {
                if n != 512 {
                    return Err(format!("overwrite_lba0 reports {n} bytes"));
                }
            }
            want.poke(0, &b);
        }
        MOp::Conservative(k) => {
            let (m, b) = mbr_obj(k);
            let r = lib(|| m.update_conservative(dev)).map_err(p)?;
            expect_ok = true;
            got_ok = r.is_ok();
            if let Ok(n) = r {
                if n != 66 {
                    return Err(format!("update_conservative reports {n} bytes"));
                }
            }
            want.poke(446, &b[446..]);
        }
        MOp::ReadBoot => {
            let r = lib(|| mbr::read_bootcode(dev)).map_err(p)?;
            expect_ok = len >= 440;
            got_ok = r.is_ok();
            if let Ok(b) = r {
                if want.peek(0, 440).as_deref() != Some(&b[..]) {
                    return Err("wrong boot code read".into());
                }
            }
        }
        MOp::WriteBoot(k) => {
            let b = mbr_obj(k).1;
            let mut code = [0; 440];
            code.copy_from_slice(&b[..440]);
            got_ok = lib(|| mbr::write_bootcode(dev, &code)).map_err(p)?.is_ok();
            expect_ok = true;
            want.poke(0, &code);
        }
        MOp::ReadSig => {
            let r = lib(|| mbr::read_disk_signature(dev)).map_err(p)?;
            expect_ok = len >= 444;
            got_ok = r.is_ok();
            if let Ok(b) = r {
                if want.peek(440, 4).as_deref() != Some(&b[..]) {
                    return Err("wrong disk signature read".into());
                }
            }
        }
        MOp::WriteSig(k) => {
            let s = [k, k ^ 0x5A, 0x80 | k, 3];
            got_ok = lib(|| mbr::write_disk_signature(dev, &s)).map_err(p)?.is_ok();
            expect_ok = true;
            want.poke(440, &s);
        }
    }
    if got_ok != expect_ok {
        return Err(format!("succeeded: {got_ok}, should be: {expect_ok}"));
    }
    if got_ok && dev.pos() != pos {
        return Err(format!("position moved from {pos} to {}", dev.pos()));
    }
    if !got_ok {
        dev.set_pos(pos);
    }
    let diff = want.diff(dev);
    if !diff.is_empty() {
        return Err(format!("device differs from what it should be at byte ranges {diff:?}"));
    }
    let n = format!("{op:?}");
    Ok(format!("{}:{}", n.split('(').next().unwrap(), if got_ok { "ok" } else { "err" }))
}

pub fn c19(deep: bool) -> Report {
    let mut r = Report::new(
        "model_checking",
        "every block that differs from three bases in one byte (all values) or two bits, all 65536 signatures, all buffer lengths up to 9000; every sequence of MBR calls to the depth on devices of several sizes and from several positions, compared with a 512-byte model. states are distinct (device, position) states",
    );
    let bases = [sector(0, false), sector(0xFF, false), sector(0, true)];
    // one byte, all values, and two bits
    let idx: Vec<(usize, usize)> = (0..3).flat_map(|b| (0..512).map(move |i| (b, i))).collect();
    par(&mut r, &idx, |c, (b, i)| {
        c.begin(&format!("MBR block, byte {i} of base {b}"));
        for v in 0..=255u8 {
            let mut x = bases[*b];
            x[*i] = v;
            parse_check(c, &x);
        }
        let step = if deep { 1 } else { 8 };
        for k in (0..4096).step_by(step) {
            let k = k + (*i * 3 + k / 8) % step;
            for v in 0..8 {
                if !deep && v != (*i + k) % 8 {
                    continue;
                }
                let mut x = bases[*b];
                x[*i] ^= 1 << v;
                x[k / 8] ^= 1 << (k % 8);
                parse_check(c, &x);
            }
        }
    });
    let sigs: Vec<u32> = (0..65536).collect();
    par(&mut r, &sigs, |c, s| {
        for b in 0..3 {
            let mut x = bases[b];
            x[510] = *s as u8;
            x[511] = (*s >> 8) as u8;
            parse_check(c, &x);
        }
    });
    let lens: Vec<usize> = (0..9000).collect();
    par(&mut r, &lens, |c, n| {
        for lb in LBS {
            for fill in [0u8, 0x55, 0xAA] {
                let mut b = vec![fill; *n];
                if *n >= 512 {
                    b[..512].copy_from_slice(&bases[2]);
                }
                if *n >= 2 {
                    b[*n - 2] = if *n == 4096 { 1 } else { 0x55 };
                    b[*n - 1] = if *n == 4096 { 2 } else { 0xAA };
                }
                c.eval();
                match lib(|| ProtectiveMBR::from_bytes(&b, lb)) {
                    Err(p) => c.violation(format!("panic: {p}"), format!("from_bytes of {n} bytes, {lb:?}")),
                    Ok(Ok(m)) if *n as u64 == lbs(lb) => {
                        if let Err(e) = mbr_is(&m, &bases[2]) {
                            c.violation(e, format!("from_bytes of {n} bytes, {lb:?}"));
                        }
                    }
                    Ok(x) => {
                        if x.is_ok() || *n as u64 == lbs(lb) {
                            c.violation(format!("accepted: {}", x.is_ok()), format!("from_bytes of {n} bytes, {lb:?}"));
                        }
                    }
                }
                if lb == Lb512 && *n <= 64 {
                    let rec: Vec<u8> = (0..*n).map(|i| pattern_byte(i as u64)).collect();
                    match lib(|| PartRecord::from_bytes(&rec)) {
                        Ok(Ok(p)) if *n == 16 && p.to_bytes()[..] == rec[..] && rec_bytes(&p)[..] == rec[..] => {}
                        Ok(Err(_)) if *n != 16 => {}
                        x => c.violation(format!("record: {x:?}"), format!("PartRecord::from_bytes of {n} bytes")),
                    }
                }
            }
        }
    });
    // records: every byte value at every position, pairs of bits
    let pos: Vec<usize> = (0..16).collect();
    par(&mut r, &pos, |c, i| {
        for base in [0u8, 0xFF, 0xA5] {
            for v in 0..=255u8 {
                for j in 0..128 {
                    let mut b = [base; 16];
                    b[*i] = v;
                    b[j / 8] ^= 1 << (j % 8);
                    c.eval();
                    let ok = match lib(|| PartRecord::from_bytes(&b)) {
                        Ok(Ok(p)) => rec_bytes(&p) == b && p.to_bytes() == b,
                        _ => false,
                    };
                    if !ok {
                        c.violation("record codec is not exact", format!("PartRecord {b:02x?}"));
                    }
                }
            }
        }
        for (p, want) in [
            (PartRecord::zero(), [0u8; 16]),
            (PartRecord::new_protective(None), [0, 0, 2, 0, 0xEE, 0xFF, 0xFF, 0xFF, 1, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF]),
            (PartRecord::new_protective(Some(0x0102_0304)), [0, 0, 2, 0, 0xEE, 0xFF, 0xFF, 0xFF, 1, 0, 0, 0, 4, 3, 2, 1]),
        ] {
            if p.to_bytes() != want || rec_bytes(&p) != want {
                c.violation(format!("record constructor gives {p:?}"), "PartRecord constructors");
            }
        }
    });
    // the protective record of every size
    let mut c = Ctx::new(0);
    for n in around(&(0..=32).map(|k| 1u128 << k).chain([0]).collect::<Vec<_>>(), 2).into_iter().filter_map(|n| u32::try_from(n).ok()) {
        let mut want = [0, 0, 2, 0, 0xEE, 0xFF, 0xFF, 0xFF, 1, 0, 0, 0, 0, 0, 0, 0];
        want[12..].copy_from_slice(&n.to_le_bytes());
        c.eval();
        let mut all = sector(0, false);
        all[446..462].copy_from_slice(&want);
        if rec_bytes(&PartRecord::new_protective(Some(n))) != want {
            c.violation(format!("new_protective(Some({n})) gives {:?}", PartRecord::new_protective(Some(n))), format!("size {n}"));
        }
        if let Err(m) = mbr_is(&ProtectiveMBR::with_lb_size(n), &all) {
            c.violation(format!("with_lb_size({n}): {m}"), format!("size {n}"));
        }
    }
    r.merge(c);
    // setters
    let n0 = r.evals;
    let starts: Vec<usize> = (0..6).collect();
    par(&mut r, &starts, |c, st| {
        let make = || -> (ProtectiveMBR, [u8; 512]) {
            let mut prot = sector(0, false);
            prot[446..462].copy_from_slice(&[0, 0, 2, 0, 0xEE, 0xFF, 0xFF, 0xFF, 1, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF]);
            match st {
                0 => (ProtectiveMBR::new(), prot),
                1 => {
                    prot[458..462].copy_from_slice(&7u32.to_le_bytes());
                    (ProtectiveMBR::with_lb_size(7), prot)
                }
                2 => (ProtectiveMBR::default(), prot),
                k => mbr_obj(*k as u8 - 3),
            }
        };
        // (kind, argument)
        let mut acts: Vec<(u8, usize, u8)> = vec![];
        for i in [0usize, 1, 2, 3, 4, 5, usize::MAX] {
            for k in 1..3 {
                acts.push((0, i, k));
            }
            if i < 4 {
                acts.push((0, i, 8));
            }
        }
        for k in 0..3 {
            acts.push((1, 0, k));
            acts.push((2, 0, k));
        }
        let depth = if deep { 4 } else { 3 };
        let total = acts.len().pow(depth);
        for code in 0..total {
            let mut x = code;
            let (mut m, mut want) = make();
            let mut hist = vec![];
            let mut bad = mbr_is(&m, &want).err();
            for _ in 0..depth {
                let (kind, i, k) = acts[x % acts.len()];
                x /= acts.len();
                hist.push((kind, i, k));
                let src = mbr_obj(k + 3).1;
                match kind {
                    0 => {
                        let mut rb = [0; 16];
                        if k == 8 {
                            rb = [0, 0, 2, 0, 0xEE, 0xFF, 0xFF, 0xFF, 1, 0, 0, 0, 9, 0, 0, 0];
                        } else {
                            rb.copy_from_slice(&src[446 + 16 * k as usize..462 + 16 * k as usize]);
                        }
                        let rec = PartRecord::from_bytes(&rb).unwrap();
                        let old = lib(|| m.set_partition(i, rec));
                        let w = if i < 4 { Some(want[446 + 16 * i..462 + 16 * i].to_vec()) } else { None };
                        match old {
                            Ok(o) if o.map(|p| rec_bytes(&p).to_vec()) == w => {}
                            o => bad = Some(format!("set_partition({i}) returned {o:?}")),
                        }
                        if i < 4 {
                            want[446 + 16 * i..462 + 16 * i].copy_from_slice(&rb);
                        }
                    }
                    1 => {
                        let mut code = [0; 440];
                        code.copy_from_slice(&src[..440]);
                        m.set_bootcode(code);
                        want[..440].copy_from_slice(&code);
                    }
                    _ => {
                        let s = [k, 1, 2, 0xFF];
                        m.set_disk_signature(s);
                        want[440..444].copy_from_slice(&s);
                    }
                }
                if bad.is_none() {
                    bad = mbr_is(&m, &want).err();
                }
            }
            c.eval();
            if let Some(m) = bad {
                c.violation(m, format!("start {st}, setters {hist:?}"));
            }
        }
    });
    let n1 = r.evals;
    r.parts.push(("blocks, lengths and records".into(), n0));
    r.parts.push(("setter sequences".into(), n1 - n0));
    // call sequences on devices
    let mut ops = vec![MOp::FromDisk, MOp::ReadBoot, MOp::ReadSig];
    for k in 0..3 {
        ops.extend([MOp::Overwrite(k), MOp::Conservative(k), MOp::WriteBoot(k), MOp::WriteSig(k)]);
    }
    let mut seqs = vec![];
    for lb in LBS {
        for len in [512u64, 513, 1000, 4096, 4097, 5120, 20000] {
            for pos in [0u64, 1, 440, 446, 511, 512, len / 2, len - 1, len, len + 5, 1 << 40] {
                for valid in [true, false] {
                    seqs.push((lb, len, pos, valid));
                }
            }
        }
    }
    let states = std::sync::Mutex::new(std::collections::HashSet::new());
    let trans = std::sync::atomic::AtomicU64::new(0);
    par(&mut r, &seqs, |c, (lb, len, pos, valid)| {
        let mut start = Dev::patterned(*len);
        if *valid {
            start.poke(510, &[0x55, 0xAA]);
        }
        start.set_pos(*pos);
        let mut all = ops.clone();
        all.push(MOp::SeekTo(len / 3));
        let depth = if deep { 4 } else { 3 };
        // breadth-first with states that were seen left out
        let mut seen = std::collections::HashSet::new();
        let mut frontier = vec![(start, String::new())];
        for d in 0..depth {
            let mut next = vec![];
            for (dev, hist) in &frontier {
                for op in &all {
                    let mut x = dev.clone();
                    c.eval();
                    trans.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let h = if d == 0 { format!("{op:?}") } else { format!("{hist} ; {op:?}") };
                    match mbr_step(&mut x, *op, *lb) {
                        Ok(o) => c.outcome(&o),
                        Err(m) => {
                            c.violation(m, format!("device of {len} bytes ({lb:?}, MBR signature {valid}), position {pos}: {h}"));
                            continue;
                        }
                    }
                    let key = h64(&(x.bytes(), x.pos(), len, valid));
                    if seen.insert(key) {
                        next.push((x, h));
                    }
                }
            }
            frontier = next;
        }
        c.sample(|| format!("device of {len} bytes, position {pos}: {} states", seen.len()));
        states.lock().unwrap().extend(seen);
    });
    r.states = states.into_inner().unwrap().len() as u64;
    r.transitions = trans.into_inner();
    r.traces = r.transitions;
    r
}

// ---------------------------------------------------------------- C20

pub fn c20(deep: bool) -> Report {
    let mut r = Report::new(
        "exploration",
        "every registered type by constant, name in every spelling of case patterns, GUID text in every notation and case, and GUID value; every GUID that differs from a registered one in one bit (two bits when thorough); malformed texts made by deleting, inserting and replacing each character. distinct_nontrivial counts distinct looked-up keys",
    );
    let ks = known();
    let by_guid: BTreeMap<u128, usize> = ks.iter().enumerate().map(|(i, k)| (k.guid, i)).collect();
    if by_guid.len() != ks.len() {
        r.viols.push(Viol { key: String::new(), msg: "the harness' own table has doubles".into(), case: String::new() });
    }
    let idx: Vec<usize> = (0..ks.len()).collect();
    let hyph = |g: u128| Uuid::from_u128(g).hyphenated().to_string();
    let forms = |g: u128| -> Vec<String> {
        let u = Uuid::from_u128(g);
        let h = u.hyphenated().to_string();
        let s = u.simple().to_string();
        let alt = |t: &str, ph: usize| -> String { t.chars().enumerate().map(|(i, c)| if i % 2 == ph { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
        let mut v = vec![];
        for b in [&h, &s] {
            for t in [b.to_lowercase(), b.to_uppercase(), alt(b, 0), alt(b, 1)] {
                v.push(t.clone());
                if b == &h {
                    v.push(format!("{{{t}}}"));
                    v.push(format!("urn:uuid:{t}"));
                }
            }
        }
        // each letter on its own in the other case
        for i in 0..h.len() {
            let mut t: Vec<u8> = h.to_uppercase().into_bytes();
            t[i] = t[i].to_ascii_lowercase();
            v.push(String::from_utf8(t).unwrap());
        }
        v
    };
    par(&mut r, &idx, |c, i| {
        let k = &ks[*i];
        let u = Uuid::from_u128(k.guid);
        let want = Type { guid: u, os: k.os.clone() };
        let check = |c: &mut Ctx, how: String, got: Result<Result<Type, String>, String>, want: Option<&Type>| {
            c.eval();
            c.seen(&how);
            let ok = match (&got, want) {
                (Ok(Ok(t)), Some(w)) => t == w,
                (Ok(Err(_)), None) => true,
                _ => false,
            };
            c.outcome(if want.is_some() { "recognised" } else { "rejected" });
            if !ok {
                c.violation(format!("{how} gives {got:?}, should be {want:?}"), how);
            }
        };
        check(c, format!("constant {}", k.name), Ok(Ok(k.konst.clone())), Some(&want));
        check(c, format!("Type::from({u})"), lib(|| Ok(Type::from(u))), Some(&want));
        for t in forms(k.guid) {
            check(c, format!("from_str({t:?})"), lib(|| Type::from_str(&t)), Some(&want));
            check(c, format!("from_name({t:?})"), lib(|| Type::from_name(&t)), Some(&want));
        }
        // names in every case pattern of up to 10 letters, alternating patterns beyond
        let letters: Vec<usize> = k.name.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
        let nl = letters.len().min(if deep { 14 } else { 9 });
        for m in 0..1u32 << nl {
            let mut t = k.name.as_bytes().to_vec();
            for (b, p) in letters.iter().enumerate() {
                if m >> (b % nl) & 1 == 1 {
                    t[*p] = t[*p].to_ascii_lowercase();
                }
            }
            let t = String::from_utf8(t).unwrap();
            check(c, format!("from_name({t:?})"), lib(|| Type::from_name(&t)), Some(&want));
            check(c, format!("from_str({t:?})"), lib(|| Type::from_str(&t)), Some(&want));
        }
        // neighbours
        let one = |c: &mut Ctx, g: u128| {
            let v = Uuid::from_u128(g);
            let w = match by_guid.get(&g) {
                Some(j) => Type { guid: v, os: ks[*j].os.clone() },
                None => Type { guid: v, os: OperatingSystem::None },
            };
            c.eval();
            for got in [lib(|| Ok(Type::from(v))), lib(|| Type::from_str(&hyph(g)))] {
                match &got {
                    Ok(Ok(t)) if *t == w => {}
                    _ => c.violation(format!("{v} gives {got:?}, should be {w:?}"), format!("{v}")),
                }
            }
        };
        for b in 0..128 {
            one(c, k.guid ^ 1 << b);
            if deep {
                for b2 in 0..b {
                    one(c, k.guid ^ 1 << b ^ 1 << b2);
                }
            }
            let g = k.guid ^ 1 << b;
            if !by_guid.contains_key(&g) && (deep || b % 8 == *i % 8) {
                let w = Type { guid: Uuid::from_u128(g), os: OperatingSystem::None };
                for t in forms(g) {
                    check(c, format!("from_str({t:?})"), lib(|| Type::from_str(&t)), Some(&w));
                }
            }
        }
        // byte order mix-ups of a registered GUID are other GUIDs
        let m = guid_bytes(&u);
        one(c, u128::from_be_bytes(m));
        one(c, k.guid.swap_bytes());
        // malformed texts
        let valid = |t: &str| -> bool {
            // own reading of what is a GUID text or a registered name
            let hexes = |s: &str, n: usize| s.len() == n && s.bytes().all(|b| b.is_ascii_hexdigit());
            let plain = |s: &str| hexes(s, 32) || (s.is_ascii() && s.len() == 36 && [8, 13, 18, 23].iter().all(|p| s.as_bytes()[*p] == b'-') && hexes(&s.replace('-', ""), 32));
            plain(t)
                || t.strip_prefix('{').and_then(|x| x.strip_suffix('}')).is_some_and(|x| x.len() == 36 && plain(x))
                || t.strip_prefix("urn:uuid:").is_some_and(|x| x.len() == 36 && plain(x))
                || ks.iter().any(|k| k.name.eq_ignore_ascii_case(t))
        };
        let mut bad: Vec<String> = vec![];
        for base in [hyph(k.guid).to_uppercase(), k.name.to_string(), Uuid::from_u128(k.guid).simple().to_string(), format!("{{{}}}", hyph(k.guid))] {
            let cs: Vec<char> = base.chars().collect();
            for p in 0..=cs.len() {
                if p < cs.len() {
                    bad.push(cs.iter().enumerate().filter(|(q, _)| *q != p).map(|(_, c)| *c).collect());
                }
                for x in ['0', '-', ' ', 'G', '_', '\0', 'ſ', '０', '\u{0130}', '{', '}'] {
                    let mut t = cs.clone();
                    t.insert(p, x);
                    bad.push(t.iter().collect());
                    if p < cs.len() {
                        let mut t = cs.clone();
                        t[p] = x;
                        bad.push(t.iter().collect());
                    }
                }
            }
        }
        bad.extend(["".into(), " ".into(), "\n".into(), "UNUSED ".into(), "urn:uuid:".into(), "{}".into(), "LINUX".into(), format!("{}\0", k.name)]);
        for t in bad {
            if !valid(&t) {
                check(c, format!("from_str({t:?})"), lib(|| Type::from_str(&t)), None);
            }
        }
        // on a disk, too
        let mut img = Img::new(Lb512, 100);
        let f = img.first_usable();
        let e = entry(guid_bytes(&u), guid_bytes(&fixed_guid(1)), f, f, 0, &[65]);
        img.entries = vec![(1, e)];
        if k.guid != 0 {
            let cfg = Cfg::rw(Lb512);
            match lib(|| cfg.gpt().open_from_device(img.build())) {
                Ok(Ok(d)) if d.partitions().get(&1).map(|p| &p.part_type_guid) == Some(&want) => {}
                x => c.violation(format!("read from a disk: {:?}", x.map(|r| r.map(|d| d.partitions().clone()))), k.name),
            }
        }
    });
    systems(&mut r);
    r
}

/// names of operating systems
fn systems(r: &mut Report) {
    use OperatingSystem as O;
    let all = [
        ("unused", O::None),
        ("android", O::Android),
        ("atari", O::Atari),
        ("Ceph", O::Ceph),
        ("Chrome", O::Chrome),
        ("DragonFlyBsd", O::DragonFlyBsd),
        ("FreeBsd", O::FreeBsd),
        ("FreeDesktop", O::FreeDesktop),
        ("Haiku", O::Haiku),
        ("HP-UX", O::HpUnix),
        ("Linux", O::Linux),
        ("MacOS", O::MacOs),
        ("MidnightBsd", O::MidnightBsd),
        ("Onie", O::Onie),
        ("PowerPc", O::PowerPc),
        ("Solaris Illumos", O::Solaris),
    ];
    let known = |t: &str| all.iter().any(|(n, _)| n.eq_ignore_ascii_case(t));
    let idx: Vec<usize> = (0..all.len()).collect();
    let n0 = r.evals;
    par(r, &idx, |c, i| {
        let (name, want) = &all[*i];
        c.begin(name);
        c.eval();
        match lib(|| O::from_str(name)) {
            Ok(Ok(o)) if o == *want => {}
            x => c.violation(format!("the operating system {name:?} gives {x:?}, should be {want:?}"), *name),
        }
        let cs: Vec<char> = name.chars().collect();
        let mut bad: Vec<String> = vec!["".into(), " ".into(), format!("{name}{name}"), format!("{name}\0")];
        for p in 0..=cs.len() {
            if p < cs.len() {
                bad.push(cs.iter().enumerate().filter(|(q, _)| *q != p).map(|(_, c)| *c).collect());
            }
            for x in ['0', '-', ' ', 'G', 's', '\0', 'ſ'] {
                let mut t = cs.clone();
                t.insert(p, x);
                bad.push(t.iter().collect());
                if p < cs.len() {
                    let mut t = cs.clone();
                    t[p] = x;
                    bad.push(t.iter().collect());
                }
            }
        }
        for t in bad {
            if known(&t) {
                continue;
            }
            c.eval();
            c.seen(&t);
            match lib(|| O::from_str(&t)) {
                Ok(Err(_)) => {}
                x => c.violation(format!("the operating system {t:?} gives {x:?}, should be refused"), t),
            }
        }
    });
    r.parts.push(("names of operating systems".into(), r.evals - n0));
}

// ---------------------------------------------------------------- C21

fn hdr_dev(h: &RHeader, lb: u64) -> Dev {
    let mut d = Dev::zeros(lb + 512);
    d.poke(lb, &h.sealed());
    d
}
fn base_headers() -> Vec<RHeader> {
    let mut v = vec![];
    for k in 0..3u64 {
        let mut h = RHeader::new();
        let x = |i: u64| match k {
            0 => 0,
            1 => u64::MAX,
            _ => (i + 3).wrapping_mul(0x9E37_79B9_7F4A_7C15),
        };
        if k > 0 {
            h.rev = x(1) as u32;
            h.reserved = x(2) as u32;
            h.my = x(3);
            h.alt = x(4);
            h.first = x(5);
            h.last = x(6);
            h.guid.copy_from_slice(&[x(7).to_le_bytes(), x(8).to_le_bytes()].concat());
            h.pstart = x(9);
            h.nparts = x(10) as u32;
            h.psize = x(11) as u32;
            h.pcrc = x(12) as u32;
        } else {
            h.rev = 0;
            h.my = 0;
            h.pstart = 0;
            h.nparts = 0;
            h.psize = 0;
        }
        v.push(h);
    }
    v
}
/// reading a header with these 92 bytes (crc filled in)
fn read_hdr(c: &mut Ctx, raw: &[u8; 92], lb: LogicalBlockSize) {
    let h = RHeader::parse(raw);
    let sealed = h.sealed();
    let want = RHeader::parse(&sealed);
    let mut d = hdr_dev(&h, lbs(lb));
    d.set_pos(17);
    c.eval();
    c.seen(&sealed[..]);
    let res = match lib(|| read_header_from_arbitrary_device(&mut d, lb)) {
        Err(p) => Err(format!("panic: {p}")),
        Ok(Err(e)) => Err(format!("a valid header is refused: {}", hkind(&e))),
        Ok(Ok(g)) => want.same_as(&g),
    };
    if let Err(m) = res {
        c.violation(m, format!("header {sealed:02x?} {lb:?}"));
    }
}

fn entry_img(entries: &[[u8; 128]], lb: LogicalBlockSize) -> (Dev, Header) {
    let mut t = entries.concat();
    let n = 4usize;
    t.resize(n * 128, 0);
    let mut h = HeaderBuilder::new().backup_lba(1000).build(lb).unwrap();
    h.part_start = 3;
    h.num_parts = n as u32;
    h.crc32_parts = crc32(&t);
    let mut d = Dev::patterned(3 * lbs(lb) + 600);
    d.poke(3 * lbs(lb), &t);
    (d, h)
}
/// reading an array whose second entry is e
fn read_ent(c: &mut Ctx, e: &[u8; 128], lb: LogicalBlockSize) {
    let first = ent(1, 3, 40, 41, 2, 0);
    let last = ent(2, 4, 50, 51, 1 << 63, 2);
    let (mut d, h) = entry_img(&[first, *e, ZERO, last], lb);
    c.eval();
    c.seen(&e[..]);
    let res = (|| {
        let m = lib(|| file_read_partitions(&mut d, &h, lb)).map_err(|p| format!("panic: {p}"))?.map_err(|e| format!("refused: {e}"))?;
        for (k, w) in [(1u32, &first), (4, &last)] {
            let p = m.get(&k).ok_or(format!("entry {k} is missing"))?;
            dec_entry(w).same_as(p).map_err(|e| format!("entry {k}: {e}"))?;
        }
        if m.contains_key(&3) || m.keys().any(|k| *k > 4 || *k == 0) {
            return Err(format!("entries {:?}", m.keys()));
        }
        let w = dec_entry(e);
        match m.get(&2) {
            Some(p) => w.same_as(p),
            // an entry of the unused type says nothing
            None if !w.used() => Ok(()),
            None => Err("entry 2 is missing".into()),
        }
    })();
    if let Err(m) = res {
        c.violation(m, format!("entry {e:02x?} {lb:?}"));
    }
}
fn name_units(n: &str) -> Vec<u16> {
    let mut v = vec![];
    for ch in n.chars() {
        let mut b = [0; 2];
        let e = ch.encode_utf16(&mut b);
        if v.len() + e.len() > 36 {
            break;
        }
        v.extend_from_slice(e);
    }
    v
}
fn write_ent(c: &mut Ctx, p: &Partition, idx: u64, start: u64, lb: LogicalBlockSize, esize: u32) {
    let off = start as u128 * lbs(lb) as u128 + idx as u128 * esize as u128;
    let case = || format!("write_to_device(index {idx}, start {start}, {lb:?}, entry size {esize}) of {p:?}");
    c.begin("write_to_device");
    c.eval();
    let mut d = Dev::sparse(i64::MAX as u64, true);
        d.grow_limit = i64::MAX as u64;
    let mut want = d.clone();
    let fits = off + esize as u128 <= i64::MAX as u128;
    let r = lib(|| p.write_to_device(&mut d, idx, start, lb, esize));
    let res = (|| match r {
        Err(p) => Err(format!("panic: {p}")),
        Ok(Err(e)) => {
            if fits && esize >= 128 {
                Err(format!("refused: {e}"))
            } else if esize >= 128 && d.diff(&want).iter().any(|(a, b)| (*a as u128) < off || *b as u128 > off + esize as u128) {
                Err("refused but wrote elsewhere".into())
            } else {
                Ok(())
            }
        }
        Ok(Ok(())) => {
            if !fits {
                return Err("claims to have written beyond the device".into());
            }
            let mut e = entry(guid_bytes(&p.part_type_guid.guid), guid_bytes(&p.part_guid), p.first_lba, p.last_lba, p.flags, &name_units(&p.name)).to_vec();
            if esize < 128 {
                e.truncate(esize as usize);
            } else {
                e.resize(esize as usize, 0);
            }
            want.poke(off as u64, &e);
            let df = want.diff(&d);
            if !df.is_empty() {
                return Err(format!("device differs at {df:?} from what it should be (entry at {off})"));
            }
            c.seen((off as u64, h64(&e)));
            Ok(())
        }
    })();
    if let Err(m) = res {
        c.violation(m, case());
    }
}

pub fn c21(deep: bool) -> Report {
    let mut r = Report::new(
        "exploration",
        "every header and entry that differs from three bases in one byte (all values) or in two bits, read and written by the library and by an independent codec; positions from boundary sets. distinct_nontrivial counts distinct headers, entries and positions",
    );
    // the attribute bits with names of their own
    {
        use gpt::partition::PartitionAttributes as A;
        let mut c = Ctx::new(0);
        for (what, a, bit) in [("PLATFORM", A::PLATFORM, 0), ("EFI", A::EFI, 1), ("BOOTABLE", A::BOOTABLE, 2)] {
            c.eval();
            if a.bits() != 1 << bit {
                c.violation(format!("attribute {what} is {:#x}, UEFI has bit {bit}", a.bits()), what);
            }
        }
        r.merge(c);
    }
    // reading headers
    let bases = base_headers();
    let fields: Vec<usize> = (8..92).filter(|i| !(12..20).contains(i)).collect();
    let items: Vec<(usize, usize)> = (0..bases.len()).flat_map(|b| fields.iter().map(move |f| (b, *f))).collect();
    par(&mut r, &items, |c, (b, i)| {
        c.begin(&format!("header byte {i} of base {b}"));
        let raw = bases[*b].raw();
        for lb in LBS {
            for v in 0..=255u8 {
                let mut x = raw;
                x[*i] = v;
                read_hdr(c, &x, lb);
            }
            for bit in 0..8 {
                for j in &fields {
                    if *j < *i {
                        continue;
                    }
                    for bj in 0..8 {
                        if !deep && bj != (bit + j) % 8 {
                            continue;
                        }
                        let mut x = raw;
                        x[*i] ^= 1 << bit;
                        x[*j] ^= 1 << bj;
                        read_hdr(c, &x, lb);
                    }
                }
            }
        }
    });
    let n0 = r.evals;
    r.parts.push(("headers read".into(), n0));
    // both headers through an open: every field that does not decide where things are
    let opened: Vec<(LogicalBlockSize, usize)> = LBS.iter().flat_map(|l| fields.iter().map(move |f| (*l, *f))).collect();
    par(&mut r, &opened, |c, (lb, i)| {
        if (72..92).contains(i) {
            return;
        }
        let img = plain(*lb);
        let bs = lbs(*lb);
        for primary in [true, false] {
            for v in 0..=255u8 {
                let (p, b) = img.headers();
                let mut raw = if primary { p.raw() } else { b.raw() };
                raw[*i] = v;
                let h = RHeader::parse(&RHeader::parse(&raw).sealed());
                let mut d = img.build();
                let at = if primary { bs } else { (img.blocks - 1) * bs };
                d.poke(at, &h.raw());
                // only the backup is left
                if !primary {
                    wipe(&mut d, bs, bs);
                }
                c.eval();
                let cfg = Cfg::rw(*lb).readonly();
                let res = match lib(|| cfg.gpt().open_from_device(d)) {
                    Err(p) => Err(format!("panic: {p}")),
                    Ok(Err(e)) => Err(format!("refused: {}", ekind(&e))),
                    Ok(Ok(g)) => (|| {
                        let hd = if primary { g.primary_header() } else { g.backup_header() };
                        h.same_as(hd.map_err(|e| format!("shown as {}", hkind(&e)))?)?;
                        if guid_bytes(g.guid()) != h.guid {
                            return Err(format!("disk guid {}", g.guid()));
                        }
                        Ok(())
                    })(),
                };
                if let Err(m) = res {
                    c.violation(m, format!("{} header byte {i} = {v:#04x}, {lb:?}", if primary { "primary" } else { "backup" }));
                }
            }
        }
    });
    let n1 = r.evals;
    r.parts.push(("headers opened".into(), n1 - n0));
    // writing headers
    let mut hs: Vec<(Header, bool)> = vec![];
    let vals: Vec<u64> = (0..64).map(|b| 1u64 << b).chain([0, u64::MAX, 0x0102_0304_0506_0708, 0xF1F2_F3F4_F5F6_F7F8]).collect();
    let small = |v: u64| v & ((1 << 50) - 1);
    for primary in [true, false] {
        let base = || {
            let mut h = HeaderBuilder::new().primary(primary).disk_guid(fixed_guid(3)).backup_lba(5000).num_parts(128).build(Lb512).unwrap();
            h.part_start = if primary { 2 } else { 4000 };
            h
        };
        for v in &vals {
            for f in 0..10 {
                let mut h = base();
                match f {
                    0 => h.revision = ((*v >> 3) as u16, *v as u16),
                    1 => h.first_usable = *v,
                    2 => h.last_usable = *v,
                    3 => h.disk_guid = Uuid::from_u128((*v as u128) << 64 | 7),
                    4 => h.disk_guid = Uuid::from_u128(7 << 100 | *v as u128),
                    5 => {
                        // own location, with the other one on the right side of it
                        h.current_lba = small(*v);
                        h.backup_lba = if primary { u64::MAX } else { 0 };
                    }
                    6 => {
                        h.backup_lba = *v;
                        h.current_lba = if primary { 1 } else { (1 << 51) + 9 };
                    }
                    7 => h.part_start = small(*v) + 6000,
                    8 => h.num_parts = (*v as u32) & 0x3FFF,
                    _ => h.header_size_le = *v as u32,
                }
                hs.push((h, primary));
            }
        }
        for b in 0..128 {
            let mut h = base();
            h.disk_guid = Uuid::from_u128(1 << b);
            hs.push((h, primary));
        }
        for ps in [1u32, 127, 128, 129, 256, 4096] {
            let mut h = base();
            h.part_size = ps;
            hs.push((h, primary));
        }
    }
    par(&mut r, &hs, |c, (h, primary)| {
        for lb in LBS {
            let bs = lbs(lb);
            let side = if *primary { h.current_lba < h.backup_lba } else { h.current_lba > h.backup_lba };
            let mut d = Dev::sparse(i64::MAX as u64, true);
        d.grow_limit = i64::MAX as u64;
            let n = h.num_parts as u64 * h.part_size as u64;
            let at = h.current_lba as u128 * bs as u128;
            let start = h.part_start as u128 * bs as u128;
            let fits = at + bs as u128 <= i64::MAX as u128 && start + n as u128 <= i64::MAX as u128;
            c.begin("header write");
            c.eval();
            let mut want = d.clone();
            let mut g = h.clone();
            // left over from where it was read
            (g.crc32, g.crc32_parts) = match h.first_usable ^ h.last_usable ^ bs {
                x if x % 3 == 0 => (0, 0),
                x if x % 3 == 1 => (0x1234_ABCD, 0x5566_AA99),
                _ => (u32::MAX, 0),
            };
            let r = lib(|| if *primary { g.write_primary(&mut d, lb) } else { g.write_backup(&mut d, lb) });
            let res = (|| match r {
                Err(p) => Err(format!("panic: {p}")),
                Ok(Err(e)) => {
                    if side && fits {
                        return Err(format!("refused: {}", hkind(&e)));
                    }
                    if d.writes > 0 {
                        return Err("refused but wrote".into());
                    }
                    c.outcome("write refused");
                    Ok(())
                }
                Ok(Ok(len)) => {
                    if !side || !fits {
                        return Err("accepted".into());
                    }
                    let table = want.peek(start as u64, n as usize).unwrap();
                    let mut w = RHeader::new();
                    w.rev = (h.revision.0 as u32) << 16 | h.revision.1 as u32;
                    w.hsize = h.header_size_le;
                    w.my = h.current_lba;
                    w.alt = h.backup_lba;
                    w.first = h.first_usable;
                    w.last = h.last_usable;
                    w.guid = guid_bytes(&h.disk_guid);
                    w.pstart = h.part_start;
                    w.nparts = h.num_parts;
                    w.psize = h.part_size;
                    w.pcrc = crc32(&table);
                    let mut blk = vec![0; bs as usize];
                    blk[..92].copy_from_slice(&w.sealed());
                    want.poke(at as u64, &blk);
                    let df = want.diff(&d);
                    if !df.is_empty() {
                        return Err(format!("device differs at {df:?} from what it should be (header at {at})"));
                    }
                    if len as u64 != bs {
                        return Err(format!("reports {len} bytes"));
                    }
                    RHeader::parse(&w.sealed()).same_as(&g).map_err(|e| format!("header object after the write: {e}"))?;
                    c.seen(&blk[..92]);
                    c.outcome("write ok");
                    Ok(())
                }
            })();
            if let Err(m) = res {
                c.violation(m, format!("write_{} {lb:?} of {h:?}", if *primary { "primary" } else { "backup" }));
            }
        }
    });
    let n2 = r.evals;
    r.parts.push(("headers written".into(), n2 - n1));
    // reading entries
    let mut eb: Vec<[u8; 128]> = vec![ent(1, 2, 44, 45, 0, 2), ent(2, 9, u64::MAX / 3, u64::MAX / 5, u64::MAX, 3)];
    let mut p3 = [0u8; 128];
    for (i, x) in p3.iter_mut().enumerate() {
        *x = pattern_byte(i as u64 * 7 + 1);
    }
    eb.push(p3);
    eb.push(entry([1; 16], [0; 16], 0, 0, 0, &[]));
    eb.push(ZERO);
    let items: Vec<(usize, usize)> = (0..eb.len()).flat_map(|b| (0..128).map(move |i| (b, i))).collect();
    par(&mut r, &items, |c, (b, i)| {
        c.begin(&format!("entry byte {i} of base {b}"));
        for lb in LBS {
            for v in 0..=255u8 {
                let mut e = eb[*b];
                e[*i] = v;
                read_ent(c, &e, lb);
            }
            for bit in 0..8 {
                for j in *i..128 {
                    for bj in 0..8 {
                        if !deep && bj != (bit + j) % 8 {
                            continue;
                        }
                        let mut e = eb[*b];
                        e[*i] ^= 1 << bit;
                        e[j] ^= 1 << bj;
                        read_ent(c, &e, lb);
                    }
                }
            }
        }
    });
    // every UTF-16 unit, alone and next to a surrogate
    let units: Vec<u32> = (0..65536).collect();
    par(&mut r, &units, |c, u| {
        let u = *u as u16;
        for n in [&[u][..], &[65, u, 66], &[0xD83D, u], &[u, 0xDE00, 65], &[65, 0, u]] {
            read_ent(c, &entry([7; 16], [8; 16], 1, 2, 3, n), Lb512);
        }
        let mut full = [0x41u16; 36];
        full[35] = u;
        read_ent(c, &entry([7; 16], [8; 16], 1, 2, 3, &full), Lb512);
    });
    let n3 = r.evals;
    r.parts.push(("entries read".into(), n3 - n2));
    // writing entries: every bit of every field
    let mut ps: Vec<Partition> = vec![];
    for v in &vals {
        for f in 0..6 {
            let mut p = part(0, 4, 34, 35, 0, 0);
            match f {
                0 => p.first_lba = *v,
                1 => p.last_lba = *v,
                2 => p.flags = *v,
                3 => {
                    p.first_lba = *v;
                    p.last_lba = !*v;
                    p.flags = v.rotate_left(7);
                }
                4 => p.part_guid = Uuid::from_u128((*v as u128) << 64),
                _ => p.part_guid = Uuid::from_u128(*v as u128),
            }
            ps.push(p);
        }
    }
    for b in 0..128 {
        let mut p = part(0, 4, 34, 35, 0, 0);
        p.part_type_guid = Type::from(Uuid::from_u128(1 << b));
        p.part_guid = Uuid::from_u128(!(1 << b));
        ps.push(p);
    }
    for n in 0..9 {
        ps.push(part(1, 2, 3, 4, 5, n));
    }
    for u in (1..=0x10FFFFu32).step_by(if deep { 3 } else { 97 }).filter_map(char::from_u32) {
        let mut p = part(1, 2, 3, 4, 5, 0);
        p.name = format!("{u}a{u}");
        ps.push(p);
    }
    for k in 0..80usize {
        for tail in ["", "é", "😀", "😀😀"] {
            let mut p = part(1, 2, 3, 4, 5, 0);
            p.name = "n".repeat(k) + tail;
            ps.push(p);
        }
    }
    par(&mut r, &ps, |c, p| {
        write_ent(c, p, 3, 2, Lb512, 128);
        write_ent(c, p, 0, 9, Lb4096, 128);
        write_ent(c, p, 1, 2, Lb512, 256);
    });
    let mut at: Vec<(u64, u64)> = vec![];
    let pos = around(&[0, 5, 127, 1 << 16, 1 << 25, 1 << 31, 1 << 32, 1 << 40, 1 << 50, 1 << 52, 1 << 54, 1 << 55, 1 << 56, 1 << 57, 1 << 63], 1);
    for a in pos.iter().chain(&[u64::MAX]) {
        for b in pos.iter().chain(&[u64::MAX]) {
            at.push((*a, *b));
        }
    }
    let p0 = part(2, 6, 100, 200, 9, 2);
    par(&mut r, &at, |c, (i, s)| {
        for lb in LBS {
            for es in [128u32, 129, 256, 4096, 4097, 8192, 65536] {
                write_ent(c, &p0, *i, *s, lb, es);
            }
            for n in [0u64, 1, 3, 1000] {
                for es in [128u32, 256] {
                    let off = *s as u128 * lbs(lb) as u128 + *i as u128 * es as u128;
                    let len = n * es as u64;
                    let fits = off + len as u128 <= i64::MAX as u128;
                    let mut d = Dev::sparse(i64::MAX as u64, true);
        d.grow_limit = i64::MAX as u64;
                    let mut want = d.clone();
                    c.eval();
                    let r = lib(|| Partition::write_zero_entries_to_device(&mut d, *i, n, *s, lb, es));
                    let res = match r {
                        Err(p) => Err(format!("panic: {p}")),
                        Ok(Err(e)) if fits => Err(format!("refused: {e}")),
                        Ok(Err(_)) => Ok(()),
                        Ok(Ok(())) if !fits => Err("accepted beyond the device".into()),
                        Ok(Ok(())) => {
                            want.poke(off as u64, &vec![0; len as usize]);
                            let df = want.diff(&d);
                            if df.is_empty() {
                                Ok(())
                            } else {
                                Err(format!("device differs at {df:?}"))
                            }
                        }
                    };
                    if let Err(m) = res {
                        c.violation(m, format!("write_zero_entries_to_device(index {i}, {n} entries, start {s}, {lb:?}, entry size {es})"));
                    }
                }
            }
        }
    });
    let n4 = r.evals;
    r.parts.push(("entries written".into(), n4 - n3));
    // parse_uuid on slices of any length
    let mut c = Ctx::new(0);
    for n in 0..40usize {
        let b: Vec<u8> = (0..n).map(|i| pattern_byte(i as u64)).collect();
        c.eval();
        let mut rd = simple(&b);
        match lib(|| gpt::header::parse_uuid(&mut rd)) {
            Ok(Ok(u)) if n >= 16 && u == guid_from(&b[..16]) => {}
            Ok(Err(_)) if n < 16 => {}
            x => c.violation(format!("{x:?}"), format!("parse_uuid of {n} bytes")),
        }
    }
    r.merge(c);
    sparse_tables(&mut r);
    r.assumptions.push("header size field 92 when reading; names judged as lossy UTF-16 up to the first NUL");
    r
}
fn simple(b: &[u8]) -> simple_bytes::Bytes<'_> {
    simple_bytes::Bytes::from(b)
}

// ---------------------------------------------------------------- C23

pub fn c23(deep: bool) -> Report {
    let mut r = Report::new(
        "exploration",
        "all pairs of boundary values for first and last sector at both block sizes; all sets of up to three starts around every power of two for the alignment. distinct_nontrivial counts distinct spans and start sets",
    );
    let mut v: Vec<u128> = vec![];
    for k in 0..=64 {
        v.push(1 << k);
    }
    v.push(u64::MAX as u128 / 512);
    v.push(u64::MAX as u128 / 4096);
    v.push(u64::MAX as u128 / 3);
    let vals = around(&v, if deep { 9 } else { 4 });
    par(&mut r, &vals, |c, a| {
        c.begin(&format!("spans from {a}"));
        for b in &vals {
            let p = part(0, 1, *a, *b, 0, 0);
            c.eval();
            c.seen((a, b));
            let n = *b as i128 - *a as i128 + 1;
            let fit = |x: i128| u64::try_from(x).ok().filter(|x| *x > 0);
            let mut checks = vec![("sectors_len", lib(|| p.sectors_len()), fit(n))];
            for lb in LBS {
                let bs = lbs(lb) as i128;
                checks.push(("bytes_len", lib(|| p.bytes_len(lb)), fit(n).and_then(|_| fit(n * bs))));
                checks.push(("bytes_start", lib(|| p.bytes_start(lb)), u64::try_from(*a as i128 * bs).ok()));
            }
            for (what, got, want) in checks {
                let ok = match (&got, want) {
                    (Ok(Ok(g)), Some(w)) => *g == w,
                    (Ok(Err(_)), None) => true,
                    _ => false,
                };
                c.outcome(&format!("{what}:{}", if want.is_some() { "value" } else { "error" }));
                if !ok && what == "bytes_start" && *a > *b {
                    // the start of an inverted span: a value or an error
                    if matches!(got, Ok(Err(_))) {
                        continue;
                    }
                }
                if !ok {
                    c.violation(format!("{what} gives {got:?}, should be {want:?}"), format!("first {a} last {b}"));
                }
            }
        }
    });
    let n0 = r.evals;
    r.parts.push(("spans".into(), n0));
    // alignment
    let mut st: Vec<u64> = vec![0];
    for k in 0..=14 {
        for m in [1u64, 3, 5] {
            st.push(m << k);
        }
    }
    st.extend([34, 2048 + 1024, 4095, 4096 * 7, 1 << 40, (1 << 40) + 8, (1 << 63) + 2048, 1 << 63, u64::MAX, u64::MAX - 7, u64::MAX - 2047]);
    st.sort();
    st.dedup();
    let mut sets: Vec<Vec<(u64, bool)>> = vec![vec![]];
    for a in &st {
        sets.push(vec![(*a, true)]);
        sets.push(vec![(*a, false)]);
        for b in &st {
            sets.push(vec![(*a, true), (*b, true)]);
            sets.push(vec![(*a, true), (*b, false)]);
            sets.push(vec![(*a, false), (*b, true)]);
            if deep || (a % 3 == 0) {
                for x in &st {
                    sets.push(vec![(*a, true), (*b, true), (*x, true)]);
                    if deep {
                        sets.push(vec![(*a, true), (*b, false), (*x, true)]);
                    }
                }
            }
        }
    }
    par(&mut r, &sets, |c, s| {
        c.begin(&format!("alignment of {s:?}"));
        for lb in LBS {
            c.eval();
            let cfg = Cfg::rw(lb);
            let dev = Dev::sparse(1 << 22, false);
            let mut d = cfg.gpt().create_from_device(dev, None).unwrap();
            let mut m = BTreeMap::new();
            for (i, (a, used)) in s.iter().enumerate() {
                m.insert(i as u32 * 3 + 1, part(if *used { 0 } else { 9 }, i as u32, *a, a.saturating_add(i as u64), 0, 0));
            }
            d.update_partitions(m).unwrap();
            let want = if s.is_empty() {
                0
            } else {
                let mut w = 2048;
                while s.iter().any(|(a, u)| *u && a % w != 0) {
                    w /= 2;
                }
                w
            };
            c.seen(("align", s));
            match lib(|| d.calculate_alignment()) {
                Ok(g) if g == want => {}
                // only unused entries: a count of none is also right
                Ok(g) if g == 0 && s.iter().all(|(_, u)| !u) => {}
                x => c.violation(format!("calculate_alignment gives {x:?}, should be {want}"), format!("starts (used) {s:?} {lb:?}")),
            }
        }
    });
    let n1 = r.evals;
    r.parts.push(("alignments".into(), n1 - n0));
    // block sizes: every number up to 16 KiB and around every power of two
    let mut ns: Vec<u64> = (0..1 << 14).collect();
    ns.extend(around(&(14..=64).map(|k| 1u128 << k).collect::<Vec<_>>(), 3));
    ns.extend([512u64, 4096].iter().flat_map(|n| (32..64).map(move |k| (1 << k) | *n)));
    let mut c = Ctx::new(0);
    for n in ns {
        c.begin(&format!("block size {n}"));
        c.eval();
        c.seen(("block size", n));
        let got = lib(|| {
            LogicalBlockSize::try_from(n).ok().map(|l| {
                let as_usize: usize = l.into();
                let as_u64: u64 = l.into();
                (l, l.as_u64(), l.as_usize() as u64, as_usize as u64, as_u64, l.to_string())
            })
        });
        let want = match n {
            512 => Some((Lb512, n, n, n, n, "512".to_string())),
            4096 => Some((Lb4096, n, n, n, n, "4096".to_string())),
            _ => None,
        };
        if got != Ok(want) {
            c.violation(format!("the block size {n} gives {got:?}"), format!("{n}"));
        }
    }
    r.merge(c);
    r.parts.push(("block sizes".into(), r.evals - n1));
    r
}
