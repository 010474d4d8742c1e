//! C11, C12, C13, C24: damaged copies, crashes and failing devices.
use super::alloc::*;
use super::write::*;
use crate::dev::{pattern_byte, Dev};
use crate::refm::*;
use crate::rep::*;
use crate::sm::*;
use gpt::disk::LogicalBlockSize::{self, Lb4096, Lb512};
use gpt::GptDisk;
use std::collections::{BTreeMap, BTreeSet};
use uuid::Uuid;

pub fn open(dev: Dev, cfg: Cfg) -> Result<GptDisk<Dev>, String> {
    match lib(|| cfg.gpt().open_from_device(dev)) {
        Err(p) => Err(format!("panic: {p}")),
        Ok(Err(e)) => Err(ekind(&e)),
        Ok(Ok(d)) => Ok(d),
    }
}
pub fn write(d: &mut GptDisk<Dev>) -> Result<(), String> {
    match lib(|| d.write_inplace()) {
        Err(p) => Err(format!("panic: {p}")),
        Ok(Err(e)) => Err(ekind(&e)),
        Ok(Ok(())) => Ok(()),
    }
}

/// a device with two good copies, what it says, and where they are (header, array) in bytes
#[derive(Clone)]
pub struct Base {
    pub name: String,
    pub dev: Dev,
    pub lb: LogicalBlockSize,
    pub guid: Uuid,
    pub entries: BTreeMap<u32, REntry>,
    /// a write without edits leaves the bytes as they are
    pub compact: bool,
    pub at: [(u64, u64, u64); 2],
}
impl Base {
    pub fn of(name: &str, dev: Dev, lb: LogicalBlockSize) -> Base {
        let bs = lbs(lb);
        let end = last_block(dev.size(), bs);
        let p = read_copy(&dev, lb, 1).expect("primary");
        let b = read_copy(&dev, lb, end).expect("backup");
        assert_eq!(p.table, b.table);
        let entries = p.entries();
        let plain_header = (p.h.rev, p.h.reserved) == (0x0001_0000, 0);
        let compact = plain_header && entries.iter().enumerate().all(|(i, (k, e))| *k == i as u32 + 1 && e.used());
        let n = p.table.len() as u64;
        let mut d = dev;
        d.reset();
        Base {
            name: name.into(),
            lb,
            guid: guid_from(&p.h.guid),
            entries,
            compact,
            at: [(bs, p.h.pstart * bs, n), (end * bs, b.h.pstart * bs, n)],
            dev: d,
        }
    }
    pub fn written(name: &str, dev: Dev, lb: LogicalBlockSize, ops: &[Op], grow: bool) -> Base {
        let mut cfg = Cfg::rw(lb);
        cfg.grow = grow;
        let mut w = World::open(name, dev, cfg, vec![], 0);
        if read_copy(&w.dev, lb, 1).is_err() {
            w.create = Some(fixed_guid(31));
        }
        let mut o = ops.to_vec();
        o.push(Op::Write);
        let r = w.after(&o).start().unwrap_or_else(|e| panic!("{name}: {e}"));
        Base::of(name, r.dev().clone(), lb)
    }
    /// the disk shows the table and disk GUID of this device
    pub fn shown(&self, d: &GptDisk<Dev>) -> Result<(), String> {
        if *d.guid() != self.guid {
            return Err(format!("disk GUID {} instead of {}", d.guid(), self.guid));
        }
        same_table(d.partitions(), &self.entries)
    }
    /// all sectors of a copy
    fn sectors(&self, i: usize) -> Vec<u64> {
        let bs = lbs(self.lb);
        let (h, a, n) = self.at[i];
        let mut v: Vec<u64> = (h / 512..(h + bs) / 512).collect();
        v.extend(a / 512..(a + n).div_ceil(512));
        v
    }
}
pub fn same_table(got: &Parts, want: &BTreeMap<u32, REntry>) -> Result<(), String> {
    for (k, w) in want {
        match got.get(k) {
            Some(p) => w.same_as(p).map_err(|e| format!("partition {k}: {e}"))?,
            None if !w.used() => {}
            None => return Err(format!("partition {k} is missing")),
        }
    }
    match got.keys().find(|k| !want.contains_key(k)) {
        Some(k) => Err(format!("partition {k} appeared")),
        None => Ok(()),
    }
}

pub fn small(np: u32) -> Img {
    let mut i = Img::new(Lb512, 3 + 2 * (np as u64).div_ceil(4) + 10);
    i.nparts = np;
    let f = i.first_usable();
    i.entries = vec![(1, ent(0, 1, f + 1, f + 3, 5, 0))];
    if np > 1 {
        i.entries.push((2, ent(1, 2, f + 5, f + 5, 1 << 63, 2)));
    }
    if np > 2 {
        i.entries.push((3, ent(2, 3, f + 7, f + 8, 0, 7)));
    }
    i
}
pub fn bases(deep: bool) -> Vec<Base> {
    let mut v = vec![
        Base::of("four entries", small(4).build(), Lb512),
        Base::written("plain 512", plain(Lb512).build(), Lb512, &[], false),
        Base::written("plain 4096", plain(Lb4096).build(), Lb4096, &[], false),
        Base::written("all names", plain(Lb512).build(), Lb512, &[Op::Update(Preset::Fancy), Op::SetGuid(4)], false),
        Base::of("foreign numbers", plain(Lb512).build(), Lb512),
        Base::of(
            "odd header fields",
            {
                let mut i = small(9);
                i.odd = true;
                i.build()
            },
            Lb512,
        ),
        Base::written("empty", dev_usable(Lb512, 3), Lb512, &[], false),
    ];
    let mut d = dev_usable(Lb512, 200);
    d.resize(d.size() + 77, 9);
    v.push(Base::written("full", d, Lb512, &[Op::Update(Preset::Room(128))], false));
    if deep {
        let mut d = dev_usable(Lb4096, 250);
        d.resize(d.size() + 4001, 9);
        v.push(Base::written("grown count 4096", d, Lb4096, &[Op::Update(Preset::Room(200))], true));
        v.push(Base::of("foreign 129", counted(129).build(), Lb512));
        v.push(Base::of("foreign 1", counted(1).build(), Lb512));
    }
    v
}

// ---------------------------------------------------------------- C11

/// one copy damaged: opening shows the table, writing restores the bytes
fn survives(b: &Base, dev: &Dev) -> Result<(), String> {
    let mut d = open(dev.clone(), Cfg::rw(b.lb)).map_err(|e| format!("opening fails with {e}"))?;
    b.shown(&d)?;
    if d.device_ref().writes > 0 {
        return Err("opening wrote to the device".into());
    }
    write(&mut d).map_err(|e| format!("the following write fails with {e}"))?;
    if b.compact {
        let x = b.dev.diff(d.device_ref());
        if !x.is_empty() || !d.device_ref().bad.is_empty() {
            return Err(format!("the following write leaves bytes {x:?} different, unreadable sectors {:?}", d.device_ref().bad));
        }
    } else {
        validate_device(d.device_ref(), b.lb, true)?;
    }
    Ok(())
}

pub fn c11(deep: bool) -> Report {
    let mut r = Report::new(
        "exploration",
        "every single bit and byte of either copy changed, every sector, pair of sectors and run of sectors lost, unreadable or replaced by other content; for both copies, every pair of single-bit errors of small tables and every pair of bursts up to 32 bits from a set of patterns. distinct_nontrivial counts distinct damaged devices",
    );
    for b in &bases(deep) {
        if stopped() {
            break;
        }
        // 1. single bytes and bits
        let n0 = r.evals;
        let mut items: Vec<(usize, u64)> = vec![];
        for (i, (h, a, n)) in b.at.iter().enumerate() {
            items.extend((*h..*h + lbs(b.lb)).map(|o| (i, o)));
            items.extend((*a..*a + *n).map(|o| (i, o)));
        }
        let every_bit = deep || b.name == "four entries";
        let (used, end0) = (b.entries.len() as u64 * 128, b.at[0].1);
        par(&mut r, &items, |c, (i, o)| {
            let (h, a, _) = b.at[*i];
            let hot = (*o >= h && *o < h + 92) || (*o >= a && *o < a + used.min(512));
            let mut pats: Vec<u8> = vec![];
            if every_bit || hot {
                pats.extend((0..8).map(|k| 1u8 << k));
            } else {
                pats.push(1 << ((*o + *o / 8) % 8));
            }
            let v = b.dev.bytes()[*o as usize];
            if every_bit || hot || o % 4 == end0 % 4 {
                pats.push(0xFF);
            }
            if every_bit || hot {
                pats.extend([v, v ^ 0xFF ^ 1]);
            }
            for p in pats.into_iter().filter(|p| *p != 0).collect::<BTreeSet<_>>() {
                c.begin(&format!("{}: byte {o} xor {p:#04x}", b.name));
                let mut d = b.dev.clone();
                d.bytes_mut()[*o as usize] ^= p;
                c.eval();
                c.seen((&b.name, o, p));
                if let Err(m) = survives(b, &d) {
                    c.violation(m, format!("table {:?}: byte {o} of the device ({} copy, header at {h}, array at {a}) xor {p:#04x}", b.name, ["primary", "backup"][*i]));
                }
            }
        });
        // 2. bursts
        let mut bursts: Vec<(usize, u64, u64)> = vec![];
        for (i, (h, a, n)) in b.at.iter().enumerate() {
            bursts.extend((0..92 * 8).map(|k| (i, h * 8 + k, (h + lbs(b.lb)) * 8)));
            let lim = (n * 8).min(if deep { 1024 * 8 } else { 128 * 8 });
            bursts.extend((0..lim).map(|k| (i, a * 8 + k, (a + n) * 8)));
        }
        par(&mut r, &bursts, |c, (i, bit, end)| {
            // what follows the copy is not part of it
            for len in [2u64, 7, 16, 31, 32].into_iter().filter(|l| bit + l <= *end) {
                for pat in [u32::MAX, 0x8000_0001, 0xA5A5_A5A5] {
                    let mut d = b.dev.clone();
                    burst(&mut d, *bit, len, pat);
                    c.begin(&format!("{}: burst at bit {bit}", b.name));
                    c.eval();
                    c.seen((&b.name, bit, len, pat));
                    if let Err(m) = survives(b, &d) {
                        c.violation(m, format!("table {:?}, {} copy: burst of {len} bits from bit {bit}, pattern {pat:#x}", b.name, ["primary", "backup"][*i]));
                    }
                }
            }
        });
        // words of one copy set to other values: every pair, and every run within the header
        let mut words: Vec<(usize, Vec<u64>)> = vec![];
        for (i, (h, a, n)) in b.at.iter().enumerate() {
            let hw: Vec<u64> = (0..23).map(|k| h + 4 * k).collect();
            for x in 0..hw.len() {
                for y in x + 1..hw.len() {
                    words.push((i, hw[x..=y].to_vec()));
                }
            }
            let mut all = hw;
            all.extend((0..12).map(|k| a + 4 * k).filter(|o| *o < a + n));
            all.extend([a + used.saturating_sub(4), a + n - 4, a + 128.min(n - 4)]);
            for x in 0..all.len() {
                for y in x..all.len() {
                    words.push((i, vec![all[x], all[y]]));
                }
            }
        }
        par(&mut r, &words, |c, (i, w)| {
            c.begin(&format!("{}: words {w:?}", b.name));
            for p1 in 0..4u8 {
                for p2 in 0..4u8 {
                    let mut d = b.dev.clone();
                    for (k, o) in w.iter().enumerate() {
                        let p = if k == 0 { p1 } else { p2 };
                        let x = &mut d.bytes_mut()[*o as usize..*o as usize + 4];
                        let v = u32::from_le_bytes(x.try_into().unwrap());
                        x.copy_from_slice(&[0, u32::MAX, !v, v.wrapping_add(1)][p as usize].to_le_bytes());
                    }
                    c.eval();
                    c.seen((&b.name, i, w, p1, p2));
                    if let Err(m) = survives(b, &d) {
                        c.violation(m, format!("table {:?}, {} copy: words at bytes {w:?} of the device set to pattern {p1}, {p2}", b.name, ["primary", "backup"][*i]));
                    }
                }
            }
        });
        // 3. lost sectors: one, two, runs; zero, ones, garbage, unreadable, or content of other sectors
        let mut lost: Vec<(usize, Vec<u64>)> = vec![];
        for i in 0..2 {
            let s = b.sectors(i);
            for x in 0..s.len() {
                for y in x..s.len() {
                    lost.push((i, s[x..=y].to_vec()));
                    if y > x + 1 {
                        lost.push((i, vec![s[x], s[y]]));
                    }
                }
            }
        }
        par(&mut r, &lost, |c, (i, s)| {
            for fill in 0..7u8 {
                let mut d = b.dev.clone();
                for k in s {
                    let o = k * 512;
                    match fill {
                        0 => d.poke(o, &[0; 512]),
                        1 => d.poke(o, &[0xFF; 512]),
                        2 => d.poke(o, &(0..512).map(|x| pattern_byte(x * 5 + o)).collect::<Vec<_>>()),
                        3 => {
                            d.bad.insert(*k);
                        }
                        // the sector of the MBR; the next sector; the other copy's first array sector
                        4 => d.poke(o, &b.dev.peek(0, 512).unwrap()),
                        5 => d.poke(o, &b.dev.peek((o + 512) % (b.dev.size() / 512 * 512), 512).unwrap()),
                        _ => d.poke(o, &b.dev.peek(b.at[1 - i].1 / 512 * 512, 512).unwrap()),
                    }
                }
                c.begin(&format!("{}: sectors {s:?} fill {fill}", b.name));
                c.eval();
                c.seen((&b.name, s, fill));
                c.outcome(["zeroed", "ones", "garbage", "unreadable", "MBR content", "neighbour content", "array content"][fill as usize]);
                if let Err(m) = survives(b, &d) {
                    c.violation(m, format!("table {:?}, {} copy: sectors {s:?} lost, fill {fill}", b.name, ["primary", "backup"][*i]));
                }
            }
        });
        // a header block overwritten by the other copy's
        let mut c = Ctx::new(0);
        for i in 0..2 {
            let mut d = b.dev.clone();
            let x = d.peek(b.at[1 - i].0, lbs(b.lb) as usize).unwrap();
            d.poke(b.at[i].0, &x);
            c.eval();
            if let Err(m) = survives(b, &d) {
                c.violation(m, format!("table {:?}: header {i} overwritten by the other one", b.name));
            }
        }
        r.merge(c);
        let n1 = r.evals;
        r.parts.push((format!("one copy of {:?} damaged", b.name), n1 - n0));
    }
    // both copies
    let mut two: Vec<Base> = vec![Base::of("one entry", small(1).build(), Lb512), Base::of("four entries", small(4).build(), Lb512)];
    two.extend(bases(deep).into_iter().skip(1).take(if deep { 4 } else { 1 }));
    for b in &two {
        if stopped() {
            break;
        }
        let n0 = r.evals;
        let tiny = b.name == "one entry";
        let bits = |i: usize| -> Vec<u64> {
            let (h, a, n) = b.at[i];
            let mut v: Vec<u64> = (0..92 * 8).map(|k| h * 8 + k).collect();
            let n = if tiny { n } else if b.name == "four entries" && deep { n.min(512) } else if deep { n.min(192) } else { n.min(64) };
            v.extend((0..n * 8).map(|k| a * 8 + k));
            v
        };
        let judge = |c: &mut Ctx, d: Dev, case: &dyn Fn() -> String| {
            c.eval();
            match open(d, Cfg::rw(b.lb)) {
                Ok(d) => {
                    c.outcome("both damaged: opened");
                    if let Err(m) = b.shown(&d) {
                        c.violation(m, case());
                    }
                }
                Err(e) if e.starts_with("panic") => c.violation(e, case()),
                Err(_) => c.outcome("both damaged: refused"),
            }
        };
        let (p, q) = (bits(0), bits(1));
        par(&mut r, &p, |c, x| {
            c.begin(&format!("{}: bit {x} and another", b.name));
            for y in &q {
                let mut d = b.dev.clone();
                burst(&mut d, *x, 1, 1);
                burst(&mut d, *y, 1, 1);
                c.seen((&b.name, x, y));
                judge(c, d, &|| format!("table {:?}: bits {x} and {y} of the device flipped", b.name));
            }
        });
        // bursts at the same and at shifted places of the two copies
        par(&mut r, &p, |c, x| {
            c.begin(&format!("{}: bursts from bit {x}", b.name));
            let k = p.iter().position(|y| y == x).unwrap();
            for dk in [0usize, 1, 8, 64, 333] {
                for (l1, p1) in [(2u64, u32::MAX), (9, 0x155), (17, 0x10001), (32, u32::MAX), (32, 0x8000_0001), (32, 0xDEAD_BEEF)] {
                    for (l2, p2) in [(1u64, 1u32), (32, u32::MAX), (32, 0xDEAD_BEEF), (24, 0x800001)] {
                        let mut d = b.dev.clone();
                        burst(&mut d, *x, l1, p1);
                        let y = q[(k + dk) % q.len()];
                        burst(&mut d, y, l2, p2);
                        c.seen((&b.name, x, y, l1, p1, l2, p2));
                        judge(c, d, &|| format!("table {:?}: burst {l1}/{p1:#x} at bit {x} and burst {l2}/{p2:#x} at bit {y}", b.name));
                    }
                }
            }
        });
        let n1 = r.evals;
        r.parts.push((format!("both copies of {:?} damaged", b.name), n1 - n0));
    }
    r
}
/// flip the pattern's bits in `len` bits from `bit` on
fn burst(d: &mut Dev, bit: u64, len: u64, pat: u32) {
    let b = d.bytes_mut();
    for k in 0..len {
        let o = bit + k;
        if pat >> (k % 32) & 1 == 1 && ((o / 8) as usize) < b.len() {
            b[(o / 8) as usize] ^= 1 << (o % 8);
        }
    }
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy, Debug, PartialEq)]
enum HS {
    Ok,
    Bit(usize),
    Signature,
    Zero,
    Garbage,
    Unreadable,
    /// two words set to zero or to ones
    Words(usize, usize, bool, bool),
    /// a checksum that is wrong in one of the ways in which checksums are wrong
    Crc(u8),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum AS {
    Ok,
    FirstByte,
    LastByte,
    Zero,
    Unreadable(bool),
    EntrySize(u32),
    CrcField,
    CountField(i32),
    Moved(u64),
    Crc(u8),
}
/// what else than the right value might be found, computed or compared
const CRCS: u8 = 12;
fn wrong(right: u32, k: u8, data: &[u8]) -> u32 {
    match k {
        0 => right.swap_bytes(),
        1 => !right,
        2 => 0,
        3 => u32::MAX,
        4 => right.reverse_bits(),
        5 => right & 0xFFFF,
        6 => right & 0xFFFF_0000,
        7 => right ^ 0x8000_0000,
        8 => crc32(&data[..data.len() - 4]),
        9 => crc32(&[data, &[0; 4]].concat()),
        10 => data.iter().fold(0u32, |a, b| a.wrapping_add(*b as u32)),
        _ => right.rotate_left(16),
    }
}
fn spoil(d: &mut Dev, lb: LogicalBlockSize, hdr: u64, h: HS, a: AS) {
    let bs = lbs(lb);
    let mut x = RHeader::parse(&d.peek(hdr, 92).unwrap());
    let (o, n) = (x.pstart * bs, x.nparts as u64 * x.psize as u64);
    match a {
        AS::Ok => {}
        AS::FirstByte => {
            let v = d.peek(o, 1).unwrap()[0];
            d.poke(o, &[v ^ 0x10]);
        }
        AS::LastByte => {
            let v = d.peek(o + n - 1, 1).unwrap()[0];
            d.poke(o + n - 1, &[v ^ 0x80]);
        }
        AS::Zero => d.poke(o, &vec![0; n as usize]),
        AS::Unreadable(first) => {
            d.bad.insert(if first { o / 512 } else { (o + n - 1) / 512 });
        }
        AS::EntrySize(s) => {
            // a valid header and checksum, but entries of another size
            x.psize = s;
            x.nparts = (n / s as u64) as u32;
            let t = d.peek(o, (x.nparts * s) as usize).unwrap();
            x.pcrc = crc32(&t);
        }
        AS::CrcField => x.pcrc ^= 1,
        AS::Crc(k) => x.pcrc = wrong(x.pcrc, k, &d.peek(o, n as usize).unwrap()),
        AS::CountField(k) => x.nparts = (x.nparts as i64 + k as i64) as u32,
        AS::Moved(l) => x.pstart = l,
    }
    let mut raw = x.sealed();
    match h {
        HS::Ok => {}
        HS::Bit(k) => raw[k / 8] ^= 1 << (k % 8),
        HS::Signature => {
            // the checksum fits, the signature does not
            x.sig = *b"EFI PARS";
            raw = x.sealed();
        }
        HS::Zero => raw = [0; 92],
        HS::Garbage => raw.iter_mut().enumerate().for_each(|(i, b)| *b ^= pattern_byte(i as u64)),
        HS::Unreadable => {
            d.bad.insert(hdr / 512);
        }
        HS::Words(a, b, x, y) => {
            raw[a * 4..a * 4 + 4].fill(if x { 0xFF } else { 0 });
            raw[b * 4..b * 4 + 4].fill(if y { 0xFF } else { 0 });
        }
        HS::Crc(k) => {
            let right = u32::from_le_bytes(raw[16..20].try_into().unwrap());
            let mut data = raw;
            data[16..20].fill(0);
            let bad = match k {
                // over the field as it is, over the whole block, the one of the array
                12 => crc32(&raw),
                13 => {
                    let mut b = d.peek(hdr, bs as usize).unwrap();
                    b[..92].copy_from_slice(&data);
                    crc32(&b)
                }
                14 => x.pcrc,
                k => wrong(right, k, &data),
            };
            raw[16..20].copy_from_slice(&bad.to_le_bytes());
        }
    }
    d.poke(hdr, &raw);
}
/// is this the reason this header is unusable for?
fn reason(h: HS, shown: &str) -> Result<(), String> {
    let (sig, crc) = ("Header:InvalidGptSignature", "Header:InvalidCRC32Checksum");
    let fits = match h {
        HS::Ok => true,
        HS::Bit(k) if k >= 64 => shown == crc,
        HS::Signature => shown == sig,
        HS::Crc(_) => shown == crc,
        HS::Words(a, b, ..) if a >= 2 && b >= 2 => shown == crc,
        HS::Bit(_) | HS::Zero | HS::Garbage | HS::Words(..) => shown == sig || shown == crc,
        HS::Unreadable => shown.starts_with("Header:Io:"),
    };
    if fits {
        Ok(())
    } else {
        Err(format!("shown as {shown}"))
    }
}

pub fn c24(deep: bool) -> Report {
    let mut r = Report::new(
        "exploration",
        "every combination of a state of each header block and each array (the two copies hold different tables) with every configuration, plus every single bit of both headers and arrays of all block numbers; the verdict comes from the states put on the device. distinct_nontrivial counts distinct combinations",
    );
    let hs = {
        let mut v = vec![HS::Ok, HS::Signature, HS::Zero, HS::Garbage, HS::Unreadable];
        for o in [0usize, 8, 12, 16, 20, 24, 32, 40, 48, 56, 72, 80, 84, 88, 91] {
            if deep || [0, 16, 24, 88].contains(&o) {
                v.push(HS::Bit(o * 8 + o % 8));
            }
        }
        v
    };
    let sc = [AS::Ok, AS::FirstByte, AS::LastByte, AS::Zero, AS::Unreadable(true), AS::Unreadable(false), AS::EntrySize(256), AS::EntrySize(64), AS::EntrySize(512), AS::CrcField, AS::CountField(-1), AS::CountField(1), AS::Moved(1 << 40), AS::Moved(u64::MAX), AS::Moved(0)];
    let mut devs: Vec<(String, Dev, LogicalBlockSize)> = vec![];
    for lb in [Lb512, Lb4096] {
        let bs = lbs(lb);
        for (extra, same) in [(0u64, false), (13, false), (0, true)] {
            let mut i = plain(lb);
            i.extra = extra;
            i.odd = extra > 0;
            let mut j = i.clone();
            if !same {
                j.guid = fixed_guid(88);
                j.entries = vec![(1, ent(1, 40, i.first_usable() + 5, i.first_usable() + 7, 3, 6)), (9, ent(0, 41, i.first_usable(), i.first_usable(), 0, 3))];
                j.last = Some(i.last_usable() - 1);
            }
            let mut d = i.build();
            let other = j.build();
            let off = j.headers().1.pstart * bs;
            d.poke(off, &other.peek(off, (d.size() - off) as usize).unwrap());
            devs.push((format!("lb {bs} extra {extra} same={same}"), d, lb));
        }
    }
    let mut items = vec![];
    for di in 0..devs.len() {
        for h1 in &hs {
            for a1 in &sc {
                for h2 in &hs {
                    items.push((di, *h1, *a1, *h2));
                }
            }
        }
    }
    let run = |c: &mut Ctx, dev: &Dev, lb: LogicalBlockSize, name: &str, h1: HS, a1: AS, h2: HS, a2: AS| {
        let bs = lbs(lb);
        let end = last_block(dev.size(), bs);
        let mut d = dev.clone();
        let c1 = read_copy(&d, lb, 1).unwrap();
        let c2 = read_copy(&d, lb, end).unwrap();
        spoil(&mut d, lb, bs, h1, a1);
        spoil(&mut d, lb, end * bs, h2, a2);
        let now = |hdr: u64| RHeader::parse(&d.peek(hdr, 92).unwrap());
        let (now1, now2) = (now(bs), now(end * bs));
        // an array one entry shorter than before may be intact by accident
        let arr = |a: AS| a == AS::Ok;
        let (h1ok, h2ok) = (h1 == HS::Ok, h2 == HS::Ok);
        for (strict, ro, writable) in [(false, false, true), (false, true, false), (true, false, true), (true, true, false)] {
            let mut cfg = Cfg::rw(lb);
            cfg.strict = strict;
            cfg.ro_backup = ro;
            cfg.writable = writable;
            let case = || format!("{name}: primary header {h1:?} array {a1:?}, backup header {h2:?} array {a2:?}, {cfg:?}");
            c.begin("open");
            c.eval();
            let must = if strict { h1ok && h2ok && arr(a1) } else { h1ok && arr(a1) || h2ok && arr(a2) };
            let res = match open(d.clone(), cfg) {
                Err(e) if e.starts_with("panic") => Err(e),
                Err(e) if must => Err(format!("refused with {e} but should open")),
                Err(_) => {
                    c.outcome(if strict { "strict: refused" } else { "default: refused" });
                    Ok(())
                }
                Ok(_) if !must => Err("opened but should be refused".into()),
                Ok(g) => (|| {
                    c.outcome(if strict { "strict: opened" } else { "default: opened" });
                    let (from, which) = if h1ok && arr(a1) { (&c1, "primary") } else { (&c2, "backup") };
                    if guid_bytes(g.guid()) != from.h.guid {
                        return Err(format!("disk GUID is not the {which} one"));
                    }
                    same_table(g.partitions(), &from.entries()).map_err(|e| format!("table is not the {which} one: {e}"))?;
                    match g.primary_header() {
                        Ok(_) if !h1ok => return Err("the broken primary header is shown as good".into()),
                        Ok(h) => now1.same_as(h).map_err(|e| format!("primary header: {e}"))?,
                        Err(e) if h1ok && arr(a1) => return Err(format!("the primary header is shown as {}", hkind(&e))),
                        Err(e) => reason(h1, &hkind(&e)).map_err(|m| format!("primary header: {m}"))?,
                    }
                    match g.backup_header() {
                        Ok(_) if !h2ok => return Err("the broken backup header is shown as good".into()),
                        Ok(h) => now2.same_as(h).map_err(|e| format!("backup header: {e}"))?,
                        Err(e) if h2ok && arr(a2) => return Err(format!("the backup header is shown as {}", hkind(&e))),
                        Err(e) => reason(h2, &hkind(&e)).map_err(|m| format!("backup header: {m}"))?,
                    }
                    if g.device_ref().writes > 0 {
                        return Err("opening wrote to the device".into());
                    }
                    if *g.logical_block_size() != lb {
                        return Err("wrong block size".into());
                    }
                    Ok(())
                })(),
            };
            if let Err(m) = res {
                c.violation(m, case());
            }
        }
    };
    par(&mut r, &items, |c, (di, h1, a1, h2)| {
        let (name, dev, lb) = &devs[*di];
        for a2 in &sc {
            c.seen((di, format!("{h1:?}{a1:?}{h2:?}{a2:?}")));
            run(c, dev, *lb, name, *h1, *a1, *h2, *a2);
        }
    });
    let n0 = r.evals;
    r.parts.push(("state combinations".into(), n0));
    // every bit of a header, alone and in both
    let bits: Vec<(usize, usize)> = (0..devs.len()).flat_map(|d| (0..92 * 8).map(move |b| (d, b))).collect();
    par(&mut r, &bits, |c, (di, b)| {
        let (name, dev, lb) = &devs[*di];
        for a2 in [AS::Ok, AS::LastByte] {
            run(c, dev, *lb, name, HS::Bit(*b), AS::Ok, HS::Ok, a2);
            run(c, dev, *lb, name, HS::Ok, a2, HS::Bit(*b), AS::Ok);
            run(c, dev, *lb, name, HS::Bit(*b), AS::Ok, HS::Bit((*b * 7 + 5) % 736), a2);
        }
    });
    // every plausible wrong checksum, in every place
    let sums: Vec<(usize, u8)> = (0..devs.len()).flat_map(|d| (0..CRCS + 3).map(move |k| (d, k))).collect();
    par(&mut r, &sums, |c, (di, k)| {
        let (name, dev, lb) = &devs[*di];
        c.seen((di, "checksum", k));
        for a2 in [AS::Ok, AS::LastByte] {
            run(c, dev, *lb, name, HS::Crc(*k), AS::Ok, HS::Ok, a2);
            run(c, dev, *lb, name, HS::Ok, a2, HS::Crc(*k), AS::Ok);
            run(c, dev, *lb, name, HS::Crc(*k), AS::Ok, HS::Crc((k + 1) % CRCS), AS::Ok);
        }
        if *k < CRCS {
            for h2 in [HS::Ok, HS::Garbage] {
                run(c, dev, *lb, name, HS::Ok, AS::Crc(*k), h2, AS::Ok);
                run(c, dev, *lb, name, h2, AS::Ok, HS::Ok, AS::Crc(*k));
                run(c, dev, *lb, name, HS::Ok, AS::Crc(*k), h2, AS::Crc((k + 5) % CRCS));
            }
        }
    });
    // every pair of words of a header
    let pairs: Vec<(usize, usize, usize)> = (0..devs.len()).flat_map(|d| (0..23).flat_map(move |a| (a..23).map(move |b| (d, a, b)))).collect();
    par(&mut r, &pairs, |c, (di, a, b)| {
        let (name, dev, lb) = &devs[*di];
        let bs = lbs(*lb);
        for (x, y) in [(false, false), (false, true), (true, false), (true, true)] {
            let h = HS::Words(*a, *b, x, y);
            let changes = |hdr: u64| {
                let mut d = dev.clone();
                spoil(&mut d, *lb, hdr, h, AS::Ok);
                d.peek(hdr, 92) != dev.peek(hdr, 92)
            };
            for a2 in [AS::Ok, AS::LastByte] {
                if changes(bs) {
                    run(c, dev, *lb, name, h, AS::Ok, HS::Ok, a2);
                    run(c, dev, *lb, name, h, AS::Ok, h, a2);
                }
                if changes(last_block(dev.size(), bs) * bs) {
                    run(c, dev, *lb, name, HS::Ok, a2, h, AS::Ok);
                }
            }
        }
    });
    let n1 = r.evals;
    r.parts.push(("header bits and words".into(), n1 - n0));
    // devices of every length around the end of either copy
    let mut lens = vec![];
    for lb in [Lb512, Lb4096] {
        let bs = lbs(lb);
        let i = plain(lb);
        let full = i.blocks * bs;
        for b in 0..=i.blocks + 2 {
            for x in [0, 1, 91, 92, 127, bs - 1] {
                lens.push((lb, b * bs + x, full));
            }
        }
    }
    par(&mut r, &lens, |c, (lb, len, full)| {
        let bs = lbs(*lb);
        let i = plain(*lb);
        let mut d = i.build();
        d.resize(*len, 0);
        let (p, _) = i.headers();
        let h1ok = *len >= bs + 92;
        let a1ok = h1ok && *len >= p.pstart * bs + 128 * 128;
        let h2ok = len / bs == full / bs;
        let at = |hdr: u64| -> bool { d.peek(hdr, 92).is_some_and(|x| RHeader::parse(&x).sealed()[..] == x[..] && x[..8] == *b"EFI PART") };
        // zero-filled growth never makes a second header; very short devices have no backup at all
        let h2ok = h2ok || (*len >= 3 * bs && at(last_block(*len, bs) * bs));
        for strict in [false, true] {
            let mut cfg = Cfg::rw(*lb);
            cfg.strict = strict;
            c.eval();
            c.seen((lb.as_u64(), len, strict));
            let must = a1ok && (!strict || h2ok) || (!strict && h2ok && *len >= *full);
            match open(d.clone(), cfg) {
                Ok(_) if must => c.outcome("length: opened"),
                Err(e) if !must && !e.starts_with("panic") => c.outcome("length: refused"),
                x => c.violation(format!("opens: {:?}, should: {must}", x.map(|_| ())), format!("table of {full} bytes on a device of {len} bytes, {cfg:?}")),
            }
        }
    });
    // one device with a table for either block size
    let mut c = Ctx::new(0);
    let n = 60u64;
    let (mut i5, mut i4) = (Img::new(Lb512, n * 8), Img::new(Lb4096, n));
    (i5.pstart, i5.bstart, i5.first, i5.last) = (Some(100), Some(420), Some(140), Some(400));
    (i4.pstart, i4.bstart, i4.first, i4.last) = (Some(5), Some(45), Some(18), Some(44));
    i5.guid = fixed_guid(512);
    i4.guid = fixed_guid(4096);
    i5.entries = vec![(1, ent(0, 5, 150, 160, 0, 0))];
    i4.entries = vec![(1, ent(1, 4, 20, 30, 0, 0)), (3, ent(1, 6, 31, 32, 0, 2))];
    let mut d = i5.build();
    let (p4, b4) = i4.headers();
    let t4 = i4.table();
    d.poke(4096, &p4.sealed());
    d.poke(b4.my * 4096, &b4.sealed());
    d.poke(p4.pstart * 4096, &t4);
    d.poke(b4.pstart * 4096, &t4);
    for spoil_what in 0..5 {
        for (lb, img) in [(Lb512, &i5), (Lb4096, &i4)] {
            for strict in [false, true] {
                let mut x = d.clone();
                let (o5, o4) = (spoil_what & 1 == 1, spoil_what & 2 == 2);
                if o5 {
                    wipe(&mut x, 512, 92);
                }
                if o4 {
                    wipe(&mut x, 4096, 92);
                }
                if spoil_what == 4 {
                    wipe(&mut x, d.size() - 512, 92);
                }
                let mut cfg = Cfg::rw(lb);
                cfg.strict = strict;
                let h1 = !(if lb == Lb512 { o5 } else { o4 });
                let h2 = !(lb == Lb512 && spoil_what == 4);
                let must = if strict { h1 && h2 } else { h1 || h2 };
                c.eval();
                let case = format!("a device with tables for 512 and 4096 byte blocks, opened with {cfg:?}, variant {spoil_what}");
                match open(x, cfg) {
                    Ok(g) if must => {
                        let want: BTreeMap<u32, REntry> = img.entries.iter().map(|(k, e)| (*k, dec_entry(e))).collect();
                        if *g.guid() != img.guid {
                            c.violation("the table of the other block size was read", case.clone());
                        }
                        if let Err(m) = same_table(g.partitions(), &want) {
                            c.violation(m, case);
                        }
                    }
                    Err(e) if !must && !e.starts_with("panic") => {}
                    x => c.violation(format!("opens: {:?}, should: {must}", x.map(|_| ())), case),
                }
            }
        }
    }
    r.merge(c);
    let n2 = r.evals;
    r.parts.push(("lengths and block sizes".into(), n2 - n1));
    sparse_tables(&mut r);
    r.assumptions.push("an intact header is one whose signature and checksum fit; a primary header whose array is unusable is not judged when it is not used");
    r
}
