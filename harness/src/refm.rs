//! Independent reference: CRC, header and entry codec, a strict UEFI reader, an image
//! builder and the layout rules. Nothing here calls the code under test.
use crate::dev::Dev;
use gpt::disk::LogicalBlockSize;
use gpt::header::Header;
use gpt::partition::Partition;
use std::collections::BTreeMap;
use uuid::Uuid;

const fn crc_table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}
static CRC: [u32; 256] = crc_table();
pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for &x in b {
        c = CRC[((c ^ x as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

pub fn lbs(lb: LogicalBlockSize) -> u64 {
    match lb {
        LogicalBlockSize::Lb512 => 512,
        LogicalBlockSize::Lb4096 => 4096,
    }
}

fn le16(b: &[u8], o: usize) -> u16 {
    b[o] as u16 | (b[o + 1] as u16) << 8
}
fn le32(b: &[u8], o: usize) -> u32 {
    le16(b, o) as u32 | (le16(b, o + 2) as u32) << 16
}
fn le64(b: &[u8], o: usize) -> u64 {
    le32(b, o) as u64 | (le32(b, o + 4) as u64) << 32
}
fn put(b: &mut [u8], o: usize, n: usize, v: u64) {
    for i in 0..n {
        b[o + i] = (v >> (8 * i)) as u8;
    }
}

/// mixed-endian GUID form of the UEFI tables
pub fn guid_bytes(u: &Uuid) -> [u8; 16] {
    let b = u.as_bytes();
    [b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]]
}
pub fn guid_from(b: &[u8]) -> Uuid {
    Uuid::from_bytes([
        b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15],
    ])
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RHeader {
    pub sig: [u8; 8],
    pub rev: u32,
    pub hsize: u32,
    pub crc: u32,
    pub reserved: u32,
    pub my: u64,
    pub alt: u64,
    pub first: u64,
    pub last: u64,
    pub guid: [u8; 16],
    pub pstart: u64,
    pub nparts: u32,
    pub psize: u32,
    pub pcrc: u32,
}

impl RHeader {
    pub fn new() -> RHeader {
        RHeader {
            sig: *b"EFI PART",
            rev: 0x0001_0000,
            hsize: 92,
            crc: 0,
            reserved: 0,
            my: 1,
            alt: 0,
            first: 0,
            last: 0,
            guid: [0; 16],
            pstart: 2,
            nparts: 128,
            psize: 128,
            pcrc: 0,
        }
    }
    pub fn parse(b: &[u8]) -> RHeader {
        let mut sig = [0; 8];
        sig.copy_from_slice(&b[..8]);
        let mut guid = [0; 16];
        guid.copy_from_slice(&b[56..72]);
        RHeader {
            sig,
            rev: le32(b, 8),
            hsize: le32(b, 12),
            crc: le32(b, 16),
            reserved: le32(b, 20),
            my: le64(b, 24),
            alt: le64(b, 32),
            first: le64(b, 40),
            last: le64(b, 48),
            guid,
            pstart: le64(b, 72),
            nparts: le32(b, 80),
            psize: le32(b, 84),
            pcrc: le32(b, 88),
        }
    }
    /// the 92 bytes with the stored crc field
    pub fn raw(&self) -> [u8; 92] {
        let mut b = [0u8; 92];
        b[..8].copy_from_slice(&self.sig);
        put(&mut b, 8, 4, self.rev as u64);
        put(&mut b, 12, 4, self.hsize as u64);
        put(&mut b, 16, 4, self.crc as u64);
        put(&mut b, 20, 4, self.reserved as u64);
        put(&mut b, 24, 8, self.my);
        put(&mut b, 32, 8, self.alt);
        put(&mut b, 40, 8, self.first);
        put(&mut b, 48, 8, self.last);
        b[56..72].copy_from_slice(&self.guid);
        put(&mut b, 72, 8, self.pstart);
        put(&mut b, 80, 4, self.nparts as u64);
        put(&mut b, 84, 4, self.psize as u64);
        put(&mut b, 88, 4, self.pcrc as u64);
        b
    }
    /// the 92 bytes with a freshly computed crc field
    pub fn sealed(&self) -> [u8; 92] {
        let mut h = self.clone();
        h.crc = 0;
        h.crc = crc32(&h.raw());
        h.raw()
    }
    /// what the library's Header must say for this header
    pub fn same_as(&self, h: &Header) -> Result<(), String> {
        let chk = |n: &str, a: u64, b: u64| if a == b { Ok(()) } else { Err(format!("{n}: library says {b:#x}, device says {a:#x}")) };
        if h.signature.as_bytes() != self.sig {
            return Err(format!("signature: library says {:?}", h.signature));
        }
        chk("revision", self.rev as u64, (h.revision.0 as u64) << 16 | h.revision.1 as u64)?;
        chk("header size", self.hsize as u64, h.header_size_le as u64)?;
        chk("crc32", self.crc as u64, h.crc32 as u64)?;
        chk("reserved", self.reserved as u64, h.reserved as u64)?;
        chk("current_lba", self.my, h.current_lba)?;
        chk("backup_lba", self.alt, h.backup_lba)?;
        chk("first_usable", self.first, h.first_usable)?;
        chk("last_usable", self.last, h.last_usable)?;
        if guid_bytes(&h.disk_guid) != self.guid {
            return Err(format!("disk guid: library says {}", h.disk_guid));
        }
        chk("part_start", self.pstart, h.part_start)?;
        chk("num_parts", self.nparts as u64, h.num_parts as u64)?;
        chk("part_size", self.psize as u64, h.part_size as u64)?;
        chk("crc32_parts", self.pcrc as u64, h.crc32_parts as u64)
    }
}

pub const ZERO: [u8; 128] = [0; 128];

pub fn entry(typ: [u8; 16], guid: [u8; 16], first: u64, last: u64, flags: u64, name: &[u16]) -> [u8; 128] {
    let mut b = [0u8; 128];
    b[..16].copy_from_slice(&typ);
    b[16..32].copy_from_slice(&guid);
    put(&mut b, 32, 8, first);
    put(&mut b, 40, 8, last);
    put(&mut b, 48, 8, flags);
    for (i, u) in name.iter().take(36).enumerate() {
        put(&mut b, 56 + 2 * i, 2, *u as u64);
    }
    b
}
pub fn enc_entry(p: &Partition) -> [u8; 128] {
    let name: Vec<u16> = p.name.encode_utf16().collect();
    entry(guid_bytes(&p.part_type_guid.guid), guid_bytes(&p.part_guid), p.first_lba, p.last_lba, p.flags, &name)
}

/// library-independent view of one entry: (type, guid, first, last, flags, name units up to NUL)
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct REntry {
    pub typ: [u8; 16],
    pub guid: [u8; 16],
    pub first: u64,
    pub last: u64,
    pub flags: u64,
    pub name: Vec<u16>,
}
pub fn dec_entry(b: &[u8]) -> REntry {
    let mut typ = [0; 16];
    typ.copy_from_slice(&b[..16]);
    let mut guid = [0; 16];
    guid.copy_from_slice(&b[16..32]);
    let mut name = vec![];
    for i in 0..36 {
        let u = le16(b, 56 + 2 * i);
        if u == 0 {
            break;
        }
        name.push(u);
    }
    REntry { typ, guid, first: le64(b, 32), last: le64(b, 40), flags: le64(b, 48), name }
}
impl REntry {
    pub fn of(p: &Partition) -> REntry {
        dec_entry(&enc_entry(p))
    }
    /// does the library's reading of an entry agree with this one?
    pub fn same_as(&self, p: &Partition) -> Result<(), String> {
        if guid_bytes(&p.part_type_guid.guid) != self.typ {
            return Err(format!("type guid: got {}, want {}", p.part_type_guid.guid, guid_from(&self.typ)));
        }
        if guid_bytes(&p.part_guid) != self.guid {
            return Err(format!("partition guid: got {}, want {}", p.part_guid, guid_from(&self.guid)));
        }
        if p.first_lba != self.first || p.last_lba != self.last {
            return Err(format!("span: got {}..={}, want {}..={}", p.first_lba, p.last_lba, self.first, self.last));
        }
        if p.flags != self.flags {
            return Err(format!("flags: got {:#x}, want {:#x}", p.flags, self.flags));
        }
        let full = String::from_utf16_lossy(&self.name);
        if p.name != full {
            // a name cut in the middle of a surrogate pair may also lose the half pair
            let cut_pair = self.name.len() == 36
                && matches!(self.name[35], 0xD800..=0xDBFF)
                && p.name == String::from_utf16_lossy(&self.name[..35]);
            if !cut_pair {
                return Err(format!("name: got {:?}, want {:?}", p.name, full));
            }
        }
        Ok(())
    }
    pub fn used(&self) -> bool {
        self.typ != [0; 16]
    }
}

pub fn array_blocks(nparts: u64, psize: u64, lb: u64) -> u128 {
    (nparts as u128 * psize as u128).div_ceil(lb as u128)
}

#[derive(Clone, Debug)]
pub struct Copy {
    pub h: RHeader,
    pub table: Vec<u8>,
}
impl Copy {
    /// slots with any non-zero byte, 1-based
    pub fn entries(&self) -> BTreeMap<u32, REntry> {
        let mut m = BTreeMap::new();
        for (i, c) in self.table.chunks(self.h.psize as usize).enumerate() {
            if c.iter().any(|x| *x != 0) {
                m.insert(i as u32 + 1, dec_entry(c));
            }
        }
        m
    }
}

/// strict reader of one copy, straight from the UEFI rules
pub fn read_copy(d: &Dev, lb: LogicalBlockSize, hdr_lba: u64) -> Result<Copy, String> {
    let bs = lbs(lb);
    let blk = hdr_lba
        .checked_mul(bs)
        .and_then(|o| d.peek(o, bs as usize))
        .ok_or_else(|| format!("block {hdr_lba} is outside the device"))?;
    let h = RHeader::parse(&blk);
    if &h.sig != b"EFI PART" {
        return Err(format!("no GPT signature in block {hdr_lba}"));
    }
    if h.hsize != 92 {
        return Err(format!("header size {} in block {hdr_lba}", h.hsize));
    }
    if h.raw() != h.sealed() {
        return Err(format!("header checksum wrong in block {hdr_lba}"));
    }
    let n = (h.nparts as u64).checked_mul(h.psize as u64).filter(|n| *n < 1 << 28).ok_or("absurd array size")?;
    let table = h
        .pstart
        .checked_mul(bs)
        .and_then(|o| d.peek(o, n as usize))
        .ok_or_else(|| format!("array at block {} is outside the device", h.pstart))?;
    if crc32(&table) != h.pcrc {
        return Err(format!("array checksum wrong for header in block {hdr_lba}"));
    }
    Ok(Copy { h, table })
}

/// last whole block of a device
pub fn last_block(len: u64, bs: u64) -> u64 {
    (len / bs).saturating_sub(1)
}

/// All the UEFI rules a written copy must satisfy (beyond checksums).
pub fn validate_copy(d: &Dev, lb: LogicalBlockSize, c: &Copy, primary: bool) -> Result<(), String> {
    let bs = lbs(lb);
    let end = last_block(d.size(), bs);
    let h = &c.h;
    let who = if primary { "primary" } else { "backup" };
    let e = |m: String| Err(format!("{who} copy: {m}"));
    let (my, alt) = if primary { (1, end) } else { (end, 1) };
    if h.rev != 0x0001_0000 {
        return e(format!("revision {:#x}", h.rev));
    }
    if h.reserved != 0 {
        return e("reserved field not zero".into());
    }
    if h.my != my {
        return e(format!("own location {} but is in block {my}", h.my));
    }
    if h.alt != alt {
        return e(format!("other copy at {} but should be {alt}", h.alt));
    }
    if h.psize != 128 {
        return e(format!("entry size {}", h.psize));
    }
    let n = array_blocks(h.nparts as u64, h.psize as u64, bs) as u64;
    if h.first > h.last {
        return e(format!("usable range {}..={} is empty", h.first, h.last));
    }
    if primary {
        if h.pstart < 2 || h.pstart + n > h.first {
            return e(format!("array {}+{n} does not fit before first usable {}", h.pstart, h.first));
        }
        if h.last >= end {
            return e(format!("last usable {} leaves no room at the end ({end})", h.last));
        }
    } else if h.pstart <= h.last || h.pstart + n > end {
        return e(format!("array {}+{n} not between last usable {} and header {end}", h.pstart, h.last));
    }
    let blk = d.peek(my * bs, bs as usize).unwrap();
    if blk[92..].iter().any(|x| *x != 0) {
        return e("rest of the header block is not zero".into());
    }
    Ok(())
}

/// Full check of a device after a successful write.
pub fn validate_device(d: &Dev, lb: LogicalBlockSize, with_backup: bool) -> Result<(Copy, Option<Copy>), String> {
    let p = read_copy(d, lb, 1)?;
    validate_copy(d, lb, &p, true)?;
    if !with_backup {
        return Ok((p, None));
    }
    let b = read_copy(d, lb, last_block(d.size(), lbs(lb)))?;
    validate_copy(d, lb, &b, false)?;
    let (x, y) = (&p.h, &b.h);
    if x.guid != y.guid || x.first != y.first || x.last != y.last || x.nparts != y.nparts || x.psize != y.psize {
        return Err(format!("headers disagree: {x:?} / {y:?}"));
    }
    if p.table != b.table {
        return Err("the two arrays differ".into());
    }
    Ok((p, Some(b)))
}

/// A GPT image as another tool would make it.
#[derive(Clone, Debug)]
pub struct Img {
    pub lb: LogicalBlockSize,
    pub blocks: u64,
    /// bytes after the last whole block
    pub extra: u64,
    pub nparts: u32,
    pub psize: u32,
    pub guid: Uuid,
    pub first: Option<u64>,
    pub last: Option<u64>,
    pub pstart: Option<u64>,
    pub bstart: Option<u64>,
    pub entries: Vec<(u32, [u8; 128])>,
    pub sparse: bool,
    pub pattern: bool,
    /// header fields that have no meaning here, and old bytes behind the headers
    pub odd: bool,
}
impl Img {
    pub fn new(lb: LogicalBlockSize, blocks: u64) -> Img {
        Img {
            lb,
            blocks,
            extra: 0,
            nparts: 128,
            psize: 128,
            guid: Uuid::from_u128(0xA1B2C3D4_E5F6_4789_9ABC_DEF012345678),
            first: None,
            last: None,
            pstart: None,
            bstart: None,
            entries: vec![],
            sparse: false,
            pattern: true,
            odd: false,
        }
    }
    pub fn array_blocks(&self) -> u64 {
        array_blocks(self.nparts as u64, self.psize as u64, lbs(self.lb)) as u64
    }
    pub fn first_usable(&self) -> u64 {
        self.first.unwrap_or(2 + self.array_blocks())
    }
    pub fn last_usable(&self) -> u64 {
        self.last.unwrap_or(self.blocks - 2 - self.array_blocks())
    }
    pub fn headers(&self) -> (RHeader, RHeader) {
        let mut t = vec![0u8; self.nparts as usize * self.psize as usize];
        for (slot, e) in &self.entries {
            let o = (*slot as usize - 1) * self.psize as usize;
            t[o..o + 128].copy_from_slice(e);
        }
        let mut p = RHeader::new();
        p.my = 1;
        p.alt = self.blocks - 1;
        p.first = self.first_usable();
        p.last = self.last_usable();
        p.guid = guid_bytes(&self.guid);
        p.pstart = self.pstart.unwrap_or(2);
        p.nparts = self.nparts;
        p.psize = self.psize;
        p.pcrc = crc32(&t);
        if self.odd {
            (p.rev, p.reserved) = (0x0003_0007, 0xA0B0_C0D0);
        }
        let mut b = p.clone();
        b.my = p.alt;
        b.alt = 1;
        b.pstart = self.bstart.unwrap_or(self.blocks - 1 - self.array_blocks());
        (p, b)
    }
    pub fn table(&self) -> Vec<u8> {
        let mut t = vec![0u8; self.nparts as usize * self.psize as usize];
        for (slot, e) in &self.entries {
            let o = (*slot as usize - 1) * self.psize as usize;
            t[o..o + 128].copy_from_slice(e);
        }
        t
    }
    pub fn build(&self) -> Dev {
        let bs = lbs(self.lb);
        let len = self.blocks * bs + self.extra;
        let mut d = if self.sparse {
            Dev::sparse(len, self.pattern)
        } else if self.pattern {
            Dev::patterned(len)
        } else {
            Dev::zeros(len)
        };
        let (p, b) = self.headers();
        let t = self.table();
        d.poke(p.pstart * bs, &t);
        d.poke(b.pstart * bs, &t);
        let mut blk = vec![if self.odd { 0xE7 } else { 0u8 }; bs as usize];
        blk[..92].copy_from_slice(&p.sealed());
        d.poke(bs, &blk);
        blk[..92].copy_from_slice(&b.sealed());
        d.poke(b.my * bs, &blk);
        d.reset();
        d
    }
}

/// exact free space by interval sweep in 128-bit arithmetic; entries are (first, last)
pub fn free_runs(first: u64, last: u64, used: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let mut cuts: Vec<(u128, u128)> = used
        .iter()
        .filter(|(a, b)| a <= b)
        .map(|(a, b)| (*a as u128, *b as u128))
        .collect();
    cuts.sort();
    let mut out = vec![];
    let mut at = first as u128;
    for (a, b) in cuts {
        if a > last as u128 {
            break;
        }
        if a > at {
            out.push((at as u64, (a - at) as u64));
        }
        at = at.max(b + 1);
    }
    if at <= last as u128 {
        out.push((at as u64, (last as u128 - at + 1) as u64));
    }
    out
}
/// the same by asking every sector; only for small ranges
pub fn free_runs_brute(first: u64, last: u64, used: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let mut out: Vec<(u64, u64)> = vec![];
    let mut s = first;
    while s <= last {
        if !used.iter().any(|(a, b)| *a <= s && s <= *b) {
            match out.last_mut() {
                Some((st, n)) if *st + *n == s => *n += 1,
                _ => out.push((s, 1)),
            }
        }
        s += 1;
    }
    out
}
