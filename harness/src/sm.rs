//! The real library as a state machine: operations, snapshots, worlds and an exhaustive
//! breadth-first explorer over operation histories.
use crate::dev::Dev;
use crate::refm::*;
use crate::rep::*;
use gpt::disk::LogicalBlockSize;
use gpt::header::{Header, HeaderError};
use gpt::partition::Partition;
use gpt::partition_types::{self as pt, Type};
use gpt::{GptConfig, GptDisk, GptError};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;
use uuid::Uuid;

pub type Parts = BTreeMap<u32, Partition>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub lb4k: bool,
    pub writable: bool,
    pub strict: bool,
    pub ro_backup: bool,
    pub grow: bool,
}
impl Cfg {
    pub fn rw(lb: LogicalBlockSize) -> Cfg {
        Cfg { lb4k: lb == LogicalBlockSize::Lb4096, writable: true, strict: false, ro_backup: false, grow: false }
    }
    pub fn growing(mut self) -> Cfg {
        self.grow = true;
        self
    }
    pub fn ro_backup(mut self) -> Cfg {
        self.ro_backup = true;
        self
    }
    pub fn strict(mut self) -> Cfg {
        self.strict = true;
        self
    }
    pub fn readonly(mut self) -> Cfg {
        self.writable = false;
        self
    }
    pub fn lb(&self) -> LogicalBlockSize {
        if self.lb4k {
            LogicalBlockSize::Lb4096
        } else {
            LogicalBlockSize::Lb512
        }
    }
    pub fn gpt(&self) -> GptConfig {
        GptConfig::new()
            .writable(self.writable)
            .logical_block_size(self.lb())
            .only_valid_headers(self.strict)
            .readonly_backup(self.ro_backup)
            .change_partition_count(self.grow)
    }
}

pub fn hkind(e: &HeaderError) -> String {
    match e {
        HeaderError::Io(e) => format!("Header:Io:{:?}", e.kind()),
        HeaderError::Overflow(_) => "Header:Overflow".into(),
        o => format!("Header:{o:?}"),
    }
}
pub fn ekind(e: &GptError) -> String {
    match e {
        GptError::Io(e) => format!("Io:{:?}", e.kind()),
        GptError::Header(h) => hkind(h),
        GptError::Overflow(_) => "Overflow".into(),
        o => format!("{o:?}"),
    }
}

pub const CUSTOM_TYPE: u128 = 0x0F1E2D3C_4B5A_4978_8695_A4B3C2D1E0F0;
pub fn ty(i: u8) -> Type {
    match i {
        0 => pt::LINUX_FS,
        1 => pt::EFI,
        2 => Type { guid: Uuid::from_u128(CUSTOM_TYPE), os: pt::OperatingSystem::None },
        // the unused type, told apart by its operating system only
        8 => Type { guid: Uuid::nil(), os: pt::OperatingSystem::Linux },
        _ => pt::UNUSED,
    }
}
pub fn nm(i: u8) -> String {
    match i {
        0 => "a".into(),
        1 => String::new(),
        2 => "naïve-日本語".into(),
        3 => "x".repeat(36),
        4 => "0123456789abcdefghijklmnopqrstuvwxyzABCD".into(),
        5 => format!("{}😀", "y".repeat(35)),
        6 => "😀".repeat(18),
        7 => format!("{}😀", "z".repeat(34)),
        9 => " \tinner  and outer blanks\u{a0}\u{3000} ".into(),
        10 => "\u{1}\r\n\u{7f}MiXed Case\u{85}".into(),
        11 => "e\u{301} \u{e9} \u{212b} \u{fb01}\u{fffd}".into(),
        _ => "\u{feff}\u{202e}mix\u{10ffff}".into(),
    }
}
pub fn fixed_guid(i: u32) -> Uuid {
    Uuid::from_u128(0x5EED_0000_1111_4222_8333_0000_0000_0000 + i as u128)
}
pub fn part(t: u8, g: u32, first: u64, last: u64, flags: u64, name: u8) -> Partition {
    Partition { part_type_guid: ty(t), part_guid: fixed_guid(g), first_lba: first, last_lba: last, flags, name: nm(name) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Preset {
    Empty,
    Same,
    ShiftUp,
    PlusUnused,
    Single5,
    Overlap,
    OutOfRange,
    Many(u32),
    High,
    DupGuid,
    Fancy,
    Gap128,
    AllUnused,
    /// unused entries with impossible ranges among used ones
    OddUnused,
    /// n used one-sector partitions numbered from 1
    Seq(u32),
    /// used numbers 1..=n except k
    SeqBut(u32, u32),
    /// like Seq, but starting 16 sectors into the usable range
    Room(u32),
    Nested,
    Inverted,
    /// 1..=n used, the following up to m of the unused type
    Padded(u32, u32),
}

/// the number of the nil GUID
pub const NIL: u32 = 77_777;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Add { size: u64, align: Option<u64>, t: u8, flags: u64, name: u8 },
    AddAt { id: u32, first: u64, len: u64, t: u8, flags: u64, name: u8 },
    Remove(u32),
    /// remove by the GUID of the k-th partition (in number order)
    RemoveGuidOf(usize),
    RemoveGuidAbsent,
    SetGuid(u32),
    NewGuid,
    Update(Preset),
    Take,
    Inspect,
    Write,
    /// write() consuming the disk, then open its device
    WriteConsume,
    /// drop the disk and open the device again with the same configuration
    Reopen,
    CloneSwap,
    /// move to a copy of the device with with_disk_device
    HandOver,
    /// replace the device with a copy of itself
    SwapSame(bool),
    /// replace the device with a longer or shorter copy of itself (length in bytes)
    Resize(u64),
}
pub fn add(size: u64, align: Option<u64>) -> Op {
    Op::Add { size, align, t: 0, flags: 0, name: 9 }
}
pub fn add_at(id: u32, first: u64, len: u64) -> Op {
    let k = id as u64 ^ first ^ len;
    Op::AddAt { id, first, len, t: (k % 3) as u8, flags: 1u64.rotate_left(id) | 1u64.rotate_right(first as u32), name: (k % 13) as u8 }
}

pub fn preset(p: Preset, cur: &Parts, h: &Header) -> Parts {
    let (f, l) = (h.first_usable, h.last_usable);
    let mut m = Parts::new();
    match p {
        Preset::Empty => {}
        Preset::Same => m = cur.clone(),
        Preset::ShiftUp => {
            for (k, v) in cur {
                m.insert(k.saturating_add(1), v.clone());
            }
        }
        Preset::PlusUnused => {
            m = cur.clone();
            let mut id = 1;
            while m.contains_key(&id) {
                id += 1;
            }
            m.insert(id, part(8, 900, f, l, 7, 0));
        }
        Preset::Single5 => {
            m.insert(5, part(0, 1, f, f, 0, 0));
        }
        Preset::Overlap => {
            m.insert(1, part(0, 1, f, f + 1, 0, 0));
            m.insert(3, part(1, 2, f + 1, f + 2, 0, 0));
            m.insert(4, part(1, 3, f + 1, f + 1, 0, 0));
        }
        Preset::Nested => {
            m.insert(1, part(0, 1, f, l, 0, 0));
            m.insert(2, part(1, 2, f + 1, f + 1, 0, 0));
        }
        Preset::Inverted => {
            m.insert(1, part(0, 1, f + 2, f, 0, 0));
        }
        Preset::OutOfRange => {
            m.insert(1, part(0, 1, 0, f, 0, 0));
            m.insert(2, part(1, 2, l, l.saturating_add(3), 0, 0));
        }
        Preset::Many(n) => {
            for i in 1..=n {
                m.insert(i, part(0, i, f, f, 0, 0));
            }
        }
        Preset::High => {
            m.insert(129, part(0, 129, f, f, 0, 0));
            m.insert(200, part(1, 200, f + 1, f + 1, 0, 0));
        }
        Preset::DupGuid => {
            m.insert(2, part(0, 7, f, f, 0, 0));
            m.insert(3, part(1, 7, f + 1, f + 1, 0, 0));
        }
        Preset::Fancy => {
            for i in 0..13u8 {
                m.insert(i as u32 + 1, part(i % 3, 50 + i as u32, f, f, 1u64 << (i * 5), i));
            }
            m.insert(20, part(2, 70, 1 << 40, (1 << 63) + 5, u64::MAX, 3));
            m.insert(21, part(2, 71, u64::MAX - 1, u64::MAX, 1 << 63, 8));
        }
        Preset::Gap128 => {
            for i in 1..=127 {
                m.insert(i, part(0, i, f, f, 0, 0));
            }
            m.insert(129, part(0, 129, f, f, 0, 0));
        }
        Preset::AllUnused => {
            m.insert(1, part(8, 900, f, f, 1, 0));
            m.insert(2, part(9, 901, 0, 0, 0, 1));
        }
        Preset::OddUnused => {
            m.insert(1, part(8, 900, f + 4, f, 1, 1));
            m.insert(2, part(0, 1, f + 1, f + 1, 0, 0));
            m.insert(3, part(9, 901, u64::MAX, 0, 0, 0));
            m.insert(4, part(8, 902, 0, u64::MAX, u64::MAX, 3));
        }
        Preset::Seq(n) => {
            for i in 1..=n {
                m.insert(i, part(0, i, f + i as u64 - 1, f + i as u64 - 1, 0, 0));
            }
        }
        Preset::Room(n) => {
            for i in 1..=n {
                m.insert(i, part((i % 3) as u8, i, f + 15 + i as u64, f + 15 + i as u64, i as u64, (i % 4) as u8));
            }
        }
        Preset::Padded(n, k) => {
            for i in 1..=n {
                m.insert(i, part((i % 3) as u8, i, f + i as u64 - 1, f + i as u64 - 1, i as u64, (i % 13) as u8));
            }
            for i in n + 1..=k {
                m.insert(i, part(if i % 2 == 0 { 8 } else { 9 }, i, f + i as u64, l, 7, 0));
            }
        }
        Preset::SeqBut(n, k) => {
            for i in 1..=n {
                if i != k {
                    m.insert(i, part(0, i, f + i as u64 - 1, f + i as u64 - 1, 0, 0));
                }
            }
        }
    }
    m
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Res {
    Id(u32),
    Opt(Option<u32>),
    Unit,
    Err(String),
    Panic(String),
}
impl Res {
    pub fn kind(&self) -> String {
        match self {
            Res::Id(_) => "ok:id".into(),
            Res::Opt(Some(_)) => "ok:some".into(),
            Res::Opt(None) => "ok:none".into(),
            Res::Unit => "ok".into(),
            Res::Err(e) => format!("err:{e}"),
            Res::Panic(_) => "panic".into(),
        }
    }
    pub fn err(&self) -> Option<&str> {
        match self {
            Res::Err(e) => Some(e),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Id(_) | Res::Opt(_) | Res::Unit)
    }
}

/// Everything a user can see of a disk object.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Snap {
    pub parts: Parts,
    pub h1: Result<Header, String>,
    pub h2: Result<Header, String>,
    pub guid: Uuid,
}
impl Snap {
    pub fn of<D>(d: &GptDisk<D>) -> Snap {
        Snap {
            parts: d.partitions().clone(),
            h1: d.primary_header().cloned().map_err(|e| hkind(&e)),
            h2: d.backup_header().cloned().map_err(|e| hkind(&e)),
            guid: *d.guid(),
        }
    }
    pub fn header(&self) -> &Header {
        self.h1.as_ref().or(self.h2.as_ref()).expect("a header")
    }
    pub fn used(&self) -> impl Iterator<Item = (&u32, &Partition)> {
        self.parts.iter().filter(|(_, p)| is_used(p))
    }
    pub fn spans(&self) -> Vec<(u64, u64)> {
        self.used().map(|(_, p)| (p.first_lba, p.last_lba)).collect()
    }
    pub fn free(&self) -> Vec<(u64, u64)> {
        let h = self.header();
        free_runs(h.first_usable, h.last_usable, &self.spans())
    }
    pub fn inverted(&self) -> bool {
        self.spans().iter().any(|(a, b)| a > b)
    }
    pub fn brief(&self) -> String {
        let ps: Vec<String> = self
            .parts
            .iter()
            .take(12)
            .map(|(k, p)| format!("{k}:[{}..={}]{}", p.first_lba, p.last_lba, if is_used(p) { "" } else { "(unused)" }))
            .collect();
        let h = self.header();
        format!(
            "usable {}..={} count {} entries {} {{{}{}}}",
            h.first_usable,
            h.last_usable,
            h.num_parts,
            self.parts.len(),
            ps.join(" "),
            if self.parts.len() > 12 { " …" } else { "" }
        )
    }
}
/// judged without the library's own is_used
pub fn is_used(p: &Partition) -> bool {
    !p.part_type_guid.guid.is_nil()
}

pub struct Run {
    pub cfg: Cfg,
    /// the writable setting now in force
    pub writable: bool,
    pub disk: Option<GptDisk<Dev>>,
}

impl Run {
    pub fn apply(&mut self, op: Op) -> Res {
        let cfg = self.cfg;
        match op {
            Op::WriteConsume | Op::Reopen | Op::HandOver => self.writable = cfg.writable,
            Op::SwapSame(w) => self.writable = w,
            Op::Resize(_) => self.writable = cfg.writable,
            _ => {}
        }
        if let Op::WriteConsume | Op::Reopen = op {
            let disk = self.disk.take().expect("live disk");
            let r = lib(move || {
                let dev = if op == Op::Reopen {
                    disk.take_device()
                } else {
                    let dev = disk.device_ref().clone();
                    match disk.write() {
                        Ok(d) => d,
                        Err(e) => {
                            // the disk is gone; carry on with what is on the device
                            return match cfg.gpt().open_from_device(dev) {
                                Ok(d) => Err((ekind(&e), Some(d))),
                                Err(_) => Err((ekind(&e), None)),
                            };
                        }
                    }
                };
                cfg.gpt().open_from_device(dev).map_err(|e| (format!("open:{}", ekind(&e)), None))
            });
            return match r {
                Ok(Ok(d)) => {
                    self.disk = Some(d);
                    Res::Unit
                }
                Ok(Err((e, d))) => {
                    self.disk = d;
                    Res::Err(e)
                }
                Err(p) => Res::Panic(p),
            };
        }
        let disk = self.disk.as_mut().expect("live disk");
        let r = lib(|| match op {
            Op::CloneSwap => {
                let c = disk.clone();
                *disk = c;
                Res::Unit
            }
            Op::HandOver => {
                let dev = disk.device_ref().clone();
                let n = disk.with_disk_device(dev, cfg.writable);
                *disk = n;
                Res::Unit
            }
            Op::SwapSame(w) => {
                let dev = disk.device_ref().clone();
                disk.update_disk_device(dev, w);
                Res::Unit
            }
            Op::Resize(n) => {
                let mut dev = disk.device_ref().clone();
                dev.resize(n, 0xC3);
                disk.update_disk_device(dev, cfg.writable);
                Res::Unit
            }
            _ => edit(disk, op),
        });
        match r {
            Ok(r) => r,
            Err(p) => Res::Panic(p),
        }
    }
    pub fn dev(&self) -> &Dev {
        self.disk.as_ref().unwrap().device_ref()
    }
}

/// the operations that need nothing of the device but what the library asks of it
pub fn edit<D: gpt::DiskDevice>(disk: &mut GptDisk<D>, op: Op) -> Res {
        let g = |r: Result<u32, GptError>| match r {
            Ok(i) => Res::Id(i),
            Err(e) => Res::Err(ekind(&e)),
        };
        let u = |r: Result<(), GptError>| match r {
            Ok(()) => Res::Unit,
            Err(e) => Res::Err(ekind(&e)),
        };
        let r = lib(|| match op {
            Op::Add { size, align, t, flags, name } => g(disk.add_partition(&nm(name), size, ty(t), flags, align)),
            Op::AddAt { id, first, len, t, flags, name } => g(disk.add_partition_at(&nm(name), id, first, len, ty(t), flags)),
            Op::Remove(id) => Res::Opt(disk.remove_partition(id)),
            Op::RemoveGuidOf(k) => {
                let gd = disk.partitions().values().nth(k).map(|p| p.part_guid).unwrap_or_else(|| fixed_guid(999_999));
                Res::Opt(disk.remove_partition_by_guid(gd))
            }
            Op::RemoveGuidAbsent => Res::Opt(disk.remove_partition_by_guid(fixed_guid(999_999))),
            Op::SetGuid(i) => {
                disk.update_guid(Some(if i == NIL { Uuid::nil() } else { fixed_guid(100_000 + i) }));
                Res::Unit
            }
            Op::NewGuid => {
                disk.update_guid(None);
                Res::Unit
            }
            Op::Update(p) => {
                let m = preset(p, disk.partitions(), disk.header());
                u(disk.update_partitions(m))
            }
            Op::Take => {
                disk.take_partitions();
                Res::Unit
            }
            Op::Inspect => {
                inspect(disk);
                Res::Unit
            }
            Op::Write => u(disk.write_inplace()),
            _ => panic!("{op:?} is not an edit"),
        });
        match r {
            Ok(r) => r,
            Err(p) => Res::Panic(p),
        }
}

/// call everything that only looks
pub fn inspect<D: gpt::DiskDevice>(disk: &GptDisk<D>) {
    let lb = *disk.logical_block_size();
    let _ = disk.primary_header().map(|h| format!("{h} {h:?}"));
    let _ = disk.backup_header().map(|h| format!("{h} {h:?}")).map_err(|e| format!("{e} {e:?}"));
    let _ = disk.header();
    let _ = disk.guid();
    let _ = disk.find_free_sectors();
    let _ = disk.find_next_partition_id();
    let _ = disk.calculate_alignment();
    for p in disk.partitions().values() {
        let _ = format!("{p} {p:?}");
        let _ = (p.bytes_len(lb), p.bytes_start(lb), p.sectors_len(), p.is_used());
    }
    let _ = disk.device_ref();
    let _ = format!("{disk:?}").len();
}

#[derive(Clone)]
pub struct World {
    pub name: String,
    pub dev: Dev,
    pub create: Option<Uuid>,
    pub cfg: Cfg,
    pub prelude: Vec<Op>,
    pub ops: Vec<Op>,
    pub depth: usize,
    /// a device that holds a valid copy must open again: judged here
    pub reopens: bool,
    /// everything that only looks is called between any two operations
    pub watched: bool,
}
impl World {
    pub fn create(name: &str, dev: Dev, cfg: Cfg, ops: Vec<Op>, depth: usize) -> World {
        World { name: name.into(), dev, create: Some(fixed_guid(424_242)), cfg, prelude: vec![], ops, depth, reopens: false, watched: false }
    }
    pub fn open(name: &str, dev: Dev, cfg: Cfg, ops: Vec<Op>, depth: usize) -> World {
        World { name: name.into(), dev, create: None, cfg, prelude: vec![], ops, depth, reopens: false, watched: false }
    }
    pub fn after(mut self, ops: &[Op]) -> World {
        self.prelude = ops.to_vec();
        self
    }
    pub fn start(&self) -> Result<Run, String> {
        let mut dev = self.dev.clone();
        dev.reset();
        let d = match self.create {
            Some(g) => lib(|| self.cfg.gpt().create_from_device(dev, Some(g))),
            None => lib(|| self.cfg.gpt().open_from_device(dev)),
        };
        let d = d.map_err(|p| format!("panic: {p}"))?.map_err(|e| ekind(&e))?;
        let mut r = Run { cfg: self.cfg, writable: self.cfg.writable, disk: Some(d) };
        for op in &self.prelude {
            let x = r.apply(*op);
            if !x.is_ok() {
                return Err(format!("prelude {op:?}: {x:?}"));
            }
        }
        Ok(r)
    }
    pub fn hist(&self, h: &[u16]) -> String {
        let ops: Vec<String> = h.iter().map(|i| format!("{:?}", self.ops[*i as usize])).collect();
        let pre = if self.prelude.is_empty() { String::new() } else { format!(" after {:?}", self.prelude) };
        let ix: Vec<String> = h.iter().map(|i| i.to_string()).collect();
        let watched = if self.watched { ", looked at after every step" } else { "" };
        format!("world {:?} ({:?}, device {} bytes{pre}{watched}) history [{}]: {}", self.name, self.cfg, self.dev.size(), ix.join(","), ops.join(" ; "))
    }
}

/// canonical state: GUIDs made by the library are random, so they are replaced by the rank of
/// their first appearance; the device is represented by what its two copies decode to (its raw
/// bytes where they do not decode)
pub fn canon(s: &Snap, dev: &Dev, cfg: Cfg, writable: bool) -> u128 {
    let mut rank: HashMap<Uuid, u32> = HashMap::new();
    let mut r = |g: &Uuid| {
        let n = rank.len() as u32;
        *rank.entry(*g).or_insert(n)
    };
    let mut v: Vec<u8> = Vec::with_capacity(512);
    let mut p = |x: u64| v.extend_from_slice(&x.to_le_bytes());
    p(r(&s.guid) as u64);
    p(writable as u64);
    let mut hd = |h: &Result<Header, String>, p: &mut dyn FnMut(u64)| match h {
        Ok(h) => {
            p(1);
            for x in [
                h.current_lba,
                h.backup_lba,
                h.first_usable,
                h.last_usable,
                h.part_start,
                h.num_parts as u64,
                h.part_size as u64,
                h.reserved as u64,
                (h.revision.0 as u64) << 16 | h.revision.1 as u64,
                (h.crc32 == 0) as u64,
            ] {
                p(x);
            }
            p(r(&h.disk_guid) as u64);
        }
        Err(e) => p(h64(e)),
    };
    hd(&s.h1, &mut p);
    hd(&s.h2, &mut p);
    for (k, q) in &s.parts {
        p(*k as u64);
        p(q.first_lba);
        p(q.last_lba);
        p(q.flags);
        p(h64(&q.name));
        p(r(&q.part_guid) as u64);
        p(h64(q.part_type_guid.guid.as_bytes()));
    }
    let bs = lbs(cfg.lb());
    p(dev.size());
    for lba in [1, last_block(dev.size(), bs)] {
        match read_copy(dev, cfg.lb(), lba) {
            Ok(c) => {
                for x in [c.h.my, c.h.alt, c.h.first, c.h.last, c.h.pstart, c.h.nparts as u64] {
                    p(x);
                }
                p(r(&guid_from(&c.h.guid)) as u64);
                for (i, e) in c.table.chunks(c.h.psize.max(1) as usize).enumerate() {
                    if e.len() >= 128 && e.iter().any(|x| *x != 0) {
                        p(i as u64);
                        p(r(&guid_from(&e[16..32])) as u64);
                        p(h64(&e[..16]));
                        p(h64(&e[32..]));
                    }
                }
            }
            Err(_) => {
                p(u64::MAX);
                if dev.is_flat() {
                    let b = dev.bytes();
                    let n = b.len().min(bs as usize * 40);
                    p(h64(if lba == 1 { &b[..n] } else { &b[b.len() - n..] }));
                } else {
                    p(dev.writes);
                }
            }
        }
    }
    let mut a = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut a);
    let x = a.finish();
    0x1234_5678u64.hash(&mut a);
    v.hash(&mut a);
    (x as u128) << 64 | a.finish() as u128
}

/// One explored transition (op == None: the initial state).
pub struct Step<'a> {
    pub world: &'a World,
    pub op: Option<Op>,
    pub res: &'a Res,
    pub pre: &'a Snap,
    pub post: &'a Snap,
    pub pre_dev: &'a Dev,
    pub post_dev: Dev,
    /// the live object after the step; the monitor may do with it what it likes
    pub disk: &'a mut GptDisk<Dev>,
    pub hist: &'a [u16],
    /// the writable setting in force when the step was taken
    pub writable: bool,
}
impl Step<'_> {
    pub fn lb(&self) -> u64 {
        lbs(self.world.cfg.lb())
    }
    /// the step was a write that reported success
    pub fn wrote(&self) -> bool {
        matches!(self.op, Some(Op::Write | Op::WriteConsume)) && *self.res == Res::Unit
    }
}

pub type Fail = (String, String);
pub fn fail<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err((String::new(), m.into()))
}

pub type Monitor<'a> = dyn Fn(&mut Ctx, &mut Step) -> Result<(), Fail> + Sync + 'a;

/// replay one history; Err = the library misbehaved on the way (already reported elsewhere)
pub fn replay(w: &World, h: &[u16]) -> Option<Run> {
    let mut r = w.start().ok()?;
    if w.watched {
        lib(|| r.disk.iter().for_each(inspect)).ok()?;
    }
    for i in h {
        if r.disk.is_none() {
            return None;
        }
        if let Res::Panic(_) = r.apply(w.ops[*i as usize]) {
            return None;
        }
        if w.watched {
            lib(|| r.disk.iter().for_each(inspect)).ok()?;
        }
    }
    r.disk.as_ref()?;
    Some(r)
}

fn one_step(c: &mut Ctx, w: &World, hist: &[u16], oi: Option<u16>, mon: &Monitor) -> Option<u128> {
    let mut full = hist.to_vec();
    full.extend(oi);
    c.begin(&w.hist(&full));
    let mut run = replay(w, hist)?;
    let pre = Snap::of(run.disk.as_ref().unwrap());
    let writable = run.writable;
    let pre_dev = run.dev().clone();
    run.disk.as_mut().unwrap().device_mut().reset();
    let op = oi.map(|i| w.ops[i as usize]);
    let res = match op {
        Some(op) => run.apply(op),
        None => Res::Unit,
    };
    c.eval();
    if let Some(op) = op {
        let d = format!("{op:?}");
        let n = d.find([' ', '(']).unwrap_or(d.len());
        c.outcome(&format!("{}:{}", &d[..n], res.kind()));
    }
    if let Res::Panic(p) = &res {
        c.violation(format!("the library panicked: {p}\nbefore: {}", pre.brief()), w.hist(&full));
        return None;
    }
    let now_writable = run.writable;
    let Some(disk) = run.disk.as_mut() else {
        // the disk could not be opened again: nothing (valid) was written to it yet, or a defect
        // that the reopen monitors of C06, C11 and C24 judge
        c.hit("histories ending in a failed reopen");
        if w.reopens {
            if let Res::Err(e) = &res {
                let lb = w.cfg.lb();
                let good = [1, last_block(pre_dev.size(), lbs(lb))].iter().filter(|x| read_copy(&pre_dev, lb, **x).is_ok()).count();
                let must = op == Some(Op::WriteConsume) && e.starts_with("open:") || good > w.cfg.strict as usize;
                if must {
                    c.violation(format!("the device can not be opened again: {e}\nbefore: {}", pre.brief()), w.hist(&full));
                }
            }
        }
        return None;
    };
    let post = Snap::of(disk);
    let post_dev = disk.device_ref().clone();
    let key = canon(&post, &post_dev, w.cfg, now_writable);
    let same = op.is_some() && post == pre && post_dev == pre_dev;
    let mut st = Step { world: w, op, res: &res, pre: &pre, post: &post, pre_dev: &pre_dev, post_dev, disk, hist: &full, writable };
    let r = lib(|| mon(c, &mut st));
    match r {
        Ok(Ok(())) => {}
        Ok(Err((k, m))) => {
            c.violation_key(&k, format!("{m}\nbefore: {}\nresult: {res:?}\nafter:  {}", pre.brief(), post.brief()), w.hist(&full));
            return None;
        }
        Err(p) => {
            c.violation(format!("panic while looking at the disk: {p}\nbefore: {}", pre.brief()), w.hist(&full));
            return None;
        }
    }
    if !same {
        c.seen((w.name.as_str(), key));
    }
    if full.len() >= w.depth.min(2) && res.is_ok() {
        c.sample(|| format!("{} -> {res:?}", w.hist(&full)));
    }
    Some(key)
}

/// Explore every history of the world up to its depth (deduplicating equal states) and call the
/// monitor on every transition. Then again without taking equal states for the same, as there
/// may be more to a disk than what it shows: every history of up to two operations (thorough:
/// three, where there are few), everything being looked at in between, and every word of one or
/// two operations repeated.
pub fn explore(rep: &mut Report, w: &World, mon: &Monitor) {
    explore_merged(rep, w, mon);
    let n = w.ops.len() as u16;
    if w.depth == 0 || n == 0 || stopped() {
        return;
    }
    let deep = deep_tier();
    let mut ww = w.clone();
    ww.watched = true;
    let fits = |d: u32| (n as u64).pow(d) < if deep { 400_000 } else { 5_000 };
    let depth = (1..=w.depth.min(3)).filter(|d| *d == 1 || fits(*d as u32)).max().unwrap();
    let mut hs: Vec<(&World, Vec<u16>)> = vec![(&ww, vec![])];
    let mut layer: Vec<Vec<u16>> = vec![vec![]];
    for _ in 0..depth {
        layer = layer.iter().flat_map(|h| (0..n).map(move |o| h.iter().copied().chain([o]).collect())).collect();
        hs.extend(layer.iter().map(|h| (&ww, h.clone())));
    }
    let lens: &[usize] = if deep { &[3, 4, 5, 6, 7, 8, 13, 14] } else { &[4, 7, 8] };
    if n <= if deep { 100 } else { 48 } {
        for a in 0..n {
            for b in 0..n {
                for l in lens {
                    hs.push((w, (0..*l).map(|i| if i % 2 == 0 { a } else { b }).collect()));
                }
            }
        }
    }
    par(rep, &hs, |c, (w, h)| {
        let (o, h) = match h.split_last() {
            Some((o, h)) => (Some(*o), h),
            None => (None, &h[..]),
        };
        one_step(c, w, h, o, mon);
    });
    rep.transitions += hs.len() as u64;
    rep.traces += hs.len() as u64;
    rep.parts.push((format!("{}: histories without merging", w.name), hs.len() as u64));
}

pub fn explore_merged(rep: &mut Report, w: &World, mon: &Monitor) {
    if stopped() {
        return;
    }
    if let Err(e) = w.start() {
        rep.viols.push(Viol { key: String::new(), msg: format!("the initial state could not be made: {e}"), case: w.hist(&[]) });
        return;
    }
    let seen: Vec<Mutex<HashSet<u128>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let mut c0 = Ctx::new(0);
    if let Some(k) = one_step(&mut c0, w, &[], None, mon) {
        seen[(k % 64) as usize].lock().unwrap().insert(k);
    }
    rep.merge(c0);
    let mut frontier: Vec<Vec<u16>> = vec![vec![]];
    let mut states = 1u64;
    let mut trans = 0u64;
    let mut depth = 0;
    let mut closed = false;
    while depth < w.depth && !frontier.is_empty() && !stopped() {
        depth += 1;
        let last = depth == w.depth;
        let items: Vec<(usize, u16)> =
            (0..frontier.len()).flat_map(|f| (0..w.ops.len() as u16).map(move |o| (f, o))).collect();
        trans += items.len() as u64;
        let next: Mutex<Vec<(usize, u16)>> = Mutex::new(vec![]);
        let fresh = std::sync::atomic::AtomicU64::new(0);
        par(rep, &items, |c, (f, o)| {
            if let Some(k) = one_step(c, w, &frontier[*f], Some(*o), mon) {
                if seen[(k % 64) as usize].lock().unwrap().insert(k) {
                    fresh.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if last {
                        return;
                    }
                    next.lock().unwrap().push((*f, *o));
                }
            }
        });
        let mut n = next.into_inner().unwrap();
        n.sort();
        closed = fresh.into_inner() == 0;
        frontier = n
            .into_iter()
            .map(|(f, o)| {
                let mut h = frontier[f].clone();
                h.push(o);
                h
            })
            .collect();
    }
    for s in &seen {
        states += s.lock().unwrap().len() as u64;
    }
    rep.states += states - 1;
    rep.transitions += trans;
    rep.traces += trans;
    rep.parts.push((format!("{} depth {}{} states", w.name, depth, if closed { " (closed)" } else { "" }), states - 1));
}

pub fn deep_tier() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}

/// a disk for all threads, also when its type can not be shared
pub struct Own(std::sync::Mutex<GptDisk<Dev>>);
impl Own {
    pub fn new(d: GptDisk<Dev>) -> Own {
        Own(std::sync::Mutex::new(d))
    }
    pub fn get(&self) -> GptDisk<Dev> {
        self.0.lock().unwrap().clone()
    }
}
