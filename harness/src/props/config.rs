//! C29: settings are what was set last, each alone. Every sequence of setter calls of the
//! configuration and of the header builder up to a depth, from every way of making one.
use super::write::{damage, plain};
use crate::dev::Dev;
use crate::refm::*;
use crate::rep::*;
use crate::sm::*;
use gpt::disk::LogicalBlockSize::{self, Lb4096, Lb512};
use gpt::header::{Header, HeaderBuilder};
use gpt::GptConfig;
use uuid::Uuid;

/// what each setting is for, seen on prepared devices
struct Seen {
    /// per block size: a disk of that block size opens, showing its table
    opens: [bool; 2],
    /// a disk with one good copy opens
    lenient: bool,
    writes: bool,
    /// a write touches the end of the device
    backup: bool,
    grows: bool,
    /// what a write of a new disk leaves is a disk of this block size
    creates: Option<[bool; 2]>,
}

fn probe(g: &GptConfig, lb: LogicalBlockSize) -> Result<Seen, String> {
    let mut opens = [false; 2];
    for (i, l) in [Lb512, Lb4096].into_iter().enumerate() {
        let img = plain(l);
        let r = lib(|| g.clone().open_from_device(img.build()).ok().map(|d| d.partitions().len()))?;
        opens[i] = r == Some(img.entries.len());
    }
    let mut d = plain(lb).build();
    damage(&mut d, lb, "primary header");
    let lenient = lib(|| g.clone().open_from_device(d).is_ok())?;
    let (mut writes, mut backup, mut grows) = (false, false, false);
    let before = plain(lb).build();
    if let Some(mut d) = lib(|| g.clone().open_from_device(before.clone()).ok())? {
        lib(|| d.update_guid(Some(fixed_guid(50))))?;
        writes = lib(|| d.write_inplace().is_ok())?;
        let end = before.size() / lbs(lb) * lbs(lb) - lbs(lb);
        backup = before.diff(d.device_ref()).iter().any(|(_, b)| *b > end);
    }
    if let Some(mut d) = lib(|| g.clone().open_from_device(before.clone()).ok())? {
        let m = preset(Preset::Seq(129), d.partitions(), d.header());
        grows = lib(|| d.update_partitions(m).is_ok())?;
    }
    let mut creates = None;
    if let Some(mut d) = lib(|| g.clone().create_from_device(Dev::zeros(4096 * 60), Some(fixed_guid(51))).ok())? {
        if lib(|| d.write_inplace().is_ok())? {
            let dev = d.device_ref();
            let sig = |o: u64| dev.peek(o, 8).unwrap() == b"EFI PART";
            creates = Some([sig(512), sig(4096)]);
        }
    }
    Ok(Seen { opens, lenient, writes, backup, grows, creates })
}

fn expect(c: Cfg, s: &Seen) -> Result<(), String> {
    let own = [!c.lb4k, c.lb4k];
    if s.opens != own {
        return Err(format!("block size {}: disks of 512 and 4096 open {:?}", lbs(c.lb()), s.opens));
    }
    if s.lenient == c.strict {
        return Err(format!("only_valid_headers is {}, a disk with one good copy opens: {}", c.strict, s.lenient));
    }
    if s.writes != c.writable {
        return Err(format!("writable is {}, a write succeeds: {}", c.writable, s.writes));
    }
    if s.backup != (c.writable && !c.ro_backup) {
        return Err(format!("writable is {}, readonly_backup is {}, a write changes the backup: {}", c.writable, c.ro_backup, s.backup));
    }
    if s.grows != c.grow {
        return Err(format!("change_partition_count is {}, a table of 129 entries is accepted: {}", c.grow, s.grows));
    }
    match s.creates {
        Some(x) if x != own => Err(format!("block size {}: a new disk has headers at bytes 512 and 4096: {x:?}", lbs(c.lb()))),
        Some(_) if !c.writable => Err("a new disk is written although the configuration is not writable".into()),
        None if c.writable && !c.ro_backup => Err("a new disk can not be written".into()),
        _ => Ok(()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    Lb(bool),
    Writable(bool),
    Strict(bool),
    RoBackup(bool),
    Grow(bool),
    /// go on with a clone
    Clone,
}
const CALLS: [Call; 11] = [
    Call::Lb(false),
    Call::Lb(true),
    Call::Writable(false),
    Call::Writable(true),
    Call::Strict(false),
    Call::Strict(true),
    Call::RoBackup(false),
    Call::RoBackup(true),
    Call::Grow(false),
    Call::Grow(true),
    Call::Clone,
];
fn step(g: GptConfig, m: &mut Cfg, c: Call) -> GptConfig {
    match c {
        Call::Lb(v) => {
            m.lb4k = v;
            g.logical_block_size(if v { Lb4096 } else { Lb512 })
        }
        Call::Writable(v) => {
            m.writable = v;
            g.writable(v)
        }
        Call::Strict(v) => {
            m.strict = v;
            g.only_valid_headers(v)
        }
        Call::RoBackup(v) => {
            m.ro_backup = v;
            g.readonly_backup(v)
        }
        Call::Grow(v) => {
            m.grow = v;
            g.change_partition_count(v)
        }
        #[allow(clippy::redundant_clone)]
        Call::Clone => g.clone(),
    }
}
fn words(n: usize, depth: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..depth {
        last = last
            .into_iter()
            .flat_map(|w: Vec<usize>| {
                (0..n).map(move |k| {
                    let mut w = w.clone();
                    w.push(k);
                    w
                })
            })
            .collect();
        v.extend(last.iter().cloned());
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Set {
    Primary(bool),
    Guid(u32),
    Backup(u64),
    First(u64),
    Last(u64),
    Count(u32),
    Size(u32),
    /// build and throw the header away
    Build(LogicalBlockSize),
    Clone,
}
use Set::*;
const SETS: [Set; 19] = [
    Primary(true),
    Primary(false),
    Guid(1),
    Guid(2),
    Backup(0),
    Backup(500),
    Backup(2000),
    First(0),
    First(60),
    Last(0),
    Last(400),
    Last(1900),
    Count(0),
    Count(129),
    Count(200),
    Size(128),
    Size(256),
    Build(Lb512),
    Clone,
];
fn set(b: &mut HeaderBuilder, s: Set) {
    match s {
        Primary(v) => b.primary(v),
        Guid(v) => b.disk_guid(fixed_guid(v)),
        Backup(v) => b.backup_lba(v),
        First(v) => b.first_usable(v),
        Last(v) => b.last_usable(v),
        Count(v) => b.num_parts(v),
        Size(v) => b.part_size(v),
        Build(l) => {
            let _ = b.build(l);
            b
        }
        Clone => {
            *b = b.clone();
            b
        }
    };
}
fn field(s: Set) -> usize {
    match s {
        Primary(_) => 0,
        Guid(_) => 1,
        Backup(_) => 2,
        First(_) => 3,
        Last(_) => 4,
        Count(_) => 5,
        Size(_) => 6,
        _ => 7,
    }
}
/// the layout of a builder that holds these values, from the rules
#[derive(Clone, Copy, Debug)]
struct Model {
    primary: bool,
    guid: Option<Uuid>,
    own: u64,
    backup: u64,
    first: u64,
    last: u64,
    count: u32,
    size: u32,
}
impl Model {
    fn set(&mut self, s: Set) {
        match s {
            Primary(v) => self.primary = v,
            Guid(v) => self.guid = Some(fixed_guid(v)),
            Backup(v) => self.backup = v,
            First(v) => self.first = v,
            Last(v) => self.last = v,
            Count(v) => self.count = v.max(128),
            Size(v) => self.size = v,
            _ => {}
        }
    }
    /// the fields every built header must have, None when no usable sector remains
    fn check(&self, lb: LogicalBlockSize, h: Option<&Header>) -> Result<(), String> {
        let a = array_blocks(self.count as u64, self.size as u64, lbs(lb)) as u64;
        let lowest = 2 + a;
        let possible = self.backup > a + 1 && self.backup - a - 1 >= lowest;
        let Some(h) = h else {
            let first = self.first.max(lowest);
            return if possible && self.backup - a - 1 >= first { Err(format!("building fails for {self:?}")) } else { Ok(()) };
        };
        if !possible {
            return Err(format!("no usable sector is left, built is {h:?}"));
        }
        let (cur, alt) = if self.primary { (self.own, self.backup) } else { (self.backup, self.own) };
        let mut bad = vec![];
        if (h.current_lba, h.backup_lba) != (cur, alt) {
            bad.push(format!("places {} and {}, should be {cur} and {alt}", h.current_lba, h.backup_lba));
        }
        if h.num_parts != self.count || h.part_size != self.size {
            bad.push(format!("{} entries of {} bytes, should be {} of {}", h.num_parts, h.part_size, self.count, self.size));
        }
        if self.guid.map_or(false, |g| g != h.disk_guid) {
            bad.push(format!("disk GUID {}", h.disk_guid));
        }
        let top = self.backup - a - 1;
        let first = self.first.max(lowest);
        if h.first_usable != first {
            bad.push(format!("first usable {}, should be {first}", h.first_usable));
        }
        if self.last >= first && self.last <= top && h.last_usable != self.last {
            bad.push(format!("last usable {}, should be {}", h.last_usable, self.last));
        }
        if self.last > top && h.last_usable > top {
            bad.push(format!("last usable {} where the backup array is", h.last_usable));
        }
        if bad.is_empty() {
            Ok(())
        } else {
            Err(bad.join(", "))
        }
    }
}

pub fn c29(deep: bool) -> Report {
    let mut r = Report::new(
        "model_checking",
        "every sequence of setter calls (and clones, and for the header builder builds) up to a depth, on a configuration and on a header builder, from every way of making one; the state reached is compared with one made directly and judged by what it does. distinct_nontrivial counts distinct sequences",
    );
    // configurations
    let depth = if deep { 6 } else { 5 };
    let starts: Vec<(&str, fn() -> GptConfig)> = vec![("new", GptConfig::new), ("default", GptConfig::default)];
    let plain_cfg = Cfg { lb4k: false, writable: false, strict: false, ro_backup: false, grow: false };
    let mut items = vec![];
    for s in 0..starts.len() {
        for w in words(CALLS.len(), depth) {
            // the longest ones from one start only
            if w.len() < depth || s == 0 {
                items.push((s, w));
            }
        }
    }
    par(&mut r, &items, |c, (s, w)| {
        let calls: Vec<Call> = w.iter().map(|k| CALLS[*k]).collect();
        let case = format!("GptConfig {} then {calls:?}", starts[*s].0);
        c.begin(&case);
        c.eval();
        c.seen((s, w));
        let mut m = plain_cfg;
        let g = match lib(|| {
            let mut g = starts[*s].1();
            for k in &calls {
                g = step(g, &mut m, *k);
            }
            g
        }) {
            Ok(g) => g,
            Err(p) => return c.violation(format!("panicked: {p}"), case),
        };
        c.outcome(&format!("{m:?}"));
        if g != m.gpt() {
            return c.violation(format!("the configuration is {g:?}, set directly it is {:?}", m.gpt()), case);
        }
        for other in [true, false] {
            let x = Cfg { writable: m.writable ^ other, grow: m.grow ^ !other, ..m };
            if g == x.gpt() {
                return c.violation(format!("equal to a configuration with other settings: {x:?}"), case);
            }
        }
        // what it does; equal configurations do the same, so only after the shorter ones
        if calls.len() <= if deep { 5 } else { 4 } {
            if let Err(e) = probe(&g, m.lb()).and_then(|s| expect(m, &s)) {
                c.violation(e, case);
            }
        }
    });
    // all settings at once
    let all: Vec<u32> = (0..32).collect();
    par(&mut r, &all, |c, k| {
        let m = Cfg { lb4k: k & 1 > 0, writable: k & 2 > 0, strict: k & 4 > 0, ro_backup: k & 8 > 0, grow: k & 16 > 0 };
        c.begin(&format!("{m:?}"));
        c.eval();
        c.seen(k);
        if let Err(e) = probe(&m.gpt(), m.lb()).and_then(|s| expect(m, &s)) {
            c.violation(e, format!("{m:?}"));
        }
        for j in 0..32u32 {
            let n = Cfg { lb4k: j & 1 > 0, writable: j & 2 > 0, strict: j & 4 > 0, ro_backup: j & 8 > 0, grow: j & 16 > 0 };
            if (m.gpt() == n.gpt()) != (j == *k) {
                c.violation("configurations compare wrong", format!("{m:?} and {n:?}"));
            }
        }
    });
    r.parts.push(("configurations".into(), r.evals));
    // header builders
    let n0 = r.evals;
    let depth = if deep { 5 } else { 4 };
    let (p, q) = {
        let mut b = HeaderBuilder::new();
        b.disk_guid(fixed_guid(9)).backup_lba(1000).first_usable(70).last_usable(800).num_parts(140);
        match (b.build(Lb512), b.primary(false).build(Lb512)) {
            (Ok(p), Ok(q)) => (p, q),
            x => {
                let mut c = Ctx::new(0);
                c.violation(format!("{x:?}"), "HeaderBuilder with ordinary settings");
                r.merge(c);
                return r;
            }
        }
    };
    let fresh = Model { primary: true, guid: None, own: 1, backup: 0, first: 0, last: 0, count: 128, size: 128 };
    let from = Model { primary: true, guid: Some(fixed_guid(9)), own: 1, backup: 1000, first: 70, last: 800, count: 140, size: 128 };
    let starts: Vec<(&str, Box<dyn Fn() -> HeaderBuilder + Sync>, Model)> = vec![
        ("new", Box::new(HeaderBuilder::new), fresh),
        ("default", Box::new(HeaderBuilder::default), fresh),
        ("from_header(primary)", Box::new(move || HeaderBuilder::from_header(&p)), from),
        ("from_header(backup)", Box::new(move || HeaderBuilder::from_header(&q)), Model { primary: false, ..from }),
    ];
    let mut items = vec![];
    for s in 0..starts.len() {
        for w in words(SETS.len(), depth) {
            items.push((s, w));
        }
    }
    par(&mut r, &items, |c, (s, w)| {
        let sets: Vec<Set> = w.iter().map(|k| SETS[*k]).collect();
        let case = format!("HeaderBuilder {} then {sets:?}", starts[*s].0);
        c.begin(&case);
        // a common suffix, so that the short sequences also build something
        for (tail, suffix) in [vec![], vec![Backup(2000)], vec![Backup(90), Count(0), First(0)]].into_iter().enumerate() {
            c.eval();
            c.seen((s, w, tail));
            let mut m = starts[*s].2;
            let r = lib(|| {
                let mut b = starts[*s].1();
                for x in sets.iter().chain(&suffix) {
                    set(&mut b, *x);
                    m.set(*x);
                }
                // the last one of each field, in another order
                let mut d = starts[*s].1();
                for f in (0..7).rev() {
                    if let Some(x) = sets.iter().chain(&suffix).rev().find(|x| field(**x) == f) {
                        set(&mut d, *x);
                    }
                }
                let x = [b.build(Lb512).ok(), b.build(Lb4096).ok(), b.clone().build(Lb512).ok()];
                let y = [d.build(Lb512).ok(), d.build(Lb4096).ok()];
                (x, y)
            });
            let (x, mut y) = match r {
                Ok(v) => v,
                Err(p) => return c.violation(format!("panicked: {p}"), case),
            };
            c.outcome(&format!("builds: {:?}", x.iter().map(Option::is_some).collect::<Vec<_>>()));
            let case = format!("{case} {suffix:?}");
            if x[2] != x[0] {
                return c.violation(format!("a clone of the builder gives {:?}, the builder {:?}", x[2], x[0]), case);
            }
            if m.guid.is_none() {
                // drawn once per builder
                let g: Vec<Uuid> = x.iter().flatten().map(|h| h.disk_guid).collect();
                if g.iter().any(|u| *u != g[0] || *u == Uuid::nil()) {
                    return c.violation(format!("one builder gives the disk GUIDs {g:?}"), case);
                }
                for h in y.iter_mut().flatten() {
                    if Some(&h.disk_guid) == g.first() {
                        return c.violation("two builders give the same disk GUID", case);
                    }
                    h.disk_guid = g.first().copied().unwrap_or_default();
                }
            }
            for (k, lb) in [Lb512, Lb4096].into_iter().enumerate() {
                if x[k] != y[k] {
                    return c.violation(format!("built for blocks of {} is {:?}, after setting the same values directly {:?}", lbs(lb), x[k], y[k]), case);
                }
                if let Err(e) = m.check(lb, x[k].as_ref()) {
                    return c.violation(format!("blocks of {}: {e}", lbs(lb)), case);
                }
            }
        }
    });
    r.parts.push(("header builders".into(), r.evals - n0));
    r.states = r.evals;
    r.transitions = r.evals;
    r.traces = r.evals;
    r
}
