//! C13: failing, short and interrupted device operations at every point of every workflow.
use super::fault::*;
use super::write::*;
use crate::dev::{Dev, Fault, FaultKind, OpKind};
use crate::refm::*;
use crate::rep::*;
use crate::sm::*;
use gpt::disk::LogicalBlockSize::{self, Lb4096, Lb512};
use gpt::header::{read_header_from_arbitrary_device, Header};
use gpt::mbr::{self, ProtectiveMBR};
use gpt::partition::{file_read_partitions, Partition};
use gpt::GptDisk;
use std::io::ErrorKind;

pub const KINDS: [FaultKind; 8] = [
    FaultKind::Fail(ErrorKind::Other),
    FaultKind::Fail(ErrorKind::UnexpectedEof),
    FaultKind::Fail(ErrorKind::Interrupted),
    FaultKind::Fail(ErrorKind::WouldBlock),
    FaultKind::Short(1),
    FaultKind::Short(77),
    FaultKind::Nothing,
    FaultKind::TornFail,
];
/// for the second fault of a pair, at least
const SECOND: [FaultKind; 4] = [FaultKind::Fail(ErrorKind::Other), FaultKind::Short(1), FaultKind::Nothing, FaultKind::TornFail];
const HARD: [FaultKind; 3] = [FaultKind::Fail(ErrorKind::Other), FaultKind::Nothing, FaultKind::TornFail];

/// this fault may not change any result
fn benign(op: OpKind, k: FaultKind) -> bool {
    let transfer = matches!(op, OpKind::Read | OpKind::Write);
    match k {
        FaultKind::Fail(ErrorKind::Interrupted) => transfer,
        FaultKind::Fail(_) | FaultKind::Told(_) | FaultKind::TornFail => false,
        FaultKind::Short(_) => true,
        FaultKind::Nothing => !transfer,
    }
}
fn arm(d: &mut Dev, f: &[Fault]) {
    let pos = d.pos();
    d.reset();
    d.set_pos(pos);
    d.faults = f.to_vec();
    d.kinds = Some(vec![]);
}
fn one(at: u64, kind: FaultKind) -> Fault {
    Fault { at, onwards: false, kind }
}

/// what happened: device operations by kind, and whether every fault that hit was benign
struct Seen {
    kinds: Vec<OpKind>,
    harmless: bool,
}
fn seen(d: &Dev, f: &[Fault]) -> Seen {
    let kinds = d.kinds.clone().unwrap_or_default();
    let harmless = kinds.iter().enumerate().all(|(i, k)| {
        let i = i as u64;
        match f.iter().find(|f| f.at == i || f.onwards && i > f.at) {
            Some(f) => benign(*k, f.kind),
            None => true,
        }
    });
    Seen { kinds, harmless }
}

/// run a workflow under every single fault, every fault from one point on, and every pair
fn sweep(c: &mut Ctx, name: &str, pairs: bool, triples: bool, run: &mut dyn FnMut(&mut Ctx, &[Fault]) -> Result<Seen, String>) {
    let mut go = |c: &mut Ctx, f: &[Fault]| -> Vec<OpKind> {
        c.eval();
        match run(c, f) {
            Ok(s) => s.kinds,
            Err(m) => {
                c.violation(m, format!("{name}: faults {f:?}"));
                vec![]
            }
        }
    };
    c.begin(name);
    let n0 = go(c, &[]).len() as u64;
    for i in 0..n0 {
        for k in KINDS {
            if stopped() {
                return;
            }
            c.seen((name, i, format!("{k:?}")));
            let kinds = go(c, &[one(i, k)]);
            // a device that is interrupted for ever never ends
            if k != FaultKind::Fail(ErrorKind::Interrupted) {
                go(c, &[Fault { at: i, onwards: true, kind: k }]);
            }
            if !pairs {
                continue;
            }
            c.begin(&format!("{name}: fault {k:?} at {i} and another"));
            for j in i + 1..kinds.len() as u64 {
                for k2 in if triples { &KINDS[..] } else { &SECOND[..] } {
                    let k2 = *k2;
                    c.seen((name, i, j, format!("{k:?}{k2:?}")));
                    let kk = go(c, &[one(i, k), one(j, k2)]);
                    if !triples || !HARD.contains(&k) || !HARD.contains(&k2) {
                        continue;
                    }
                    for l in j + 1..kk.len() as u64 {
                        for k3 in HARD {
                            go(c, &[one(i, k), one(j, k2), one(l, k3)]);
                        }
                    }
                }
            }
        }
    }
}

/// devices to open: both copies good, good but different, one of them damaged
pub fn images(deep: bool) -> Vec<(String, Dev, LogicalBlockSize, bool)> {
    let mut v = vec![];
    let mut add = |name: &str, i: &Img, small: bool| {
        let bs = lbs(i.lb);
        let d = i.build();
        let mut j = i.clone();
        j.guid = fixed_guid(88);
        j.entries = vec![(1, ent(1, 40, i.first_usable(), i.first_usable() + 1, 3, 6))];
        let mut x = i.build();
        let off = j.headers().1.pstart * bs;
        x.poke(off, &j.build().peek(off, (d.size() - off) as usize).unwrap());
        for w in ["", "primary header", "primary array", "backup header", "backup array"] {
            let mut y = x.clone();
            if !w.is_empty() {
                damage(&mut y, i.lb, w);
            }
            v.push((format!("{name}, copies differ, damaged: {w:?}"), y, i.lb, small));
        }
        v.push((name.into(), d, i.lb, small));
    };
    add("two entries", &small(2), true);
    add("four entries", &small(4), true);
    add("plain", &plain(Lb512), false);
    if deep {
        add("plain 4096", &plain(Lb4096), false);
        add("129", &counted(129), false);
    }
    v
}

fn opening(c: &mut Ctx, name: &str, dev: &Dev, cfg: Cfg, pairs: bool, triples: bool) {
    let lb = cfg.lb();
    let bs = lbs(lb);
    let end = last_block(dev.size(), bs);
    let hdr = |l: u64| dev.peek(l * bs, 92).map(|x| RHeader::parse(&x));
    let (r1, r2) = (hdr(1), hdr(end));
    let (c1, c2) = (read_copy(dev, lb, 1).ok(), read_copy(dev, lb, end).ok());
    let clean = {
        let mut d = dev.clone();
        let r = lib(|| cfg.gpt().open_from_device(&mut d).map(|d| Snap::of(&d)).map_err(|e| ekind(&e)));
        r
    };
    let mut d = dev.clone();
    // where the device is left by its last user: nowhere near, and right at either header,
    // which is what a reader sees that does not notice that it could not seek
    let pairs_at = dev.size() < 1 << 20;
    for pos in [777, 0, bs, end * bs] {
        sweep(c, &format!("opening {name} at {pos} with {cfg:?}"), pairs && (pos == 777 || pairs_at), triples && pos == 777, &mut |c, f| {
            arm(&mut d, f);
            d.set_pos(pos);
            let got = lib(|| cfg.gpt().open_from_device(&mut d).map(|g| Snap::of(&g)).map_err(|e| ekind(&e)));
            let s = seen(&d, f);
            if d.writes > 0 {
                return Err("opening wrote to the device".into());
            }
            if s.harmless && got != clean {
                return Err(format!("gives {:?} instead of {:?}", got.map(|r| r.map(|s| s.brief())), clean.as_ref().map(|r| r.as_ref().map(|s| s.brief()))));
            }
            match got {
                Err(p) => return Err(format!("panicked: {p}")),
                Ok(Err(_)) => c.outcome("open: error"),
                Ok(Ok(g)) => {
                    c.outcome(if s.harmless { "open: same" } else { "open: other copy or same" });
                    if cfg.strict && (g.h1.is_err() || g.h2.is_err() || c1.is_none()) {
                        return Err("a strict open succeeded without both headers".into());
                    }
                    let (copy, r) = if g.h1.is_ok() { (&c1, "primary") } else { (&c2, "backup") };
                    let Some(copy) = copy else { return Err(format!("opened from the {r} copy, which is broken")) };
                    if guid_bytes(&g.guid) != copy.h.guid {
                        return Err(format!("disk GUID is not the one of the {r} copy"));
                    }
                    same_table(&g.parts, &copy.entries()).map_err(|e| format!("table is not the one of the {r} copy: {e}"))?;
                    if let (Ok(h), Some(w)) = (&g.h1, &r1) {
                        w.same_as(h).map_err(|e| format!("primary header: {e}"))?;
                    }
                    if let (Ok(h), Some(w)) = (&g.h2, &r2) {
                        w.same_as(h).map_err(|e| format!("backup header: {e}"))?;
                    }
                }
            }
            Ok(s)
        });
    }
}

fn creating(c: &mut Ctx, dev: &Dev, cfg: Cfg, pairs: bool) {
    let run = |d: &mut Dev| lib(|| cfg.gpt().create_from_device(d, Some(fixed_guid(3))).map(|g| Snap::of(&g)).map_err(|e| ekind(&e)));
    let clean = run(&mut dev.clone());
    let mut d = dev.clone();
    sweep(c, &format!("creating on {} bytes with {cfg:?}", dev.size()), pairs, false, &mut |c, f| {
        arm(&mut d, f);
        let got = run(&mut d);
        let s = seen(&d, f);
        if d.writes > 0 {
            return Err("creating wrote to the device".into());
        }
        match &got {
            Err(p) => return Err(format!("panicked: {p}")),
            Ok(Err(_)) if !s.harmless => c.outcome("create: error"),
            _ if got == clean => c.outcome("create: same"),
            _ => return Err("creating gives another result".into()),
        }
        Ok(s)
    });
}

/// what an edit did, without the random GUID of a new entry
fn shape(s: &Snap, known: &Parts) -> Snap {
    let mut s = s.clone();
    for (k, p) in s.parts.iter_mut() {
        if !known.get(k).is_some_and(|q| q.part_guid == p.part_guid) {
            p.part_guid = fixed_guid(1);
        }
    }
    s
}
fn editing(c: &mut Ctx, name: &str, disk: &GptDisk<Dev>, cfg: Cfg, op: Op, pairs: bool) {
    let pre = Snap::of(disk);
    let apply = |d: GptDisk<Dev>| {
        let mut r = Run { cfg, writable: true, disk: Some(d) };
        let x = r.apply(op);
        (x, r.disk.unwrap())
    };
    let (clean, after) = apply(disk.clone());
    let want = shape(&Snap::of(&after), &pre.parts);
    sweep(c, &format!("{op:?} on {name} with {cfg:?}"), pairs, false, &mut |c, f| {
        let mut d = disk.clone();
        arm(d.device_mut(), f);
        let (res, d) = apply(d);
        let s = seen(d.device_ref(), f);
        let post = Snap::of(&d);
        if d.device_ref().writes > 0 {
            return Err("an edit wrote to the device".into());
        }
        match &res {
            Res::Panic(p) => return Err(format!("panicked: {p}")),
            r if *r == clean && shape(&post, &pre.parts) == want => c.outcome("edit: same"),
            Res::Err(e) if !s.harmless => {
                c.outcome(&format!("edit: error {e}"));
                if post != pre {
                    return Err(format!("the edit fails with {e} but changed the disk: {}", post.brief()));
                }
            }
            r => return Err(format!("the edit gives {r:?} instead of {clean:?}; disk {}", post.brief())),
        }
        Ok(s)
    });
}

fn writing(c: &mut Ctx, name: &str, disk: &GptDisk<Dev>, cfg: Cfg, second: Option<FaultKind>, pairs: bool, triples: bool) {
    let tiny = disk.device_ref().size() < 10_000;
    let mut good = disk.clone();
    let Ok(()) = write(&mut good) else { return };
    let (want, hd) = (good.device_ref().clone(), Snap::of(&good));
    let pre = Snap::of(disk);
    // the second attempt is disturbed as well
    {
        let full = pairs && second.is_none();
        sweep(c, &format!("writing {name} with {cfg:?}, second attempt {second:?}"), full, full && triples, &mut |c, f| {
            let mut d = disk.clone();
            arm(d.device_mut(), f);
            let r = write(&mut d);
            let s = seen(d.device_ref(), f);
            let mut attempt = 1;
            let check = |r: Result<(), String>, d: &GptDisk<Dev>, attempt: u32, harmless: bool| -> Result<bool, String> {
                let post = Snap::of(d);
                match r {
                    Ok(()) => {
                        if *d.device_ref() != want {
                            return Err(format!("attempt {attempt} succeeds but leaves bytes {:?} different", want.diff(d.device_ref())));
                        }
                        if d.device_ref().dirty {
                            return Err(format!("attempt {attempt} succeeds without a flush after the last write"));
                        }
                        if post != hd {
                            return Err(format!("attempt {attempt} succeeds with another disk in memory: {}", post.brief()));
                        }
                        Ok(true)
                    }
                    Err(e) if e.starts_with("panic") => Err(e),
                    Err(e) if harmless => Err(format!("attempt {attempt} fails with {e}")),
                    Err(e) => {
                        if post.parts != pre.parts || post.guid != pre.guid {
                            return Err(format!("attempt {attempt} fails with {e} but changed the table or GUID in memory"));
                        }
                        Ok(false)
                    }
                }
            };
            let mut done = check(r, &d, attempt, s.harmless)?;
            c.outcome(if done { "write: success" } else { "write: error" });
            if !done {
                if let Some(k) = second {
                    // from the middle of what is left to the end, one operation at a time
                    for at in if tiny { &[0u64, 3, 11, 20, 31, 43, 58, 76][..] } else { &[20u64, 76, 200] } {
                        let at = *at;
                        let mut x = d.clone();
                        let fs = [one(at, k)];
                        arm(x.device_mut(), &fs);
                        let r = write(&mut x);
                        let harmless = seen(x.device_ref(), &fs).harmless;
                        if !check(r, &x, 2, harmless)? {
                            arm(x.device_mut(), &[]);
                            let r = write(&mut x);
                            check(r, &x, 3, true)?;
                        }
                    }
                }
                attempt += 1;
                arm(d.device_mut(), &[]);
                let r = write(&mut d);
                done = check(r, &d, attempt, true)?;
            }
            assert!(done);
            // writing once more changes nothing
            if f.len() < 2 {
                arm(d.device_mut(), &[]);
                let r = write(&mut d);
                check(r, &d, attempt + 1, true)?;
            }
            Ok(s)
        });
    }
}

/// one call on a device: its result as text, with the device changed
pub type Call = Box<dyn Fn(&mut Dev) -> Result<String, String> + Sync>;
pub fn calls(i: &Img) -> Vec<(String, Call, bool)> {
    let lb = i.lb;
    let (p, _) = i.headers();
    let mut v: Vec<(String, Call, bool)> = vec![];
    let hd: Vec<Header> = {
        let g = open(i.build(), Cfg::rw(lb)).unwrap();
        vec![g.primary_header().unwrap().clone(), g.backup_header().unwrap().clone()]
    };
    let h0 = hd[0].clone();
    v.push((
        "file_read_partitions".into(),
        Box::new(move |d| file_read_partitions(d, &h0, lb).map(|p| format!("{p:?}")).map_err(|e| e.to_string())),
        false,
    ));
    v.push((
        "read_header_from_arbitrary_device".into(),
        Box::new(move |d| read_header_from_arbitrary_device(d, lb).map(|p| format!("{p:?}")).map_err(|e| e.to_string())),
        false,
    ));
    for (n, mut h) in ["write_primary", "write_backup"].iter().zip(hd) {
        h.disk_guid = fixed_guid(12);
        h.num_parts -= 1;
        v.push((
            n.to_string(),
            Box::new(move |d| {
                let mut h = h.clone();
                let r = if h.current_lba == 1 { h.write_primary(d, lb) } else { h.write_backup(d, lb) };
                r.map(|n| format!("{n} {h:?}")).map_err(|e| e.to_string())
            }),
            true,
        ));
    }
    let e = part(1, 9, 50, 60, 7, 2);
    v.push((
        "write_to_device".into(),
        Box::new(move |d| e.write_to_device(d, 1, p.pstart, lb, 128).map(|x| format!("{x:?}")).map_err(|e| e.to_string())),
        true,
    ));
    v.push((
        "write_zero_entries_to_device".into(),
        Box::new(move |d| Partition::write_zero_entries_to_device(d, 0, 2, p.pstart, lb, 128).map(|x| format!("{x:?}")).map_err(|e| e.to_string())),
        true,
    ));
    let mk = || {
        let mut m = ProtectiveMBR::with_lb_size(1234);
        m.set_bootcode([0x5C; 440]);
        m.set_disk_signature([1, 2, 3, 4]);
        m
    };
    let (m, m2) = (mk(), mk());
    v.push(("overwrite_lba0".into(), Box::new(move |d| m.overwrite_lba0(d).map(|n| n.to_string()).map_err(|e| e.to_string())), true));
    v.push(("update_conservative".into(), Box::new(move |d| m2.update_conservative(d).map(|n| n.to_string()).map_err(|e| e.to_string())), true));
    v.push(("write_bootcode".into(), Box::new(|d| mbr::write_bootcode(d, &[0x3B; 440]).map(|_| String::new()).map_err(|e| e.to_string())), true));
    v.push(("write_disk_signature".into(), Box::new(|d| mbr::write_disk_signature(d, &[9, 8, 7, 6]).map(|_| String::new()).map_err(|e| e.to_string())), true));
    v.push(("read_bootcode".into(), Box::new(|d| mbr::read_bootcode(d).map(|b| format!("{b:?}")).map_err(|e| e.to_string())), false));
    v.push(("read_disk_signature".into(), Box::new(|d| mbr::read_disk_signature(d).map(|b| format!("{b:?}")).map_err(|e| e.to_string())), false));
    v.push(("from_disk".into(), Box::new(move |d| ProtectiveMBR::from_disk(d, LogicalBlockSize::Lb512).map(|b| format!("{b:?}")).map_err(|e| e.to_string())), false));
    v
}

fn direct(c: &mut Ctx, what: &(String, Call, bool), dev: &Dev, triples: bool) {
    let (name, call, writes) = what;
    let mut good = dev.clone();
    good.set_pos(1000);
    let clean = call(&mut good).unwrap_or_else(|e| panic!("{name}: {e}"));
    let keeps = name.contains("lba0") || name.contains("conservative") || name.contains("bootcode") || name.contains("signature") || name.contains("disk");
    sweep(c, name, true, triples, &mut |c, f| {
        let mut d = dev.clone();
        arm(&mut d, f);
        d.set_pos(1000);
        let r = lib(|| call(&mut d));
        let s = seen(&d, f);
        match r {
            Err(p) => return Err(format!("panicked: {p}")),
            Ok(Ok(x)) => {
                c.outcome("call: success");
                if x != clean {
                    return Err(format!("returns {} instead of {}", clip(&x, 300), clip(&clean, 300)));
                }
                if d != good {
                    return Err(format!("succeeds but leaves bytes {:?} different", good.diff(&d)));
                }
                if keeps && !name.ends_with("_device") && d.pos() != 1000 {
                    return Err(format!("succeeds but leaves the device at {}", d.pos()));
                }
                if name.contains("mbr") && d.dirty {
                    return Err("succeeds without a flush".into());
                }
            }
            Ok(Err(e)) => {
                c.outcome("call: error");
                if s.harmless {
                    return Err(format!("fails with {e}"));
                }
                if !writes && d != *dev {
                    return Err("a read changed the device".into());
                }
                // once more
                arm(&mut d, &[]);
                d.set_pos(1000);
                if call(&mut d).as_ref() != Ok(&clean) || d != good {
                    return Err("the repeated call gives another result".into());
                }
            }
        }
        Ok(s)
    });
}

pub fn c13(deep: bool) -> Report {
    let mut r = Report::new(
        "exploration",
        "every device operation of every workflow (opening, creating, growing edits, writing, header and entry calls, MBR calls) hit by every kind of fault: once, from there on, in all pairs on small tables (thorough: all triples of hard faults on the smallest); devices that move only a few bytes per transfer; failed writes repeated, and repeated under a second fault. distinct_nontrivial counts distinct fault placements",
    );
    let imgs = images(deep);
    // opening
    let mut items = vec![];
    for i in 0..imgs.len() {
        for strict in [false, true] {
            items.push((i, strict));
        }
    }
    par(&mut r, &items, |c, (i, strict)| {
        let (n, d, lb, small) = &imgs[*i];
        let mut cfg = Cfg::rw(*lb);
        cfg.strict = *strict;
        opening(c, n, d, cfg, *small, deep && n.starts_with("two") && !strict);
    });
    let n0 = r.evals;
    r.parts.push(("opening".into(), n0));
    // creating, editing
    let mut edits = vec![];
    for (n, dev, lb, small) in &imgs {
        if n.contains("damaged: \"p") || n.contains("array") {
            continue;
        }
        for grow in [true, false] {
            let mut cfg = Cfg::rw(*lb);
            cfg.grow = grow;
            let Ok(d) = open(dev.clone(), cfg) else { continue };
            let h = d.header().clone();
            let bs = lbs(*lb);
            for op in [
                add(bs, None),
                Op::AddAt { id: h.num_parts + 1, first: h.first_usable + 9, len: 1, t: 0, flags: 0, name: 0 },
                Op::AddAt { id: 3, first: h.first_usable, len: 1, t: 0, flags: 0, name: 0 },
                Op::Update(Preset::Seq(h.num_parts + 1)),
                Op::Update(Preset::Seq(h.num_parts)),
                Op::Update(Preset::Many(129)),
                Op::Update(Preset::Empty),
                Op::Remove(1),
                Op::Take,
                Op::SetGuid(5),
                Op::Inspect,
            ] {
                edits.push((n.clone(), Own::new(d.clone()), cfg, op, *small || deep));
            }
        }
    }
    let c512 = dev_small();
    par(&mut r, &edits, |c, (n, d, cfg, op, pairs)| editing(c, n, &d.get(), *cfg, *op, *pairs));
    par(&mut r, &c512, |c, (d, lb)| creating(c, d, Cfg::rw(*lb), true));
    let n1 = r.evals;
    r.parts.push(("creating and editing".into(), n1 - n0));
    // writing
    let mut ws: Vec<(String, Own, Cfg, bool, bool)> = vec![];
    for (n, dev, lb, small) in &imgs {
        for ops in [vec![], vec![Op::SetGuid(1), Op::Remove(1)], vec![Op::Update(Preset::Same)], vec![Op::Update(Preset::Seq(140))], vec![Op::Take]] {
            for ro in [false, true] {
                let mut cfg = Cfg::rw(*lb).growing();
                cfg.ro_backup = ro;
                let Ok(d) = open(dev.clone(), cfg) else { continue };
                let mut run = Run { cfg, writable: true, disk: Some(d) };
                let many = matches!(ops.first(), Some(Op::Update(Preset::Seq(_))));
                if many && (*small || !deep && n != "plain") {
                    continue;
                }
                for o in &ops {
                    run.apply(*o);
                }
                let pairs = *small && (deep || ops.len() != 1);
                let triples = deep && n == "two entries" && ops.len() == 2;
                ws.push((format!("{n} edits {ops:?}"), Own::new(run.disk.unwrap()), cfg, pairs, triples));
            }
        }
    }
    for (d, lb) in &c512 {
        let cfg = Cfg::rw(*lb);
        let disk = cfg.gpt().create_from_device(d.clone(), Some(fixed_guid(3))).unwrap();
        ws.push((format!("a new table on {} bytes", d.size()), Own::new(disk), cfg, deep, false));
    }
    // the costly ones first
    ws.sort_by_key(|w| (!w.4, !w.3, w.0.contains("140")));
    let ws: Vec<_> = [None, Some(HARD[0]), Some(HARD[2])].into_iter().flat_map(|s| ws.iter().map(move |w| (s, w))).collect();
    par(&mut r, &ws, |c, (second, (n, d, cfg, pairs, triples))| writing(c, n, &d.get(), *cfg, *second, *pairs, *triples));
    let n2 = r.evals;
    r.parts.push(("writing".into(), n2 - n1));
    // direct calls
    for i in [small(2), plain(Lb4096), counted(129)] {
        let v = calls(&i);
        let mut dev = i.build();
        dev.poke(510, &[0x55, 0xAA]);
        par(&mut r, &v, |c, w| direct(c, w, &dev, deep));
    }
    let n3 = r.evals;
    r.parts.push(("header, entry and MBR calls".into(), n3 - n2));
    // slow devices
    let chunks: Vec<usize> = if deep { (1..=130).chain([511, 512, 513, 4095, 4096, 4097]).collect() } else { vec![1, 3, 7, 16, 92, 100, 127, 511, 513, 4095] };
    let mut slow = vec![];
    for k in &chunks {
        for (n, d, lb, _) in &imgs {
            slow.push((*k, n.clone(), d.clone(), *lb));
        }
    }
    par(&mut r, &slow, |c, (k, n, dev, lb)| {
        if stopped() {
            return;
        }
        let case = format!("{n}: {k} bytes per transfer");
        c.begin(&case);
        c.eval();
        c.seen((n, k));
        let cfg = Cfg::rw(*lb).growing();
        let run = |chunk: Option<usize>| -> Result<(Vec<Snap>, Dev), String> {
            let mut d = dev.clone();
            d.chunk = chunk;
            let mut g = open(d, cfg)?;
            let mut v = vec![Snap::of(&g)];
            let h = g.header().clone();
            // without room for more entries the table stays as it is
            let _ = g.update_partitions(preset(Preset::Seq(h.num_parts + 3), g.partitions(), &h));
            g.remove_partition(1);
            v.push(Snap::of(&g));
            write(&mut g)?;
            v.push(Snap::of(&g));
            if g.device_ref().dirty {
                return Err("not flushed".into());
            }
            Ok((v, g.take_device()))
        };
        let (a, b) = (run(None), run(Some(*k)));
        if a != b {
            c.violation("the result depends on the transfer size", case);
        } else {
            c.outcome(if a.is_ok() { "chunked: same" } else { "chunked: same error" });
        }
    });
    let n4 = r.evals;
    r.parts.push(("slow devices".into(), n4 - n3));
    r
}
fn dev_small() -> Vec<(Dev, LogicalBlockSize)> {
    let mut v = vec![];
    for lb in [Lb512, Lb4096] {
        let mut d = super::alloc::dev_usable(lb, 5);
        d.resize(d.size() + 3, 1);
        v.push((d, lb));
    }
    v
}
