//! C28: what is printed and reported is what is. Errors carry the device error that caused them,
//! texts show the values of the fields.
use super::devfail::{calls, images};
use super::fault::small;
use super::write::{counted, plain};
use crate::dev::{Dev, Fault, FaultKind, TOLD};
use crate::rep::*;
use crate::sm::*;
use gpt::disk::LogicalBlockSize::{Lb4096, Lb512};
use gpt::header::HeaderError;
use gpt::mbr::MBRError;
use gpt::partition::Partition;
use gpt::{GptDisk, GptError};
use std::io::{self, ErrorKind};
use uuid::Uuid;

const TELLING: [ErrorKind; 14] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::NotFound,
    ErrorKind::InvalidInput,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::ConnectionAborted,
];

fn cause(e: &GptError) -> Option<&io::Error> {
    match e {
        GptError::Io(e) | GptError::Header(HeaderError::Io(e)) => Some(e),
        _ => None,
    }
}
fn carries(e: &GptError, k: ErrorKind) -> Result<(), String> {
    match cause(e) {
        None => Err(format!("the device fails with {k:?}, reported is {e:?}")),
        Some(i) if i.kind() != k => Err(format!("the device fails with {k:?}, reported is the kind {:?}", i.kind())),
        Some(i) if !i.to_string().contains(TOLD) => Err(format!("what the device says about its failure is lost: {i:?}")),
        _ if !e.to_string().contains(TOLD) => Err(format!("the text of the error leaves out what the device says: {e}")),
        _ => Ok(()),
    }
}

/// the words of a text after a label, up to the end of the line
fn after<'a>(text: &'a str, label: &str) -> Result<&'a str, String> {
    let i = text.find(label).ok_or_else(|| format!("the text has no {label:?}: {text:?}"))?;
    Ok(text[i + label.len()..].lines().next().unwrap_or("").trim())
}

fn headers(c: &mut Ctx) {
    let h0 = {
        let g = Cfg::rw(Lb512).gpt().open_from_device(plain(Lb512).build()).unwrap();
        g.header().clone()
    };
    let nums = [0u32, 1, 9, 10, 0x7FFF_FFFF, 0x8000_0000, u32::MAX];
    for g in [Uuid::nil(), fixed_guid(3), Uuid::from_u128(u128::MAX), Uuid::from_u128(0x00112233_4455_6677_8899_AABBCCDDEEFF)] {
        for a in nums {
            for b in nums {
                c.eval();
                c.seen((g.as_u128(), a, b));
                let mut h = h0.clone();
                (h.disk_guid, h.crc32, h.crc32_parts) = (g, a, b);
                let case = format!("Display of the header with GUID {g}, checksums {a} and {b}");
                let t = match lib(|| h.to_string()) {
                    Ok(t) => t,
                    Err(p) => {
                        c.violation(format!("panicked: {p}"), case);
                        continue;
                    }
                };
                for (l, want) in [("Disk:", g.to_string()), ("\nCRC32:", a.to_string()), ("Table CRC:", b.to_string())] {
                    match after(&t, l) {
                        Ok(x) if x == want => {}
                        Ok(x) => c.violation(format!("{} {x:?} is shown, it is {want}", l.trim()), case.clone()),
                        Err(m) => c.violation(m, case.clone()),
                    }
                }
            }
        }
    }
}

fn entries(c: &mut Ctx) {
    let lbas = [0u64, 1, 34, u32::MAX as u64 + 1, i64::MAX as u64, u64::MAX];
    let flags = [0u64, 1, 7, 1 << 60, 1 << 63, u64::MAX];
    for t in [0u8, 1, 2, 8, 9] {
        for n in 0..13 {
            for a in lbas {
                for b in lbas {
                    for f in flags {
                        c.eval();
                        c.seen((t, n, a, b, f));
                        let p = part(t, 7, a, b, f, n);
                        let case = format!("Display of {p:?}");
                        let s = match lib(|| p.to_string()) {
                            Ok(s) => s,
                            Err(m) => {
                                c.violation(format!("panicked: {m}"), case);
                                continue;
                            }
                        };
                        let mut bad = vec![];
                        // names may hold anything, also line ends
                        let Some(rest) = s.find(&p.name).map(|i| &s[i + p.name.len()..]) else {
                            c.violation(format!("the name is not shown: {s:?}"), case);
                            continue;
                        };
                        let nums: Vec<String> = after(rest, "Span:")
                            .map(|x| x.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(String::from).collect())
                            .unwrap_or_default();
                        if nums.get(..2) != Some(&[a.to_string(), b.to_string()]) {
                            bad.push(format!("the span {a} to {b} is shown as {nums:?}"));
                        }
                        for (l, want) in [("Partition GUID:", p.part_guid.to_string()), ("Partition Type:", p.part_type_guid.guid.to_string()), ("Flags:", f.to_string())] {
                            match after(rest, l) {
                                Ok(x) if x.eq_ignore_ascii_case(&want) => {}
                                Ok(x) => bad.push(format!("{l} {x:?} is shown, it is {want}")),
                                Err(m) => bad.push(m),
                            }
                        }
                        for m in bad {
                            c.violation(m, case.clone());
                        }
                    }
                }
            }
        }
    }
}

fn texts(c: &mut Ctx) {
    let io = || io::Error::new(ErrorKind::TimedOut, TOLD);
    let g: Vec<(GptError, &str)> = vec![
        (GptError::Io(io()), TOLD),
        (GptError::Header(HeaderError::Io(io())), TOLD),
        (GptError::Header(HeaderError::Overflow("place one")), "place one"),
        (GptError::CreatingInitializedDisk, ""),
        (GptError::Overflow("place two"), "place two"),
        (GptError::NotEnoughSpace, ""),
        (GptError::ReadOnly, ""),
        (GptError::OverflowPartitionCount, ""),
        (GptError::PartitionCountWouldChange, ""),
        (GptError::PartitionIdAlreadyUsed, ""),
        (io().into(), TOLD),
        (HeaderError::from(io()).into(), TOLD),
    ];
    let h = || {
        vec![
            HeaderError::InvalidGptSignature,
            HeaderError::InvalidCRC32Checksum,
            HeaderError::MissingBackupLba,
            HeaderError::BackupLbaToEarly,
            HeaderError::WritingToWrongLba,
            HeaderError::Overflow("place three"),
            HeaderError::ToSmallForBackup,
        ]
    };
    let m: Vec<(MBRError, &str)> = vec![
        (MBRError::Io(io()), TOLD),
        (io().into(), TOLD),
        (MBRError::InvalidMBRLength, ""),
        (MBRError::InvalidMBRSignature, ""),
        (MBRError::InvalidPartitionLength, ""),
        (MBRError::Overflow("place four"), "place four"),
    ];
    let mut all: Vec<(String, String)> = vec![];
    let mut put = |c: &mut Ctx, name: String, text: Result<String, String>, has: &str| {
        c.eval();
        c.seen(&name);
        let case = format!("the text of {name}");
        match text {
            Err(p) => c.violation(format!("panicked: {p}"), case),
            Ok(t) => {
                if t.trim().is_empty() || !t.contains(has) {
                    c.violation(format!("{t:?} does not contain {has:?}"), case.clone());
                }
                if let Some((n, _)) = all.iter().find(|(n, x)| *x == t && *n != name) {
                    c.violation(format!("{t:?} is also the text of {n}"), case);
                }
                all.push((name, t));
            }
        }
    };
    for (e, has) in &g {
        put(c, format!("{e:?}"), lib(|| e.to_string()), has);
    }
    for e in h() {
        let t = lib(|| e.to_string());
        put(c, format!("{e:?}"), t.clone(), "");
        let inner = t.unwrap_or_default();
        let w = GptError::from(e);
        put(c, format!("{w:?}"), lib(|| w.to_string()), &inner);
    }
    for (e, has) in &m {
        put(c, format!("MBRError::{e:?}"), lib(|| e.to_string()), has);
    }
    for (l, n) in [(Lb512, "512"), (Lb4096, "4096")] {
        put(c, format!("block size {n}"), lib(|| l.to_string()), n);
    }
}

type Work<'a> = (String, Box<dyn Fn(&mut Dev) -> Result<Option<GptDisk<Dev>>, GptError> + Sync + 'a>);

pub fn c28(deep: bool) -> Report {
    let mut r = Report::new(
        "exploration",
        "every single failure, and every failure that lasts, of every device operation of opening, creating, editing, writing and the direct calls, with a kind and a text of its own; every error variant; products of boundary values of all fields that have a text. distinct_nontrivial counts distinct failure places and field values",
    );
    let one: [(); 1] = [()];
    par(&mut r, &one, |c, _| {
        c.begin("texts");
        texts(c);
        headers(c);
        entries(c);
    });
    r.parts.push(("texts".into(), r.evals));
    // opening and creating
    let n0 = r.evals;
    let imgs: Vec<_> = images(deep).into_iter().filter(|(n, ..)| !n.contains("damaged: \"p") && !n.contains("damaged: \"b")).collect();
    let mut items = vec![];
    for i in 0..imgs.len() {
        for what in 0..4 {
            for k in TELLING {
                items.push((i, what, k));
            }
        }
    }
    par(&mut r, &items, |c, (i, what, k)| {
        let (name, dev, lb, _) = &imgs[*i];
        let mut cfg = Cfg::rw(*lb);
        cfg.strict = *what == 1;
        cfg.ro_backup = *what == 3;
        let case = format!("{} on {name} with {cfg:?}", if *what == 2 { "create" } else { "open" });
        c.begin(&case);
        let go = |f: &[Fault]| {
            let mut d = dev.clone();
            d.reset();
            d.set_pos(777);
            d.faults = f.to_vec();
            d.kinds = Some(vec![]);
            let r = lib(|| {
                let g = if *what == 2 { cfg.gpt().create_from_device(&mut d, None)? } else { cfg.gpt().open_from_device(&mut d)? };
                let h = [g.primary_header(), g.backup_header()].map(|h| h.err().map(|e| (hkind(&e), e.to_string())));
                Ok::<_, GptError>(h)
            });
            (r, d.nops)
        };
        let (_, nops) = go(&[]);
        for at in 0..nops {
            for onwards in [false, true] {
                c.eval();
                c.seen((name, what, at, onwards, format!("{k:?}")));
                let (r, _) = go(&[Fault { at, onwards, kind: FaultKind::Told(*k) }]);
                let case = format!("{case}: {k:?} at device operation {at}, lasting: {onwards}");
                let v = match r {
                    Err(p) => Err(format!("panicked: {p}")),
                    Ok(Err(e)) => {
                        c.outcome("reported");
                        carries(&e, *k)
                    }
                    Ok(Ok(h)) => {
                        c.outcome("not needed");
                        // a copy that could not be read says why
                        let mut v = Ok(());
                        for (s, t) in h.into_iter().flatten() {
                            if *what != 2 && s != format!("Header:Io:{k:?}") {
                                v = Err(format!("a header that could not be read for {k:?} is shown as {s} ({t})"));
                            }
                        }
                        v
                    }
                };
                if let Err(m) = v {
                    c.violation(m, case);
                }
            }
        }
    });
    r.parts.push(("opening and creating".into(), r.evals - n0));
    // editing and writing
    let n0 = r.evals;
    let mut work: Vec<Work> = vec![];
    for (name, dev, lb, _) in &imgs {
        for cfg in [Cfg::rw(*lb), Cfg::rw(*lb).growing(), Cfg::rw(*lb).ro_backup()] {
            for op in [Op::Write, Op::Update(Preset::Same), Op::Update(Preset::Seq(140)), add(u64::from(*lb), None)] {
                if matches!(op, Op::Update(Preset::Seq(_))) && !cfg.grow {
                    continue;
                }
                let dev = dev.clone();
                work.push((
                    format!("{op:?} on {name} with {cfg:?}"),
                    Box::new(move |d: &mut Dev| {
                        let faults = std::mem::take(&mut d.faults);
                        let mut g = cfg.gpt().open_from_device(dev.clone())?;
                        g.device_mut().reset();
                        g.device_mut().faults = faults;
                        let r = match op {
                            Op::Write => g.write_inplace(),
                            Op::Update(p) => {
                                let m = preset(p, g.partitions(), g.header());
                                g.update_partitions(m)
                            }
                            _ => g.add_partition("x", u64::from(cfg.lb()), ty(0), 0, None).map(|_| ()),
                        };
                        d.nops = g.device_ref().nops;
                        r.map(|_| Some(g))
                    }),
                ));
            }
        }
    }
    par(&mut r, &work, |c, (name, f)| {
        c.begin(name);
        let mut d = Dev::zeros(0);
        if let Ok(Err(e)) | Err(e) = lib(|| f(&mut d)).map(|r| r.map(|_| ()).map_err(|e| ekind(&e))) {
            c.outcome(&format!("left out: {e}"));
            return;
        }
        for at in 0..d.nops {
            for onwards in [false, true] {
                for k in TELLING {
                    c.eval();
                    c.seen((name, at, onwards, format!("{k:?}")));
                    let mut x = Dev::zeros(0);
                    x.faults = vec![Fault { at, onwards, kind: FaultKind::Told(k) }];
                    let v = match lib(|| f(&mut x)) {
                        Err(p) => Err(format!("panicked: {p}")),
                        Ok(Ok(_)) => {
                            c.outcome("not needed");
                            Ok(())
                        }
                        Ok(Err(e)) => {
                            c.outcome("reported");
                            carries(&e, k)
                        }
                    };
                    if let Err(m) = v {
                        c.violation(m, format!("{name}: {k:?} at device operation {at}, lasting: {onwards}"));
                    }
                }
            }
        }
    });
    r.parts.push(("editing and writing".into(), r.evals - n0));
    // the functions below the disk object
    let n0 = r.evals;
    for i in [small(4), plain(Lb4096), counted(129)] {
        let v = calls(&i);
        let mut dev = i.build();
        dev.poke(510, &[0x55, 0xAA]);
        par(&mut r, &v, |c, (n, f, _)| {
            let name = format!("{n} on {} bytes", dev.size());
            c.begin(&name);
            let go = |faults: &[Fault]| {
                let mut d = dev.clone();
                d.reset();
                d.set_pos(1000);
                d.faults = faults.to_vec();
                (lib(|| f(&mut d)), d.nops)
            };
            let (_, nops) = go(&[]);
            for at in 0..nops {
                for onwards in [false, true] {
                    for k in TELLING {
                        c.eval();
                        c.seen((&name, at, onwards, format!("{k:?}")));
                        let v = match go(&[Fault { at, onwards, kind: FaultKind::Told(k) }]).0 {
                            Err(p) => Err(format!("panicked: {p}")),
                            Ok(Ok(_)) => {
                                c.outcome("not needed");
                                Ok(())
                            }
                            Ok(Err(e)) if e.contains(TOLD) => {
                                c.outcome("reported");
                                Ok(())
                            }
                            Ok(Err(e)) => Err(format!("the text of the error leaves out what the device says: {e}")),
                        };
                        if let Err(m) = v {
                            c.violation(m, format!("{name}: {k:?} at device operation {at}, lasting: {onwards}"));
                        }
                    }
                }
            }
        });
    }
    r.parts.push(("calls".into(), r.evals - n0));
    // paths that lead nowhere
    let n0 = r.evals;
    let paths = [
        (std::env::temp_dir().join("there-is-nothing-here").join("disk.img"), ErrorKind::NotFound),
        (std::env::temp_dir().join("no-such-disk.img"), ErrorKind::NotFound),
        (std::path::PathBuf::from("a\0b"), ErrorKind::InvalidInput),
    ];
    par(&mut r, &paths, |c, (p, want)| {
        let h = Cfg::rw(Lb512).gpt().open_from_device(plain(Lb512).build()).unwrap().header().clone();
        let e = part(0, 1, 40, 41, 0, 0);
        let g = |r: Result<(), GptError>| r.err().map(|e| cause(&e).map(|e| e.kind()));
        let i = |r: io::Result<()>| r.err().map(|e| Some(e.kind()));
        let cfg = || gpt::GptConfig::new();
        let mut out: Vec<(&str, Option<Option<ErrorKind>>)> = vec![
            ("open", g(cfg().open(p).map(|_| ()))),
            ("open writable", g(cfg().writable(true).open(p).map(|_| ()))),
            ("create", g(cfg().create(p).map(|_| ()))),
            ("create writable", g(cfg().writable(true).create(p).map(|_| ()))),
            ("read_disk", g(gpt::disk::read_disk(p).map(|_| ()))),
            ("read_partitions", i(gpt::partition::read_partitions(p, &h, Lb512).map(|_| ()))),
            ("Partition::write", i(e.write(p, 0, 2, Lb512))),
        ];
        let hk = |r: Result<(), HeaderError>| r.err().map(|e| if let HeaderError::Io(e) = e { Some(e.kind()) } else { None });
        out.push(("read_header", hk(gpt::header::read_header(p, Lb512).map(|_| ()))));
        out.push(("write_header", hk(gpt::header::write_header(p, None, Lb512).map(|_| ()))));
        for (n, got) in out {
            c.eval();
            c.seen((n, p));
            c.outcome(&format!("{got:?}"));
            if got != Some(Some(*want)) {
                c.violation(format!("a path that leads nowhere ({want:?}) gives {got:?}"), format!("{n} of {p:?}"));
            }
        }
    });
    r.parts.push(("paths".into(), r.evals - n0));
    let _ = Partition::zero();
    r
}
