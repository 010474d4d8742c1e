//! In-memory block devices owned by the explorer: every read, write, seek and flush is an
//! event it can count, log, cut short or fail.
use std::collections::BTreeMap;
use std::fmt;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum OpKind {
    Read,
    Write,
    Seek,
    Flush,
}

/// what a device says that fails with a text
pub const TOLD: &str = "cable 7 fell out of slot 12";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// the operation fails with this error and has no effect
    Fail(ErrorKind),
    /// like Fail, the error has a text of its own
    Told(ErrorKind),
    /// a transfer moves at most this many bytes
    Short(usize),
    /// a transfer moves nothing and reports Ok(0)
    Nothing,
    /// a write puts down the first half of its bytes, then the operation fails
    TornFail,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fault {
    /// index of the device operation it hits
    pub at: u64,
    /// true: it also hits every later operation
    pub onwards: bool,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Write { off: u64, data: Vec<u8> },
    Flush,
}

#[derive(Clone, PartialEq, Eq)]
enum Store {
    Flat(Vec<u8>),
    Sparse { len: u64, blocks: BTreeMap<u64, Box<[u8; 512]>>, pattern: bool },
}

/// position dependent filler, so that a misplaced or lost byte is visible
pub fn pattern_byte(off: u64) -> u8 {
    let x = (off / 512).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ off.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    ((x >> 32) ^ (x >> 17)) as u8 | 1
}

#[derive(Clone)]
pub struct Dev {
    store: Store,
    pos: u64,
    /// device operations so far
    pub nops: u64,
    /// non-empty writes so far
    pub writes: u64,
    /// bytes written so far
    pub wbytes: u64,
    pub flushes: u64,
    /// true when a write came after the last successful flush
    pub dirty: bool,
    pub faults: Vec<Fault>,
    pub fault_hits: u32,
    pub chunk: Option<usize>,
    pub log: Option<Vec<Ev>>,
    pub kinds: Option<Vec<OpKind>>,
    /// a write may lengthen the device up to here (like a file); beyond it fails
    pub grow_limit: u64,
    pub grown: bool,
    /// unreadable 512-byte sectors; a write makes a sector readable again
    pub bad: std::collections::BTreeSet<u64>,
}

impl PartialEq for Dev {
    fn eq(&self, o: &Dev) -> bool {
        self.store == o.store
    }
}

impl fmt::Debug for Dev {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Dev(len={})", self.size())
    }
}

impl Dev {
    fn with(store: Store, len: u64) -> Dev {
        Dev {
            store,
            pos: 0,
            nops: 0,
            writes: 0,
            wbytes: 0,
            flushes: 0,
            dirty: false,
            faults: vec![],
            fault_hits: 0,
            chunk: None,
            log: None,
            kinds: None,
            grow_limit: len.saturating_add(1 << 22),
            grown: false,
            bad: Default::default(),
        }
    }
    pub fn flat(data: Vec<u8>) -> Dev {
        let n = data.len() as u64;
        Dev::with(Store::Flat(data), n)
    }
    pub fn zeros(len: u64) -> Dev {
        Dev::flat(vec![0; len as usize])
    }
    pub fn patterned(len: u64) -> Dev {
        Dev::flat((0..len).map(pattern_byte).collect())
    }
    pub fn sparse(len: u64, pattern: bool) -> Dev {
        Dev::with(Store::Sparse { len, blocks: BTreeMap::new(), pattern }, len)
    }
    pub fn size(&self) -> u64 {
        match &self.store {
            Store::Flat(v) => v.len() as u64,
            Store::Sparse { len, .. } => *len,
        }
    }
    pub fn bytes(&self) -> &[u8] {
        match &self.store {
            Store::Flat(v) => v,
            _ => panic!("bytes() on a sparse device"),
        }
    }
    pub fn bytes_mut(&mut self) -> &mut Vec<u8> {
        match &mut self.store {
            Store::Flat(v) => v,
            _ => panic!("bytes_mut() on a sparse device"),
        }
    }
    pub fn is_flat(&self) -> bool {
        matches!(self.store, Store::Flat(_))
    }
    pub fn set_pos(&mut self, p: u64) {
        self.pos = p;
    }
    pub fn pos(&self) -> u64 {
        self.pos
    }
    /// explorer-side resize (a disk image that was enlarged or cut)
    pub fn resize(&mut self, len: u64, fill: u8) {
        match &mut self.store {
            Store::Flat(v) => v.resize(len as usize, fill),
            Store::Sparse { len: l, .. } => *l = len,
        }
        self.grow_limit = len.saturating_add(1 << 22);
        self.grown = false;
    }
    /// forget counters, logs and faults
    pub fn reset(&mut self) {
        self.nops = 0;
        self.writes = 0;
        self.wbytes = 0;
        self.flushes = 0;
        self.dirty = false;
        self.faults.clear();
        self.fault_hits = 0;
        self.chunk = None;
        self.log = None;
        self.kinds = None;
        self.grown = false;
    }
    /// explorer-side read; bytes past the end read as None
    pub fn peek(&self, off: u64, len: usize) -> Option<Vec<u8>> {
        if off.checked_add(len as u64)? > self.size() {
            return None;
        }
        Some(match &self.store {
            Store::Flat(v) => v[off as usize..off as usize + len].to_vec(),
            Store::Sparse { blocks, pattern, .. } => {
                let mut out = Vec::with_capacity(len);
                let mut o = off;
                while out.len() < len {
                    let (b, i) = (o / 512, (o % 512) as usize);
                    let n = (512 - i).min(len - out.len());
                    match blocks.get(&b) {
                        Some(d) => out.extend_from_slice(&d[i..i + n]),
                        None if *pattern => out.extend((o..o + n as u64).map(pattern_byte)),
                        None => out.resize(out.len() + n, 0),
                    }
                    o += n as u64;
                }
                out
            }
        })
    }
    /// byte ranges (start, end) in which two devices of the same kind differ
    pub fn diff(&self, o: &Dev) -> Vec<(u64, u64)> {
        let mut out: Vec<(u64, u64)> = vec![];
        let mut at = |off: u64| match out.last_mut() {
            Some(l) if l.1 == off => l.1 += 1,
            _ => out.push((off, off + 1)),
        };
        match (&self.store, &o.store) {
            (Store::Flat(a), Store::Flat(b)) => {
                let n = a.len().min(b.len());
                let mut i = 0;
                while i < n {
                    let e = (i + 512).min(n);
                    if a[i..e] != b[i..e] {
                        for k in i..e {
                            if a[k] != b[k] {
                                at(k as u64);
                            }
                        }
                    }
                    i = e;
                }
                if a.len() != b.len() {
                    out.push((n as u64, a.len().max(b.len()) as u64));
                }
            }
            (Store::Sparse { blocks: a, .. }, Store::Sparse { blocks: b, .. }) => {
                let keys: std::collections::BTreeSet<u64> = a.keys().chain(b.keys()).copied().collect();
                let n = self.size().min(o.size());
                for k in keys {
                    let off = k * 512;
                    if off >= n {
                        continue;
                    }
                    let len = (n - off).min(512) as usize;
                    let (x, y) = (self.peek(off, len).unwrap(), o.peek(off, len).unwrap());
                    for i in 0..len {
                        if x[i] != y[i] {
                            at(off + i as u64);
                        }
                    }
                }
                if self.size() != o.size() {
                    out.push((n, self.size().max(o.size())));
                }
            }
            _ => panic!("diff of different kinds"),
        }
        out
    }
    /// explorer-side write
    pub fn poke(&mut self, off: u64, data: &[u8]) {
        let end = off.checked_add(data.len() as u64).expect("poke range");
        match &mut self.store {
            Store::Flat(v) => {
                if end as usize > v.len() {
                    v.resize(end as usize, 0);
                }
                v[off as usize..end as usize].copy_from_slice(data);
            }
            Store::Sparse { len, blocks, pattern } => {
                *len = (*len).max(end);
                let mut o = off;
                let mut d = data;
                while !d.is_empty() {
                    let (b, i) = (o / 512, (o % 512) as usize);
                    let n = (512 - i).min(d.len());
                    let pat = *pattern;
                    let blk = blocks.entry(b).or_insert_with(|| {
                        let mut x = Box::new([0u8; 512]);
                        if pat {
                            for (k, y) in x.iter_mut().enumerate() {
                                *y = pattern_byte(b * 512 + k as u64);
                            }
                        }
                        x
                    });
                    blk[i..i + n].copy_from_slice(&d[..n]);
                    o += n as u64;
                    d = &d[n..];
                }
            }
        }
    }
    fn next_fault(&mut self, k: OpKind) -> Option<FaultKind> {
        let i = self.nops;
        self.nops += 1;
        if let Some(v) = &mut self.kinds {
            v.push(k);
        }
        let f = self.faults.iter().find(|f| f.at == i || (f.onwards && i > f.at)).copied();
        if f.is_some() {
            self.fault_hits += 1;
        }
        f.map(|f| f.kind)
    }
    fn do_write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let end = self
            .pos
            .checked_add(buf.len() as u64)
            .ok_or_else(|| io::Error::from(ErrorKind::InvalidInput))?;
        if end > self.size() {
            if end > self.grow_limit {
                return Err(io::Error::from(ErrorKind::StorageFull));
            }
            self.grown = true;
        }
        let off = self.pos;
        self.poke(off, buf);
        if !self.bad.is_empty() {
            for k in off / 512..=(end - 1) / 512 {
                self.bad.remove(&k);
            }
        }
        if let Some(l) = &mut self.log {
            l.push(Ev::Write { off, data: buf.to_vec() });
        }
        self.pos = end;
        self.writes += 1;
        self.wbytes += buf.len() as u64;
        self.dirty = true;
        Ok(buf.len())
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len();
        match self.next_fault(OpKind::Read) {
            Some(FaultKind::Fail(k)) => return Err(io::Error::from(k)),
            Some(FaultKind::Told(k)) => return Err(io::Error::new(k, TOLD)),
            Some(FaultKind::TornFail) => return Err(io::Error::from(ErrorKind::Other)),
            Some(FaultKind::Nothing) => return Ok(0),
            Some(FaultKind::Short(s)) => n = n.min(s),
            None => {}
        }
        if let Some(c) = self.chunk {
            n = n.min(c);
        }
        let left = self.size().saturating_sub(self.pos);
        let mut n = (n as u64).min(left) as usize;
        if n == 0 {
            return Ok(0);
        }
        if !self.bad.is_empty() {
            if let Some(b) = self.bad.range(self.pos / 512..=(self.pos + n as u64 - 1) / 512).next() {
                if b * 512 <= self.pos {
                    return Err(io::Error::from(ErrorKind::Other));
                }
                n = (b * 512 - self.pos) as usize;
            }
        }
        match &self.store {
            Store::Flat(v) => {
                let p = self.pos as usize;
                buf[..n].copy_from_slice(&v[p..p + n]);
            }
            _ => {
                let d = self.peek(self.pos, n).unwrap();
                buf[..n].copy_from_slice(&d);
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = buf.len();
        match self.next_fault(OpKind::Write) {
            Some(FaultKind::Fail(k)) => return Err(io::Error::from(k)),
            Some(FaultKind::Told(k)) => return Err(io::Error::new(k, TOLD)),
            Some(FaultKind::Nothing) => return Ok(0),
            Some(FaultKind::Short(s)) => n = n.min(s),
            Some(FaultKind::TornFail) => {
                let h = n / 2;
                let p = self.pos;
                let _ = self.do_write(&buf[..h]);
                self.pos = p;
                return Err(io::Error::from(ErrorKind::Other));
            }
            None => {}
        }
        if let Some(c) = self.chunk {
            n = n.min(c);
        }
        self.do_write(&buf[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.next_fault(OpKind::Flush) {
            Some(FaultKind::Fail(k)) => return Err(io::Error::from(k)),
            Some(FaultKind::Told(k)) => return Err(io::Error::new(k, TOLD)),
            Some(FaultKind::TornFail) => return Err(io::Error::from(ErrorKind::Other)),
            _ => {}
        }
        self.flushes += 1;
        self.dirty = false;
        if let Some(l) = &mut self.log {
            l.push(Ev::Flush);
        }
        Ok(())
    }
}

impl Seek for Dev {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        match self.next_fault(OpKind::Seek) {
            Some(FaultKind::Fail(k)) => return Err(io::Error::from(k)),
            Some(FaultKind::Told(k)) => return Err(io::Error::new(k, TOLD)),
            Some(FaultKind::TornFail) => return Err(io::Error::from(ErrorKind::Other)),
            _ => {}
        }
        let np = match p {
            SeekFrom::Start(x) => Some(x),
            SeekFrom::End(d) => self.size().checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        // like a file: offsets above i64::MAX are refused
        match np {
            Some(x) if x <= i64::MAX as u64 => {
                self.pos = x;
                Ok(x)
            }
            _ => Err(io::Error::from(ErrorKind::InvalidInput)),
        }
    }
}
