//! C01..C06: the write-ahead log. The stand-in file below plays the disk: it keeps every byte it was
//! given, splits writes and reads, injects interruptions and faults, and counts calls.

use crate::kit::*;
use crate::refs::{self, BLOCK, HEADER};
use level_db_rust::db::log_reader::{LogReader, SeekableReader};
use level_db_rust::db::log_writer::LogWriter;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::Status;
use std::collections::BTreeSet;
use std::io::{Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ stand-in files

#[derive(Clone, Copy, PartialEq, Debug)]
pub(crate) enum Split {
    Whole,
    /// at most this many bytes per call
    Max(usize),
    Random,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum WFault {
    WriteErr,
    /// some bytes are taken, the next call fails
    PartialThenErr,
    WriteZero,
    FlushErr,
}

struct SinkState {
    bytes: Vec<u8>,
    flushed: usize,
    writes: u64,
    flushes: u64,
    calls: u64,
    interrupts: u64,
    shorts: u64,
    /// fails at the call with this number (writes and flushes count alike)
    fault_at: Option<(u64, WFault)>,
    fault_kind: Fault,
    fault_hits: u64,
    pending_err: bool,
    split: Split,
    intr: usize,
    rng: Rng,
    call_limit: u64,
}

#[derive(Clone)]
struct Sink(Arc<Mutex<SinkState>>);

impl Sink {
    fn new(rng: Rng, split: Split, intr: usize) -> Sink {
        Sink(Arc::new(Mutex::new(SinkState {
            bytes: vec![],
            flushed: 0,
            writes: 0,
            flushes: 0,
            calls: 0,
            interrupts: 0,
            shorts: 0,
            fault_at: None,
            fault_kind: Fault::Message(ErrorKind::Other),
            fault_hits: 0,
            pending_err: false,
            split,
            intr,
            rng,
            call_limit: 4_000_000,
        })))
    }
    fn bytes(&self) -> Vec<u8> {
        self.0.lock().unwrap().bytes.clone()
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut s = self.0.lock().unwrap();
        s.calls += 1;
        s.writes += 1;
        if s.calls > s.call_limit {
            drop(s);
            std::panic::panic_any(StepLimit("the writer keeps calling write".into()));
        }
        if s.pending_err {
            s.pending_err = false;
            s.fault_hits += 1;
            return Err(s.fault_kind.error("injected write fault"));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some((at, kind)) = s.fault_at {
            if s.calls >= at && kind != WFault::FlushErr {
                s.fault_at = None;
                match kind {
                    WFault::WriteErr => {
                        s.fault_hits += 1;
                        return Err(s.fault_kind.error("injected write fault"));
                    }
                    WFault::WriteZero => {
                        s.fault_hits += 1;
                        return Ok(0);
                    }
                    WFault::PartialThenErr => {
                        let n = buf.len() / 2;
                        if n == 0 {
                            s.fault_hits += 1;
                            return Err(s.fault_kind.error("injected write fault"));
                        }
                        s.bytes.extend_from_slice(&buf[..n]);
                        s.pending_err = true;
                        return Ok(n);
                    }
                    WFault::FlushErr => {}
                }
            }
        }
        let intr = s.intr;
        if intr > 0 && s.rng.below(100) < intr {
            s.interrupts += 1;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let n = match s.split {
            Split::Whole => buf.len(),
            Split::Max(m) => buf.len().min(m),
            Split::Random => {
                if s.rng.chance(1, 3) {
                    buf.len()
                } else {
                    s.rng.range(1, buf.len())
                }
            }
        };
        if n < buf.len() {
            s.shorts += 1;
        }
        s.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut s = self.0.lock().unwrap();
        s.calls += 1;
        s.flushes += 1;
        if let Some((at, WFault::FlushErr)) = s.fault_at {
            if s.calls >= at {
                s.fault_at = None;
                s.fault_hits += 1;
                return Err(s.fault_kind.error("injected flush fault"));
            }
        }
        s.flushed = s.bytes.len();
        Ok(())
    }
}

#[derive(Default, Clone)]
struct SrcStats {
    reads: u64,
    shorts: u64,
    interrupts: u64,
    faults: u64,
}

struct Source {
    data: Arc<Vec<u8>>,
    pos: usize,
    split: Split,
    intr: usize,
    fault_at: Option<u64>,
    /// the fault stays
    lasting: bool,
    fault_kind: Fault,
    rng: Rng,
    stats: Arc<Mutex<SrcStats>>,
    call_limit: u64,
}

impl Source {
    fn new(data: Arc<Vec<u8>>, rng: Rng, split: Split, intr: usize) -> Source {
        let call_limit = 400_000 + data.len() as u64 * 4;
        Source { data, pos: 0, split, intr, fault_at: None, lasting: false, fault_kind: Fault::Message(ErrorKind::Other), rng, stats: Default::default(), call_limit }
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut st = self.stats.lock().unwrap();
        st.reads += 1;
        if st.reads > self.call_limit {
            drop(st);
            std::panic::panic_any(StepLimit("the reader keeps calling read".into()));
        }
        if let Some(at) = self.fault_at {
            if st.reads == at || self.lasting && st.reads > at {
                st.faults += 1;
                return Err(self.fault_kind.error("injected read fault"));
            }
        }
        if self.intr > 0 && self.rng.below(100) < self.intr {
            st.interrupts += 1;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let left = self.data.len().saturating_sub(self.pos).min(buf.len());
        if left == 0 {
            return Ok(0);
        }
        let n = match self.split {
            Split::Whole => left,
            Split::Max(m) => left.min(m),
            Split::Random => {
                if self.rng.chance(1, 3) {
                    left
                } else {
                    self.rng.range(1, left)
                }
            }
        };
        if n < left {
            st.shorts += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Seek for Source {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
        };
        if n < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek before start"));
        }
        self.pos = n.min(usize::MAX as i128) as usize;
        Ok(self.pos as u64)
    }
}

impl SeekableReader for Source {}

// ------------------------------------------------------------------ helpers

pub(crate) enum Item {
    Rec(Vec<u8>),
    Bad(Status),
}

/// Reads until the end of the log, carrying on after errors. The number of calls is bounded by the
/// size of the file: every call consumes at least a header, or reports once in front of a record.
fn drain(r: &mut LogReader, file_len: usize) -> Result<Vec<Item>, String> {
    let limit = 2 * (file_len / HEADER + 2) + file_len / BLOCK + 16;
    let mut out = vec![];
    for _ in 0..limit {
        match r.read_next() {
            Ok(Some(s)) => out.push(Item::Rec(s.as_ref().to_vec())),
            Ok(None) => return Ok(out),
            Err(e) => out.push(Item::Bad(e)),
        }
    }
    Err(format!("no progress: {} calls of read_next on a log of {} bytes and still no end", limit, file_len))
}

fn only_records(items: Vec<Item>) -> Result<Vec<Vec<u8>>, String> {
    let mut out = vec![];
    for (i, it) in items.into_iter().enumerate() {
        match it {
            Item::Rec(r) => out.push(r),
            Item::Bad(e) => return Err(format!("read {} of an intact log reports: {}", i, Status::to_string(e))),
        }
    }
    Ok(out)
}

pub(crate) fn same_records(got: &[Vec<u8>], want: &[Vec<u8>]) -> R {
    for i in 0..got.len().max(want.len()) {
        ensure!(i < got.len(), "{} records expected, the log ends after {}", want.len(), got.len());
        ensure!(i < want.len(), "{} records expected, but one more was delivered: {} bytes", want.len(), got[i].len());
        if got[i] != want[i] {
            let at = got[i].iter().zip(want[i].iter()).position(|(a, b)| a != b).unwrap_or(got[i].len().min(want[i].len()));
            return Err(format!("record {} differs: {} bytes delivered, {} written, first difference at {}", i, got[i].len(), want[i].len(), at));
        }
    }
    Ok(())
}

/// Record sizes crowd the places where a fragment meets the end of a block.
fn gen_records(c: &mut Ctx, max_n: usize, max_total: usize, unique: bool) -> Vec<Vec<u8>> {
    let n = c.rng.range(0, max_n);
    let mut out: Vec<Vec<u8>> = vec![];
    let mut off = 0usize;
    let mut total = 0usize;
    for i in 0..n {
        let mut room = BLOCK - off % BLOCK;
        if room < HEADER {
            room = BLOCK;
        }
        let avail = room - HEADER;
        let mut len = match c.rng.below(10) {
            0 => 0,
            1 | 2 => c.rng.range(1, 64),
            3 | 4 => {
                // leave 0..=15 bytes in this block
                let left = c.rng.range(0, 15);
                c.ev("records sized to a block end", 1);
                avail.saturating_sub(left)
            }
            5 => avail + c.rng.range(0, 3) + c.rng.below(2) * (BLOCK - HEADER),
            6 => (BLOCK - HEADER) * c.rng.range(1, 2) + c.rng.range(0, 20) - 10,
            7 => c.rng.range(0, 70_000),
            _ => c.rng.range(0, 4000),
        };
        if c.scale == 0 {
            len = if c.rng.chance(1, 6) { len.min(40_000) } else { len % 700 };
        }
        if unique {
            len = len.max(8);
        }
        if total + len > max_total {
            len = (len % 97).max(8);
        }
        total += len;
        let mut r = match c.rng.below(5) {
            0 => vec![0u8; len],
            1 => {
                // content that looks like log fragments
                let mut t = vec![];
                let p = c.rng.bytes(9);
                while t.len() < len {
                    refs::log_append(&mut t, &p);
                }
                t.truncate(len);
                t
            }
            2 => vec![c.rng.next() as u8; len],
            3 if c.rng.chance(1, 2) => {
                // what one fragment, a header or an integer looks like, repeated or alone
                let p = c.rng.special(64);
                p.iter().cycle().copied().take(if p.is_empty() { 0 } else { len }).chain(vec![0; if p.is_empty() { len } else { 0 }]).collect()
            }
            _ => c.rng.bytes(len),
        };
        if unique {
            r[..4].copy_from_slice(&(i as u32).to_le_bytes());
            r[4..8].copy_from_slice(&0x5eed_0000u32.to_be_bytes());
        }
        let mut w = vec![0u8; 0];
        let _ = &mut w;
        // advance the layout
        let mut left = len;
        let mut first = true;
        let mut frags = 0;
        while first || left > 0 {
            let room = BLOCK - off % BLOCK;
            if room < HEADER {
                off += room;
                c.ev("block trailers", 1);
            }
            let a = BLOCK - off % BLOCK - HEADER;
            let m = left.min(a);
            if first && m == 0 && left > 0 {
                c.ev("empty first fragments", 1);
            }
            off += HEADER + m;
            left -= m;
            first = false;
            frags += 1;
        }
        if frags > 1 {
            c.ev("multi-fragment records", 1);
        }
        if frags > 2 {
            c.ev("records with middle fragments", 1);
        }
        if len == 0 {
            c.ev("empty records", 1);
        }
        c.mix(hash_bytes(&r));
        out.push(r);
    }
    c.ev("records", out.len() as u64);
    c.nontrivial = out.len() > 1;
    c.sample = format!("record sizes {:?}", out.iter().map(|r| r.len()).take(12).collect::<Vec<_>>());
    out
}

pub(crate) fn gen_split(c: &mut Ctx, file_len: usize) -> Split {
    match c.rng.below(4) {
        0 | 1 => Split::Whole,
        2 => {
            let mut m = *c.rng.pick(&[1usize, 2, 3, 7, 100, 4096, 32767, 32768]);
            if file_len / m > 60_000 || c.scale == 0 {
                m = m.max(500);
            }
            Split::Max(m)
        }
        _ => Split::Random,
    }
}

pub(crate) fn write_all(c: &mut Ctx, recs: &[Vec<u8>], split: Split, intr: usize) -> Result<Vec<u8>, String> {
    let sink = Sink::new(Rng::new(c.rng.next()), split, intr);
    let mut w = LogWriter::new(Box::new(sink.clone()));
    for (i, r) in recs.iter().enumerate() {
        // a record may come from any address
        let (v, o) = at_align(r, i % 16);
        let s = Slice::from_buf(&v[o..o + r.len()]);
        if let Err(e) = w.add_record(s) {
            return Err(format!("add_record {} on a healthy file fails: {}", i, Status::to_string(e)));
        }
    }
    drop(w);
    let s = sink.0.lock().unwrap();
    c.ev("short writes", s.shorts);
    c.ev("interrupted writes", s.interrupts);
    c.ev("bytes written", s.bytes.len() as u64);
    c.ev("writer calls", s.writes);
    c.ev("flushes", s.flushes);
    Ok(s.bytes.clone())
}

pub(crate) fn read_all(c: &mut Ctx, bytes: &[u8], split: Split, intr: usize, checksum: bool, initial: usize) -> Result<Vec<Item>, String> {
    let src = Source::new(Arc::new(bytes.to_vec()), Rng::new(c.rng.next()), split, intr);
    let stats = src.stats.clone();
    let mut r = LogReader::new(Box::new(src), checksum, initial);
    let items = drain(&mut r, bytes.len())?;
    for _ in 0..3 {
        match r.read_next() {
            Ok(None) => {}
            Ok(Some(_)) => return Err("a record is delivered after the end of the log was reported".into()),
            Err(e) => return Err(format!("an error is reported after the end of the log: {}", Status::to_string(e))),
        }
    }
    let s = stats.lock().unwrap();
    c.ev("reader calls", s.reads);
    c.ev("short reads", s.shorts);
    c.ev("interrupted reads", s.interrupts);
    Ok(items)
}

// ------------------------------------------------------------------ C01

fn c01_roundtrip(c: &mut Ctx) -> R {
    let max_total = c.by(45_000, 400_000, 1_200_000);
    let max_n = c.by(6, 24, 60);
    let recs = gen_records(c, max_n, max_total, false);
    let total: usize = recs.iter().map(|r| r.len() + 16).sum();
    let (ws, rs) = (gen_split(c, total), gen_split(c, total));
    let intr = *c.rng.pick(&[0usize, 0, 10, 40]);
    let bytes = write_all(c, &recs, ws, intr)?;
    let checksum = c.rng.chance(3, 4);
    let items = read_all(c, &bytes, rs, intr, checksum, 0)?;
    let got = only_records(items)?;
    c.ev("records delivered", got.len() as u64);
    same_records(&got, &recs)
}

/// every record length around every distance to the end of a block
fn c01_boundary(c: &mut Ctx) -> R {
    // the first record leaves `left` bytes of the block, the second has `len` bytes
    let left = (c.case % 17) as usize;
    let lens = [0usize, 1, 2, 6, 7, 8, 20, BLOCK - 14, BLOCK - HEADER - 1, BLOCK - HEADER, BLOCK - HEADER + 1, 2 * (BLOCK - HEADER), 2 * (BLOCK - HEADER) + 1];
    let len = lens[(c.case / 17) as usize % lens.len()];
    let recs = vec![c.rng.bytes(BLOCK - HEADER - left), c.rng.bytes(len), c.rng.bytes(5), vec![], c.rng.bytes(3)];
    c.mix(c.case);
    c.nontrivial = true;
    c.sample = format!("{} bytes left in the block, then a record of {} bytes", left, len);
    c.ev("boundary shapes", 1);
    let bytes = write_all(c, &recs, Split::Whole, 0)?;
    let items = read_all(c, &bytes, Split::Whole, 0, true, 0)?;
    same_records(&only_records(items)?, &recs)
}

fn c01_file(c: &mut Ctx) -> R {
    let recs = gen_records(c, 20, 200_000, false);
    let dir = std::env::temp_dir().join(format!("verif_log_{}_{}", std::process::id(), c.case));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let path = dir.join("wal.log");
    let run = |c: &mut Ctx| -> R {
        let f = std::fs::File::create(&path).expect("scratch file");
        let mut w = LogWriter::new(Box::new(f));
        for r in &recs {
            if let Err(e) = w.add_record(Slice::from_buf(r)) {
                return Err(format!("add_record on a file fails: {}", Status::to_string(e)));
            }
        }
        drop(w);
        c.ev("bytes on disk", std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0));
        let f = std::fs::File::open(&path).expect("scratch file");
        let mut r = LogReader::new(Box::new(f), true, 0);
        let items = drain(&mut r, recs.iter().map(|r| r.len() + 16).sum())?;
        same_records(&only_records(items)?, &recs)
    };
    let res = run(c);
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    res
}

/// logs of very many and of very long records
fn c01_scale(c: &mut Ctx) -> R {
    let recs: Vec<Vec<u8>> = if c.case % 2 == 0 {
        let n = c.by(200, 70_000, 140_000) + c.rng.below(1000);
        c.ev("logs of more than 65536 records", (n > 65536) as u64);
        (0..n).map(|i| (i as u64).to_le_bytes()[..c.rng.below(5)].to_vec()).collect()
    } else {
        let n = c.by(40_000, 17_000_000, 40_000_000) + c.rng.below(2 * BLOCK);
        c.ev("records of more than 2^24 bytes", (n > 1 << 24) as u64);
        let p = c.rng.bytes(4096 + 1);
        let mut long = Vec::with_capacity(n);
        while long.len() < n {
            long.extend_from_slice(&p[..p.len().min(n - long.len())]);
        }
        let lead = c.rng.below(c.by(40, 40_000, 40_000));
        vec![c.rng.bytes(lead), long, vec![], c.rng.bytes(70_000), c.rng.bytes(3)]
    };
    c.fp = c.rng.clone().next();
    c.nontrivial = true;
    c.sample = format!("{} records, {} bytes", recs.len(), recs.iter().map(|r| r.len()).sum::<usize>());
    let bytes = write_all(c, &recs, Split::Whole, 0)?;
    let items = read_all(c, &bytes, Split::Whole, 0, true, 0)?;
    same_records(&only_records(items)?, &recs)
}

// ------------------------------------------------------------------ C02

fn c02_format(c: &mut Ctx) -> R {
    let max_total = c.by(45_000, 400_000, 1_200_000);
    let max_n = c.by(6, 24, 60);
    let recs = gen_records(c, max_n, max_total, false);
    let (want, _) = refs::log_file(&recs);
    let ws = gen_split(c, want.len());
    let bytes = write_all(c, &recs, ws, 0)?;
    if bytes != want {
        let at = bytes.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(bytes.len().min(want.len()));
        return Err(format!("written log differs from the LevelDB format: {} bytes, {} expected, first difference at offset {} (block offset {})", bytes.len(), want.len(), at, at % BLOCK));
    }
    c.ev("bytes compared", want.len() as u64);
    // and a log written by someone else is read back
    let mut foreign = want;
    if c.rng.chance(1, 2) {
        // preallocated space behind the last record: zeros up to some block boundary or beyond
        let extra = *c.rng.pick(&[1usize, 6, 7, 8, 100, BLOCK, BLOCK + 5, 3 * BLOCK]);
        foreign.extend(std::iter::repeat(0).take(extra));
        c.ev("logs with preallocated space", 1);
    }
    let checksum = c.rng.chance(1, 2);
    let rs = gen_split(c, foreign.len());
    let items = read_all(c, &foreign, rs, 0, checksum, 0)?;
    same_records(&only_records(items)?, &recs)
}

/// A log with preallocated zeros inside: the rest of a block may be unwritten space.
fn c02_prealloc(c: &mut Ctx) -> R {
    let n = c.rng.range(1, c.by(3, 12, 30));
    let mut file = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let len = c.rng.range(0, c.by(300, 9000, 9000));
        let r = c.rng.bytes(len);
        refs::log_append(&mut file, &r);
        c.mix(hash_bytes(&r));
        want.push(r);
        if c.rng.chance(1, 4) {
            let room = BLOCK - file.len() % BLOCK;
            if room >= HEADER {
                c.ev("zero-filled block rests", 1);
            }
            file.extend(std::iter::repeat(0).take(room));
            if c.rng.chance(1, 4) {
                file.extend(std::iter::repeat(0).take(BLOCK));
                c.ev("zero blocks", 1);
            }
        }
    }
    c.nontrivial = true;
    c.sample = format!("{} records in {} bytes with zero-filled gaps", n, file.len());
    let checksum = c.rng.chance(1, 2);
    let items = read_all(c, &file, Split::Whole, 0, checksum, 0)?;
    same_records(&only_records(items)?, &want)
}

// ------------------------------------------------------------------ C03

fn c03_truncate(c: &mut Ctx) -> R {
    let max_total = c.by(45_000, 200_000, 400_000);
    let recs = gen_records(c, c.by(5, 14, 24), max_total, false);
    let bytes = write_all(c, &recs, Split::Whole, 0)?;
    let (rf, lay) = refs::log_file(&recs);
    ensure!(rf.len() == bytes.len(), "written log has {} bytes, {} expected", bytes.len(), rf.len());
    // crash points: around every fragment and record end, and some anywhere
    let mut cuts: Vec<usize> = vec![0, bytes.len()];
    for l in &lay {
        for f in &l.frags {
            for d in [0usize, 1, 3, 4, 6, 7, 8] {
                cuts.push(f.0 + d);
            }
            if f.1 > 0 {
                cuts.push(f.0 + HEADER + c.rng.below(f.1));
            }
        }
        cuts.push(l.end);
        cuts.push(l.end.saturating_sub(1));
        cuts.push(l.end + 1);
    }
    for _ in 0..8 {
        cuts.push(c.rng.below(bytes.len() + 1));
    }
    cuts.retain(|x| *x <= bytes.len());
    cuts.sort();
    cuts.dedup();
    let most = c.by(6, 60, 400);
    if cuts.len() > most {
        c.rng.shuffle(&mut cuts);
        cuts.truncate(most);
    }
    for cut in cuts {
        let whole = lay.iter().filter(|l| l.end <= cut).count();
        let checksum = c.rng.chance(2, 3);
        let split = if c.rng.chance(1, 4) { Split::Random } else { Split::Whole };
        let items = read_all(c, &bytes[..cut], split, 0, checksum, 0).map_err(|e| format!("cut at {} of {}: {}", cut, bytes.len(), e))?;
        let got = only_records(items).map_err(|e| format!("cut at {} of {}: {}", cut, bytes.len(), e))?;
        same_records(&got, &recs[..whole]).map_err(|e| format!("cut at {} of {}: {}", cut, bytes.len(), e))?;
        c.ev("crash points", 1);
        if whole < recs.len() && lay[whole].start < cut {
            c.ev("crash points inside a record", 1);
            if lay[whole].frags.len() > 1 {
                c.ev("crash points inside a multi-fragment record", 1);
            }
        }
    }
    Ok(())
}

/// Crash in the writer's history: every prefix of the byte stream the writer produced with small writes.
fn c03_every_byte(c: &mut Ctx) -> R {
    // a window of cuts around one block boundary, every byte
    let left = c.rng.range(0, 24);
    let len2 = *c.rng.pick(&[0usize, 5, 30, BLOCK - HEADER, BLOCK + 10]);
    let recs = vec![c.rng.bytes(BLOCK - HEADER - left), c.rng.bytes(len2), c.rng.bytes(4)];
    c.mix(left as u64 * 1_000_003 + len2 as u64);
    c.nontrivial = true;
    c.sample = format!("every cut near the block end, {} bytes left, then {} bytes", left, len2);
    let bytes = write_all(c, &recs, Split::Whole, 0)?;
    let (_, lay) = refs::log_file(&recs);
    let lo = BLOCK - 40;
    let hi = (BLOCK + 60).min(bytes.len());
    for cut in lo..=hi {
        let whole = lay.iter().filter(|l| l.end <= cut).count();
        let items = read_all(c, &bytes[..cut], Split::Whole, 0, true, 0)?;
        let got = only_records(items).map_err(|e| format!("cut at {}: {}", cut, e))?;
        same_records(&got, &recs[..whole]).map_err(|e| format!("cut at {}: {}", cut, e))?;
        c.ev("crash points", 1);
    }
    Ok(())
}

/// a record of many blocks, cut within each of its fragments
fn c03_long(c: &mut Ctx) -> R {
    let blocks = c.rng.range(3, c.by(4, 12, 40));
    let (a, b) = (c.rng.below(BLOCK), c.rng.below(300));
    let len = blocks * BLOCK - c.rng.below(BLOCK);
    let recs = vec![c.rng.bytes(a), c.rng.bytes(len), c.rng.bytes(b)];
    c.mix((a + len * BLOCK) as u64);
    c.nontrivial = true;
    c.sample = format!("a record of {} bytes behind {}", len, a);
    let bytes = write_all(c, &recs, Split::Whole, 0)?;
    let (_, lay) = refs::log_file(&recs);
    let mut cuts = vec![];
    for f in &lay[1].frags {
        cuts.push(f.0 + c.rng.below(HEADER + 1));
        cuts.push(f.0 + HEADER + c.rng.below(f.1 + 1));
    }
    for cut in cuts {
        let whole = lay.iter().filter(|l| l.end <= cut).count();
        let split = if c.rng.chance(1, 4) { Split::Random } else { Split::Whole };
        let checksum = c.rng.chance(1, 2);
        let items = read_all(c, &bytes[..cut], split, 0, checksum, 0)?;
        let got = only_records(items).map_err(|e| format!("cut at {}: {}", cut, e))?;
        same_records(&got, &recs[..whole]).map_err(|e| format!("cut at {}: {}", cut, e))?;
        c.ev("crash points", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

fn damage(c: &mut Ctx, bytes: &mut Vec<u8>, lay: &[refs::Rec]) -> &'static str {
    let len = bytes.len();
    if len == 0 {
        return "none";
    }
    match c.rng.below(8) {
        0 => {
            for _ in 0..c.rng.range(1, 3) {
                let p = c.rng.below(len);
                bytes[p] ^= 1 << c.rng.below(8);
            }
            "bit flips"
        }
        1 => {
            let p = c.rng.below(len);
            let n = c.rng.range(1, 64).min(len - p);
            for b in &mut bytes[p..p + n] {
                *b = 0;
            }
            "short zeroed range"
        }
        2 => {
            let p = c.rng.below(len);
            let n = c.rng.range(1, 2 * BLOCK).min(len - p);
            let z = c.rng.chance(1, 2);
            let g = c.rng.bytes(n);
            for (i, b) in bytes[p..p + n].iter_mut().enumerate() {
                *b = if z { 0 } else { g[i] };
            }
            "long overwritten range"
        }
        3 => {
            // one whole block
            let b = c.rng.below((len + BLOCK - 1) / BLOCK);
            let (s, e) = (b * BLOCK, ((b + 1) * BLOCK).min(len));
            let fill = *c.rng.pick(&[0u8, 0xff, 0x01]);
            for x in &mut bytes[s..e] {
                *x = fill;
            }
            "whole block"
        }
        4 | 5 => {
            // the header of a fragment
            let l = c.rng.pick(lay).clone();
            let f = *c.rng.pick(&l.frags);
            match c.rng.below(4) {
                0 => bytes[f.0 + c.rng.below(4)] ^= 1 << c.rng.below(8),
                1 => {
                    let n = *c.rng.pick(&[0usize, 1, f.1.wrapping_sub(1), f.1 + 1, f.1 / 2, 32761, 32762, 65535]);
                    bytes[f.0 + 4] = n as u8;
                    bytes[f.0 + 5] = (n >> 8) as u8;
                }
                2 => bytes[f.0 + 6] = *c.rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 128, 255]),
                _ => {
                    for i in 0..7 {
                        bytes[f.0 + i] = 0;
                    }
                }
            }
            "fragment header"
        }
        6 => {
            // payload byte of a fragment
            let l = c.rng.pick(lay).clone();
            let f = *c.rng.pick(&l.frags);
            if f.1 > 0 {
                let p = f.0 + HEADER + c.rng.below(f.1);
                bytes[p] = bytes[p].wrapping_add(1 + c.rng.below(255) as u8);
            }
            "payload byte"
        }
        _ => {
            // torn sector: 512 bytes of old content
            let s = c.rng.below((len + 511) / 512) * 512;
            let e = (s + 512).min(len);
            let g = c.rng.bytes(e - s);
            bytes[s..e].copy_from_slice(&g);
            "sector"
        }
    }
}

fn c04_damage(c: &mut Ctx) -> R {
    let max_total = c.by(60_000, 250_000, 700_000);
    let mut recs = gen_records(c, c.by(5, 20, 50), max_total, true);
    if recs.is_empty() {
        recs.push(vec![1; 9]);
    }
    for (i, r) in recs.iter_mut().enumerate() {
        r[..4].copy_from_slice(&(i as u32).to_le_bytes());
    }
    // written by the code under test, so that an agreement of a wrong writer and a wrong reader does not hide here
    let orig = write_all(c, &recs, Split::Whole, 0)?;
    let (rf, lay) = refs::log_file(&recs);
    ensure!(orig == rf, "the writer does not produce the LevelDB log format");
    let mut bytes = orig.clone();
    let mut kinds = vec![];
    for _ in 0..*c.rng.pick(&[1usize, 1, 1, 2, 4]) {
        kinds.push(damage(c, &mut bytes, &lay));
    }
    for k in &kinds {
        c.ev(
            match *k {
                "bit flips" => "damage: bit flips",
                "short zeroed range" => "damage: short zeroed range",
                "long overwritten range" => "damage: long overwritten range",
                "whole block" => "damage: whole block",
                "fragment header" => "damage: fragment header",
                "payload byte" => "damage: payload byte",
                _ => "damage: sector",
            },
            1,
        );
    }
    c04_judge(c, &recs, &lay, &orig, &bytes, &format!("{:?}", kinds))
}

/// Records that hold images of log records, as a log that is itself stored in a log does; a damaged length
/// or checksum must not lead the reader into them.
fn c04_nested(c: &mut Ctx) -> R {
    let n = c.rng.range(1, c.by(4, 12, 30));
    let mut recs: Vec<Vec<u8>> = vec![];
    // payload offset of the first image and the distance of images
    let mut steps = vec![];
    for i in 0..n {
        if c.rng.chance(1, 4) {
            let l = c.rng.range(4, 3000);
            let mut r = c.rng.bytes(l);
            r[..4].copy_from_slice(&(i as u32).to_le_bytes());
            recs.push(r);
            steps.push((0, 1));
            continue;
        }
        let top = *c.rng.pick(&[8usize, 60, 500, 3000]);
        let inner = c.rng.range(4, top);
        let pad = *c.rng.pick(&[0usize, 0, 4, 7, 100]);
        let mut r = c.rng.bytes(pad);
        let room = c.by(3000, 40_000, 90_000) / (inner + HEADER);
        let images = c.rng.range(2, room.clamp(3, 60));
        for j in 0..images {
            let mut p = c.rng.bytes(inner);
            p[..4].copy_from_slice(&((1u32 << 31) + (i * 1000 + j) as u32).to_le_bytes());
            let t = if c.rng.chance(3, 4) { 1 } else { [2u8, 4][j % 2] };
            push_fragment(&mut r, t, &p);
        }
        c.ev("record images in payloads", images as u64);
        recs.push(r);
        steps.push((pad, inner + HEADER));
    }
    let orig = write_all(c, &recs, Split::Whole, 0)?;
    let (rf, lay) = refs::log_file(&recs);
    ensure!(orig == rf, "the writer does not produce the LevelDB log format");
    let mut bytes = orig.clone();
    let mut kinds = vec![];
    for _ in 0..*c.rng.pick(&[1usize, 1, 2, 3]) {
        let i = c.rng.below(n);
        let (pad, step) = steps[i];
        let k = c.rng.below(lay[i].frags.len());
        let before: usize = lay[i].frags[..k].iter().map(|f| f.1).sum();
        let f = lay[i].frags[k];
        match c.rng.below(5) {
            0 => {
                bytes[f.0 + c.rng.below(4)] ^= 1 << c.rng.below(8);
                kinds.push("checksum");
            }
            1 => {
                bytes[f.0 + 6] = *c.rng.pick(&[0u8, 1, 2, 3, 4, 5, 128]);
                kinds.push("type");
            }
            2 => {
                // no payload: the next header would be the first image
                bytes[f.0 + 4] = 0;
                bytes[f.0 + 5] = 0;
                if c.rng.chance(1, 2) {
                    bytes[f.0 + 6] = *c.rng.pick(&[0u8, 1, 2, 3, 4]);
                }
                kinds.push("length 0");
            }
            _ => {
                // the length ends where an image starts
                let first = (pad + step - before % step) % step;
                if f.1 > first {
                    let len = first + step * c.rng.below((f.1 - first + step - 1) / step);
                    bytes[f.0 + 4] = len as u8;
                    bytes[f.0 + 5] = (len >> 8) as u8;
                    c.ev("lengths cut at an image", 1);
                }
                kinds.push("length");
            }
        }
    }
    c04_judge(c, &recs, &lay, &orig, &bytes, &format!("images inside, {:?}", kinds))
}

fn c04_judge(c: &mut Ctx, recs: &[Vec<u8>], lay: &[refs::Rec], orig: &[u8], bytes: &[u8], kinds: &str) -> R {
    let nblocks = (bytes.len() + BLOCK - 1) / BLOCK;
    let dirty: Vec<bool> = (0..nblocks).map(|b| bytes[b * BLOCK..((b + 1) * BLOCK).min(bytes.len())] != orig[b * BLOCK..((b + 1) * BLOCK).min(bytes.len())]).collect();
    let must: Vec<usize> = (0..recs.len()).filter(|i| lay[*i].frags.iter().all(|f| !dirty[f.0 / BLOCK])).collect();
    c.sample = format!("{} records in {} blocks, {}, damaged blocks {:?}", recs.len(), nblocks, kinds, dirty.iter().enumerate().filter(|(_, d)| **d).map(|(i, _)| i).collect::<Vec<_>>());
    c.nontrivial = dirty.iter().any(|d| *d);
    for b in bytes.chunks(997) {
        c.mix(hash_bytes(b));
    }
    let split = if c.rng.chance(1, 4) { Split::Random } else { Split::Whole };
    let items = read_all(c, bytes, split, 0, true, 0)?;
    let ids: std::collections::HashMap<&Vec<u8>, usize> = recs.iter().enumerate().map(|(i, r)| (r, i)).collect();
    // damage that looks like space allocated in advance is passed over without a report: a header whose length
    // and type became zero
    let blank: Vec<bool> = (0..nblocks)
        .map(|b| {
            let (s, e) = (b * BLOCK, ((b + 1) * BLOCK).min(bytes.len()));
            (s..e.saturating_sub(2)).any(|i| bytes[i..i + 3] == [0, 0, 0] && bytes[i..i + 3] != orig[i..i + 3])
        })
        .collect();
    let silent = |from: usize, to: usize, bads: usize| -> R {
        if from >= to || bads > 0 {
            return Ok(());
        }
        let blocks: BTreeSet<usize> = lay[from..to].iter().flat_map(|r| r.frags.iter().map(|f| f.0 / BLOCK)).collect();
        // a damaged length in the last block looks like an append that was cut off
        if blocks.iter().any(|b| blank[*b]) || to == recs.len() && dirty[nblocks - 1] {
            return Ok(());
        }
        Err(format!("records {}..{} are lost and no corruption is reported in their place; they lie in blocks {:?}", from, to, blocks))
    };
    let mut last: Option<usize> = None;
    let mut bads = 0;
    let mut got = vec![false; recs.len()];
    for it in &items {
        match it {
            Item::Rec(r) => {
                let id = match ids.get(r) {
                    Some(id) => *id,
                    None => return Err(format!("a record of {} bytes is delivered that was never written: {}", r.len(), hex(r))),
                };
                ensure!(last.map_or(true, |l| l < id), "record {} is delivered after record {:?}", id, last);
                silent(last.map_or(0, |l| l + 1), id, bads)?;
                bads = 0;
                last = Some(id);
                got[id] = true;
                c.ev("records delivered", 1);
            }
            Item::Bad(e) => {
                bads += 1;
                ensure!(e.is_corruption(), "damage is reported as something else than corruption: {:?}", e);
                c.ev("corruptions reported", 1);
            }
        }
    }
    for i in &must {
        ensure!(got[*i], "record {} lies in undamaged blocks only ({:?}) but is not delivered; damaged blocks {:?}", i, lay[*i].frags.iter().map(|f| f.0 / BLOCK).collect::<Vec<_>>(), dirty.iter().enumerate().filter(|(_, d)| **d).map(|(i, _)| i).collect::<Vec<_>>());
    }
    c.ev("records in undamaged blocks", must.len() as u64);
    silent(last.map_or(0, |l| l + 1), recs.len(), bads)?;
    let lost = got.iter().filter(|g| !**g).count();
    c.ev("records lost to damage", lost as u64);
    Ok(())
}

/// stands for the rest of a block left empty; no type a fragment is given
const BLANK: u8 = 100;

/// Fragments with correct checksums in any order: only complete chains are records.
fn c04_fragments(c: &mut Ctx) -> R {
    let n = c.rng.range(1, c.by(12, 40, 80));
    let mut file: Vec<u8> = vec![];
    // (type, payload, file offset)
    let mut frags: Vec<(u8, Vec<u8>)> = vec![];
    for i in 0..n {
        let t = *c.rng.pick(&[1u8, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 0, 5, 7, 200, 255]);
        let max = c.by(60, 12_000, 12_000);
        let len = *c.rng.pick(&[4usize, 20, 300, max]);
        let mut len = c.rng.range(4, len.max(4));
        if c.rng.chance(1, 8) {
            len = 0;
            c.ev("empty fragments", 1);
        } else if c.rng.chance(1, 6) {
            len = c.rng.range(1, 3);
        }
        let mut room = BLOCK - file.len() % BLOCK;
        if c.rng.chance(1, 20) && room >= HEADER {
            // space allocated in advance and never written: the rest of the block is empty
            file.extend(std::iter::repeat(0).take(room));
            frags.push((BLANK, vec![]));
            room = BLOCK;
            c.ev("blocks left empty", 1);
        }
        if room < HEADER + len {
            if room < HEADER {
                file.extend(std::iter::repeat(0).take(room));
            } else {
                // fill the block so that no gap interrupts a chain
                let p = c.rng.bytes(room - HEADER);
                push_fragment(&mut file, 1, &p);
                frags.push((1, p));
            }
        }
        let t = if len == 0 && t == 0 { 2 } else { t };
        let mut p = c.rng.bytes(len);
        if len > 0 {
            let l = len.min(4);
            p[..l].copy_from_slice(&(i as u32).to_le_bytes()[..l]);
        }
        push_fragment(&mut file, t, &p);
        frags.push((t, p));
        c.mix(t as u64);
    }
    c.nontrivial = n > 2;
    c.sample = format!("fragment types {:?}", frags.iter().map(|f| f.0).take(40).collect::<Vec<_>>());
    let mut want: Vec<Vec<u8>> = vec![];
    // whether something out of order stands before each record, and behind the last
    let mut odd = vec![false];
    let mut chain: Option<Vec<u8>> = None;
    for (t, p) in &frags {
        let gap = odd.last_mut().unwrap();
        match t {
            1 | 2 => {
                *gap |= chain.as_ref().map_or(false, |x| !x.is_empty());
                chain = if *t == 2 { Some(p.clone()) } else { None };
                if *t == 1 {
                    want.push(p.clone());
                    odd.push(false);
                }
            }
            3 => match chain.as_mut() {
                Some(x) => x.extend_from_slice(p),
                None => *gap = true,
            },
            4 => match chain.take() {
                Some(mut x) => {
                    x.extend_from_slice(p);
                    want.push(x);
                    odd.push(false);
                    c.ev("complete chains", 1);
                }
                None => *gap = true,
            },
            &BLANK => {
                *gap |= chain.take().is_some();
            }
            _ => {
                chain = None;
                *gap = true;
                c.ev("fragments of unknown type", 1);
            }
        }
    }
    let checksum = c.rng.chance(1, 2);
    let items = read_all(c, &file, Split::Whole, 0, checksum, 0)?;
    let mut got = vec![];
    let mut bad = vec![false];
    for it in items {
        match it {
            Item::Rec(r) => {
                got.push(r);
                bad.push(false);
            }
            Item::Bad(e) => {
                *bad.last_mut().unwrap() = true;
                ensure!(e.is_corruption(), "impossible fragment order is reported as something else than corruption: {:?}", e);
                c.ev("corruptions reported", 1);
            }
        }
    }
    same_records(&got, &want)?;
    for (i, (b, o)) in bad.iter().zip(&odd).enumerate() {
        ensure!(b == o, "before record {} of {} there is {} and corruption is {}", i, want.len(), if *o { "a fragment out of order" } else { "nothing wrong" }, if *b { "reported" } else { "not reported" });
    }
    Ok(())
}

fn push_fragment(file: &mut Vec<u8>, t: u8, p: &[u8]) {
    let crc = refs::mask(refs::crc32c(refs::crc32c(0, &[t]), p));
    file.extend_from_slice(&crc.to_le_bytes());
    file.extend_from_slice(&(p.len() as u16).to_le_bytes());
    file.push(t);
    file.extend_from_slice(p);
}

fn c04_garbage(c: &mut Ctx) -> R {
    let len = c.rng.range(0, c.by(600, 100_000, 200_000));
    let mut bytes = match c.rng.below(3) {
        0 => c.rng.bytes(len),
        1 => {
            // small numbers: many plausible headers
            (0..len).map(|_| *c.rng.pick(&[0u8, 0, 0, 1, 2, 3, 4, 5, 7])).collect()
        }
        _ => {
            let mut v = vec![];
            while v.len() < len {
                let t = c.rng.below(6) as u8;
                let n = *c.rng.pick(&[0usize, 1, 10, 300, 40_000]);
                let m = c.rng.below(n + 1);
                let junk = c.rng.u32();
                v.extend_from_slice(&junk.to_le_bytes());
                v.extend_from_slice(&(n as u16).to_le_bytes());
                v.push(t);
                v.extend(c.rng.bytes(m));
            }
            v
        }
    };
    if c.rng.chance(1, 4) {
        let n = bytes.len() / BLOCK * BLOCK;
        bytes.truncate(n);
    }
    c.mix(hash_bytes(&bytes[..bytes.len().min(4000)]));
    c.nontrivial = bytes.len() > 7;
    c.sample = format!("{} bytes of garbage: {}", bytes.len(), hex(&bytes));
    let items = read_all(c, &bytes, Split::Whole, 0, true, 0)?;
    for it in &items {
        match it {
            Item::Rec(r) => return Err(format!("garbage is delivered as a record of {} bytes although checksums are verified", r.len())),
            Item::Bad(e) => ensure!(e.is_corruption(), "garbage is reported as something else than corruption: {:?}", e),
        }
    }
    c.ev("corruptions reported", items.len() as u64);
    // without checksums anything may be delivered, but nothing longer than the file
    let items = read_all(c, &bytes, Split::Whole, 0, false, 0)?;
    let mut sum = 0;
    for it in &items {
        match it {
            Item::Rec(r) => sum += r.len(),
            Item::Bad(e) => ensure!(e.is_corruption(), "garbage is reported as something else than corruption: {:?}", e),
        }
    }
    ensure!(sum <= bytes.len(), "{} bytes delivered from a file of {} bytes", sum, bytes.len());
    c.ev("bytes delivered without checksums", sum as u64);
    let start = c.rng.below(bytes.len() + 10);
    let items = read_all(c, &bytes, Split::Whole, 0, true, start)?;
    ensure!(items.iter().all(|i| matches!(i, Item::Bad(_))), "garbage is delivered as a record although checksums are verified");
    c.ev("garbage logs", 1);
    Ok(())
}

/// Without checksums a record whose payload or checksum bytes alone are hit is handed out as it is found.
fn c04_unverified(c: &mut Ctx) -> R {
    let recs = gen_records(c, c.by(4, 15, 40), c.by(40_000, 150_000, 500_000), true);
    let (mut bytes, lay) = refs::log_file(&recs);
    c.mix(hash_bytes(&bytes));
    let mut want = recs.clone();
    for _ in 0..c.rng.range(1, 12) {
        if lay.is_empty() {
            break;
        }
        let i = c.rng.below(lay.len());
        let mut at = 0;
        let j = c.rng.below(lay[i].frags.len());
        for f in &lay[i].frags[..j] {
            at += f.1;
        }
        let f = lay[i].frags[j];
        let x = 1 + c.rng.below(255) as u8;
        if f.1 == 0 || c.rng.chance(1, 2) {
            bytes[f.0 + c.rng.below(4)] ^= x;
            c.ev("checksums hit", 1);
        } else {
            let k = c.rng.below(f.1);
            bytes[f.0 + HEADER + k] ^= x;
            want[i][at + k] ^= x;
            c.ev("payloads hit", 1);
        }
    }
    c.sample = format!("{} records, {} bytes, read without checksums", recs.len(), bytes.len());
    c.nontrivial = !recs.is_empty();
    let split = gen_split(c, bytes.len());
    let items = read_all(c, &bytes, split, 0, false, 0)?;
    let mut got = vec![];
    for it in items {
        match it {
            Item::Rec(r) => got.push(r),
            Item::Bad(e) => return Err(format!("an intact fragment is refused although checksums are off: {:?}", e)),
        }
    }
    same_records(&got, &want).map_err(|e| format!("read without checksums: {}", e))?;
    c.ev("records delivered unverified", got.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------ C05

/// every kind but `Interrupted`, which callers of `Read` and `Write` retry
const FAULTS: [ErrorKind; 38] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::AlreadyExists,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::Unsupported,
    ErrorKind::FileTooLarge,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::ResourceBusy,
    ErrorKind::Deadlock,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::TooManyLinks,
    ErrorKind::IsADirectory,
    ErrorKind::NotADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::CrossesDevices,
    ErrorKind::InvalidFilename,
];

/// What a file says when it fails: an error with a message, one that is nothing but a kind, or a
/// number of the operating system's.
#[derive(Clone, Copy, Debug)]
enum Fault {
    Message(ErrorKind),
    Kind(ErrorKind),
    Os(i32),
}

impl Fault {
    fn error(&self, message: &'static str) -> Error {
        match *self {
            Fault::Message(k) => Error::new(k, message),
            Fault::Kind(k) => Error::from(k),
            Fault::Os(n) => Error::from_raw_os_error(n),
        }
    }

    fn some(r: &mut Rng) -> Fault {
        match r.below(4) {
            // the whole range of Linux, without EINTR
            0 => Fault::Os(match r.range(1, 133) { 4 => 5, n => n as i32 }),
            // what a disk says: EIO, EAGAIN, ENOMEM, EFBIG, ENOSPC, EROFS, EDQUOT, EBADF, ESTALE
            1 => Fault::Os(*r.pick(&[5, 11, 12, 27, 28, 30, 122, 9, 116])),
            2 => Fault::Kind(*r.pick(&FAULTS)),
            _ => Fault::Message(*r.pick(&FAULTS)),
        }
    }
}

fn c05_write_faults(c: &mut Ctx) -> R {
    let recs = gen_records(c, c.by(5, 14, 30), c.by(45_000, 150_000, 300_000), false);
    let (want, lay) = refs::log_file(&recs);
    let split = gen_split(c, want.len());
    let intr = *c.rng.pick(&[0usize, 0, 20]);
    // how many calls does a healthy run make
    let seed = c.rng.next();
    let dry = Sink::new(Rng::new(seed), split, intr);
    let mut w = LogWriter::new(Box::new(dry.clone()));
    for r in &recs {
        if let Err(e) = w.add_record(Slice::from_buf(r)) {
            return Err(format!("add_record on a healthy file fails: {}", Status::to_string(e)));
        }
    }
    drop(w);
    let calls = dry.0.lock().unwrap().calls;
    let kind = *c.rng.pick(&[WFault::WriteErr, WFault::WriteErr, WFault::PartialThenErr, WFault::WriteZero, WFault::FlushErr, WFault::FlushErr]);
    let at = 1 + c.rng.below(calls as usize + 1) as u64;
    let sink = Sink::new(Rng::new(seed), split, intr);
    let how = Fault::some(&mut c.rng);
    {
        let mut s = sink.0.lock().unwrap();
        s.fault_at = Some((at, kind));
        s.fault_kind = how;
    }
    c.sample = format!("{:?} ({:?}) at call {} of {}, {} records", kind, how, at, calls, recs.len());
    c.mix(at * 8 + kind as u64);
    let mut w = LogWriter::new(Box::new(sink.clone()));
    let mut failed = None;
    for (i, r) in recs.iter().enumerate() {
        let before = sink.0.lock().unwrap().fault_hits;
        let res = w.add_record(Slice::from_buf(r));
        let s = sink.0.lock().unwrap();
        let hit = s.fault_hits > before;
        match res {
            Ok(()) => {
                ensure!(!hit, "add_record {} returns Ok although the file reported {:?} during the call", i, kind);
                ensure!(s.bytes.len() >= lay[i].end && s.bytes[..lay[i].end] == want[..lay[i].end], "record {} is acknowledged, but the file does not hold it: {} bytes in the file, the record ends at {}", i, s.bytes.len(), lay[i].end);
                ensure!(s.flushed >= lay[i].end, "record {} is acknowledged before it was flushed: flushed up to {}, the record ends at {}", i, s.flushed, lay[i].end);
                c.ev("acknowledged records", 1);
            }
            Err(e) => {
                ensure!(hit, "add_record {} fails although the file reported no fault: {}", i, Status::to_string(e));
                ensure!(e.is_io_error(), "a file fault is reported as something else than an I/O error: {:?}", e);
                c.ev("write faults reported", 1);
                c.nontrivial = true;
                failed = Some(i);
                break;
            }
        }
    }
    // A fault that leaves no torn fragment costs nothing but the append it hit: what is acknowledged
    // afterwards is in the file like what was before.
    if let Some(failed) = failed {
        let at = sink.bytes().len();
        if lay[failed].frags.iter().any(|f| f.0 == at || f.0 + HEADER + f.1 == at) || lay[failed].start == at || failed > 0 && lay[failed - 1].end == at {
            for (i, r) in recs.iter().enumerate().skip(failed + 1) {
                if let Err(e) = w.add_record(Slice::from_buf(r)) {
                    return Err(format!("add_record {} fails, long after a passing fault in {}: {}", i, failed, Status::to_string(e)));
                }
                c.ev("records acknowledged after a fault", 1);
            }
            let bytes = sink.bytes();
            let items = read_all(c, &bytes, Split::Whole, 0, true, 0)?;
            let got: Vec<Vec<u8>> = items.into_iter().filter_map(|i| match i { Item::Rec(r) => Some(r), Item::Bad(_) => None }).collect();
            let with: Vec<Vec<u8>> = recs.clone();
            let without: Vec<Vec<u8>> = recs.iter().enumerate().filter(|(i, _)| *i != failed).map(|(_, r)| r.clone()).collect();
            if got != with {
                same_records(&got, &without).map_err(|e| format!("after {:?} in append {} of {}, and {} more appends that succeeded: {}", kind, failed, recs.len(), recs.len() - failed - 1, e))?;
            }
        }
    }
    // what was acknowledged before the fault is readable
    let s = sink.0.lock().unwrap();
    c.ev("faults injected", s.fault_hits);
    c.ev("interrupted writes", s.interrupts);
    c.ev("short writes", s.shorts);
    Ok(())
}

fn c05_read_faults(c: &mut Ctx) -> R {
    let recs = gen_records(c, c.by(5, 14, 30), c.by(45_000, 200_000, 400_000), false);
    let (bytes, _) = refs::log_file(&recs);
    let split = gen_split(c, bytes.len());
    let seed = c.rng.next();
    let data = Arc::new(bytes.clone());
    let dry = Source::new(data.clone(), Rng::new(seed), split, 0);
    let st = dry.stats.clone();
    let mut r = LogReader::new(Box::new(dry), true, 0);
    let _ = drain(&mut r, bytes.len())?;
    let calls = st.lock().unwrap().reads;
    let mut src = Source::new(data, Rng::new(seed), split, 0);
    let at = 1 + c.rng.below(calls as usize) as u64;
    src.fault_at = Some(at);
    src.fault_kind = Fault::some(&mut c.rng);
    src.lasting = c.rng.chance(1, 3);
    let st = src.stats.clone();
    c.sample = format!("read fault {:?} at call {} of {}, {} records", src.fault_kind, at, calls, recs.len());
    c.mix(at);
    let checksum = c.rng.chance(1, 2);
    let mut r = LogReader::new(Box::new(src), checksum, 0);
    let mut got = vec![];
    let mut reported = false;
    let limit = recs.len() + 8;
    for _ in 0..limit {
        let before = st.lock().unwrap().faults;
        let res = r.read_next();
        let hit = st.lock().unwrap().faults > before;
        match res {
            Ok(Some(s)) => {
                ensure!(!hit, "a read fault during the call is swallowed and a record is delivered");
                got.push(s.as_ref().to_vec());
            }
            Ok(None) => {
                ensure!(!hit, "a read fault is turned into the end of the log after {} of {} records", got.len(), recs.len());
                break;
            }
            Err(e) => {
                ensure!(hit || reported, "the reader fails although the file reported no fault: {}", Status::to_string(e));
                if hit {
                    ensure!(e.is_io_error(), "a file fault is reported as something else than an I/O error: {:?}", e);
                    c.ev("read faults reported", 1);
                    c.nontrivial = true;
                }
                reported = true;
            }
        }
    }
    ensure!(st.lock().unwrap().faults == 0 || reported, "a read fault was never reported");
    // delivered records are written ones, in order
    let mut k = 0;
    for g in &got {
        while k < recs.len() && &recs[k] != g {
            k += 1;
        }
        ensure!(k < recs.len(), "a record is delivered that was never written: {} bytes", g.len());
        k += 1;
        c.ev("records delivered", 1);
    }
    if !reported {
        same_records(&got, &recs)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

fn c06_offset(c: &mut Ctx) -> R {
    let recs = gen_records(c, c.by(5, 18, 40), c.by(45_000, 300_000, 600_000), false);
    let bytes = write_all(c, &recs, Split::Whole, 0)?;
    let (rf, lay) = refs::log_file(&recs);
    ensure!(bytes == rf, "the writer does not produce the LevelDB log format");
    let mut offs = vec![0usize, 1, bytes.len(), bytes.len() + 1, bytes.len() + 3 * BLOCK + 11];
    for l in &lay {
        for f in &l.frags {
            offs.extend([f.0, f.0 + 1, f.0.saturating_sub(1), f.0 + 7]);
        }
        offs.extend([l.end, l.end.saturating_sub(1), l.end + 1]);
    }
    for b in 0..=bytes.len() / BLOCK {
        for d in 0..12usize {
            offs.push((b * BLOCK + d).saturating_sub(8));
        }
    }
    for _ in 0..6 {
        offs.push(c.rng.below(bytes.len() + 1));
    }
    offs.sort();
    offs.dedup();
    let most = c.by(5, 50, 300);
    if offs.len() > most {
        c.rng.shuffle(&mut offs);
        offs.truncate(most);
    }
    for o in offs {
        let want: Vec<Vec<u8>> = lay.iter().enumerate().filter(|(_, l)| l.start >= o).map(|(i, _)| recs[i].clone()).collect();
        let checksum = c.rng.chance(2, 3);
        let split = if c.rng.chance(1, 4) { Split::Random } else { Split::Whole };
        let items = read_all(c, &bytes, split, 0, checksum, o).map_err(|e| format!("initial offset {}: {}", o, e))?;
        let got = only_records(items).map_err(|e| format!("initial offset {}: {}", o, e))?;
        same_records(&got, &want).map_err(|e| format!("initial offset {} (block offset {}): {}", o, o % BLOCK, e))?;
        c.ev("offsets tried", 1);
        if lay.iter().any(|l| l.start < o && o < l.end) {
            c.ev("offsets inside a record", 1);
        }
        if lay.iter().any(|l| l.frags.len() > 1 && l.start < o && o <= l.frags[l.frags.len() - 1].0) {
            c.ev("offsets inside a multi-fragment record", 1);
        }
        if want.len() < recs.len() {
            c.ev("records skipped", (recs.len() - want.len()) as u64);
        }
    }
    Ok(())
}

/// A log of `blocks` blocks that exists only where it is read. Groups of four blocks: two records;
/// a record and the start of a long one; its middle; its end and a record with a trailer behind.
struct FarLog {
    blocks: u64,
    pos: u64,
    salt: u64,
    have: Option<(u64, Vec<u8>)>,
    reads: u64,
}

impl FarLog {
    fn payload(salt: u64, block: u64, which: u64, len: usize) -> Vec<u8> {
        let mut v = Rng::new(mix64(salt ^ block.wrapping_mul(8) ^ which)).bytes(len);
        v[..8].copy_from_slice(&block.to_le_bytes());
        v
    }

    /// the fragments of one block: type and payload
    fn fragments(salt: u64, k: u64) -> Vec<(u8, Vec<u8>)> {
        let p = |which, len| FarLog::payload(salt, k, which, len);
        match k % 4 {
            0 => vec![(1, p(0, 100)), (1, p(1, BLOCK - 2 * HEADER - 100))],
            1 => vec![(1, p(0, 1000)), (2, p(1, BLOCK - 2 * HEADER - 1000))],
            2 => vec![(3, p(0, BLOCK - HEADER))],
            _ => vec![(4, p(0, 500)), (1, p(1, BLOCK - 2 * HEADER - 500 - 3))],
        }
    }

    fn block(salt: u64, k: u64) -> Vec<u8> {
        let mut v = vec![];
        for (t, p) in FarLog::fragments(salt, k) {
            push_fragment(&mut v, t, &p);
        }
        v.resize(BLOCK, 0);
        v
    }

    /// the records of the blocks from `from` on, with their first byte's position
    fn records(salt: u64, from: u64, blocks: u64) -> Vec<(u64, Vec<u8>)> {
        let mut out: Vec<(u64, Vec<u8>)> = vec![];
        let mut open: Option<(u64, Vec<u8>)> = None;
        for k in from..blocks {
            let mut at = k * BLOCK as u64;
            for (t, p) in FarLog::fragments(salt, k) {
                let len = p.len();
                match t {
                    1 => out.push((at, p)),
                    2 => open = Some((at, p)),
                    3 => {
                        if let Some(o) = &mut open {
                            o.1.extend(p);
                        }
                    }
                    _ => {
                        if let Some(mut o) = open.take() {
                            o.1.extend(p);
                            out.push(o);
                        }
                    }
                }
                at += (HEADER + len) as u64;
            }
        }
        out
    }
}

impl Read for FarLog {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.reads += 1;
        if self.reads > 2_000_000 {
            std::panic::panic_any(StepLimit("the reader keeps calling read".into()));
        }
        let k = self.pos / BLOCK as u64;
        if k >= self.blocks || buf.is_empty() {
            return Ok(0);
        }
        if self.have.as_ref().map(|h| h.0) != Some(k) {
            self.have = Some((k, FarLog::block(self.salt, k)));
        }
        let b = &self.have.as_ref().unwrap().1;
        let o = (self.pos % BLOCK as u64) as usize;
        let n = buf.len().min(BLOCK - o);
        buf[..n].copy_from_slice(&b[o..o + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for FarLog {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
            SeekFrom::End(x) => (self.blocks * BLOCK as u64) as i128 + x as i128,
        };
        if n < 0 || n > i64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

impl SeekableReader for FarLog {}

/// Logs of 2 GiB to 2^45 bytes, of which only the end is ever read.
fn c06_far(c: &mut Ctx) -> R {
    let salt = c.rng.next();
    let edge = 1u64 << *c.rng.pick(&[31u32, 32, 32, 33, 40, 45]);
    let blocks = edge / BLOCK as u64 + c.rng.below(c.by(3, 8, 16)) as u64 - c.by(1, 3, 6) as u64 + 4;
    let size = blocks * BLOCK as u64;
    let from = blocks - c.by(5, 12, 24) as u64;
    let all = FarLog::records(salt, (from - 4) / 4 * 4, blocks);
    let starts: Vec<u64> = all.iter().map(|r| r.0).filter(|s| *s > from * BLOCK as u64).collect();
    c.fp = salt;
    c.nontrivial = true;
    c.sample = format!("a log of {} bytes", size);
    for _ in 0..c.by(1, 6, 20) {
        let o = match c.rng.below(6) {
            0 => edge,
            1 => edge + c.rng.below(16) as u64 - 8,
            2 => size + c.rng.below(3 * BLOCK) as u64,
            3 => from * BLOCK as u64 + c.rng.below((size - from * BLOCK as u64) as usize) as u64,
            _ => (c.rng.pick(&starts) + 1).saturating_sub(c.rng.below(3) as u64),
        };
        let want: Vec<Vec<u8>> = all.iter().filter(|r| r.0 >= o).map(|r| r.1.clone()).collect();
        let src = FarLog { blocks, pos: 0, salt, have: None, reads: 0 };
        let checksum = c.rng.chance(1, 2);
        let mut r = LogReader::new(Box::new(src), checksum, o as usize);
        let items = drain(&mut r, 32 * BLOCK).map_err(|e| format!("initial offset {} of {}: {}", o, size, e))?;
        let got = only_records(items).map_err(|e| format!("initial offset {} of {}: {}", o, size, e))?;
        same_records(&got, &want).map_err(|e| format!("initial offset {} of {}: {}", o, size, e))?;
        c.ev("far offsets tried", 1);
        c.ev("offsets at 4 GiB and behind", (o >= 1 << 32) as u64);
        c.ev("records delivered", got.len() as u64);
    }
    Ok(())
}

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C01", name: "c01_roundtrip", rule: "random record lists whose sizes crowd block ends, written and read through files that split and interrupt calls; non-trivial: two or more records", run: c01_roundtrip, cases: (6, 350, 1500), must_see: &["multi-fragment records", "records with middle fragments", "empty records", "empty first fragments", "block trailers", "short writes", "short reads", "interrupted reads", "interrupted writes"] },
        Suite { prop: "C01", name: "c01_boundary", rule: "every distance 0..16 to the block end times 13 sizes of the next record; non-trivial: all", run: c01_boundary, cases: (0, 221, 221), must_see: &["boundary shapes"] },
        Suite { prop: "C01", name: "c01_file", rule: "the same through a file on disk", run: c01_file, cases: (0, 60, 300), must_see: &["bytes on disk"] },
        Suite { prop: "C01", name: "c01_scale", rule: "logs of 70000 and more tiny records, and with a record of more than 2^24 bytes; non-trivial: all", run: c01_scale, cases: (0, 2, 8), must_see: &["logs of more than 65536 records", "records of more than 2^24 bytes"] },
        Suite { prop: "C02", name: "c02_format", rule: "random record lists: bytes written against an independent writer of the LevelDB format, and that writer's file (with preallocated zeros behind) read back; non-trivial: two or more records", run: c02_format, cases: (4, 350, 1500), must_see: &["bytes compared", "multi-fragment records", "empty first fragments", "block trailers", "logs with preallocated space"] },
        Suite { prop: "C02", name: "c02_prealloc", rule: "logs of the reference writer with zero-filled rests of blocks and zero blocks between records; non-trivial: all", run: c02_prealloc, cases: (4, 200, 800), must_see: &["zero-filled block rests", "zero blocks"] },
        Suite { prop: "C03", name: "c03_truncate", rule: "random logs cut around every fragment, inside payloads and at random points; non-trivial: two or more records", run: c03_truncate, cases: (3, 60, 220), must_see: &["crash points inside a record", "crash points inside a multi-fragment record"] },
        Suite { prop: "C03", name: "c03_every_byte", rule: "two records meeting a block end, cut at each of about 100 bytes around it; non-trivial: all", run: c03_every_byte, cases: (0, 30, 150), must_see: &["crash points"] },
        Suite { prop: "C03", name: "c03_long", rule: "one record of three to tens of blocks between two others, cut in every fragment, in its header and its payload; non-trivial: all", run: c03_long, cases: (0, 40, 400), must_see: &["crash points"] },
        Suite { prop: "C04", name: "c04_damage", rule: "random logs with flipped, zeroed or overwritten bytes, headers, sectors and blocks, read on after errors; non-trivial: at least one byte changed", run: c04_damage, cases: (5, 400, 2000), must_see: &["corruptions reported", "records in undamaged blocks", "records lost to damage", "damage: fragment header", "damage: whole block", "damage: bit flips"] },
        Suite { prop: "C04", name: "c04_nested", rule: "logs whose payloads hold images of valid log records, with damaged lengths, checksums and types; non-trivial: at least one byte changed", run: c04_nested, cases: (3, 300, 3000), must_see: &["record images in payloads", "lengths cut at an image", "corruptions reported"] },
        Suite { prop: "C04", name: "c04_fragments", rule: "fragments with correct checksums in random order and of unknown types; non-trivial: three or more fragments", run: c04_fragments, cases: (10, 400, 2000), must_see: &["complete chains", "fragments of unknown type", "empty fragments", "blocks left empty", "corruptions reported"] },
        Suite { prop: "C04", name: "c04_garbage", rule: "files of random bytes and of implausible headers, with and without checksums; non-trivial: longer than a header", run: c04_garbage, cases: (10, 250, 1200), must_see: &["corruptions reported", "bytes delivered without checksums"] },
        Suite { prop: "C04", name: "c04_unverified", rule: "written logs with payload and checksum bytes flipped, read without checksum verification; non-trivial: at least one record", run: c04_unverified, cases: (10, 200, 1500), must_see: &["payloads hit", "checksums hit", "records delivered unverified"] },
        Suite { prop: "C05", name: "c05_write_faults", rule: "one injected fault of any kind (error, partial write, zero write, flush error) at a random call of a run of appends; non-trivial: the fault was reported", run: c05_write_faults, cases: (4, 350, 1500), must_see: &["faults injected", "write faults reported", "acknowledged records", "records acknowledged after a fault", "interrupted writes", "short writes"] },
        Suite { prop: "C05", name: "c05_read_faults", rule: "one injected read fault of any kind, passing or lasting, at a random call of a complete scan; non-trivial: the fault was reported", run: c05_read_faults, cases: (4, 350, 1500), must_see: &["read faults reported", "records delivered"] },
        Suite { prop: "C06", name: "c06_offset", rule: "random logs opened at offsets on and beside every fragment start, record end and block end, inside records and past the end; non-trivial: two or more records", run: c06_offset, cases: (3, 60, 220), must_see: &["offsets inside a record", "offsets inside a multi-fragment record", "records skipped"] },
        Suite { prop: "C06", name: "c06_far", rule: "logs of 2 GiB to 2^45 bytes that exist only where they are read, opened at offsets around 2^31, 2^32 and their last fragments, and behind their end; non-trivial: all", run: c06_far, cases: (1, 60, 400), must_see: &["far offsets tried", "offsets at 4 GiB and behind", "records delivered"] },
    ]
}
