//! C26..C32: filter blocks, version edits, linked list, histogram, random, status, mutex lock.

use crate::kit::*;
use crate::refs;
use level_db_rust::db::db_format::InternalKey;
use level_db_rust::db::file_meta_data::FileMetaData;
use level_db_rust::db::version_edit::{Tag, VersionEdit};
use level_db_rust::table::filter_block::{FilterBlock, FilterBlockBuilder, FilterBlockReader};
use level_db_rust::traits::filter_policy_trait::{FilterPolicy, FilterPolicyPtr};
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::histogram::Histogram;
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
use level_db_rust::util::mutex_lock::{Lock, MutexLock};
use level_db_rust::util::random::Random;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::{LevelError, Status};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::convert::TryFrom;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex, TryLockError};

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C26", name: "c26_layout", rule: "random start_block/add_key/finish sequences with an enumerating filter policy and the bloom policy, the block decoded and compared with the keys of every 2 KiB range; non-trivial: at least two filters with keys", run: c26_layout, cases: (6, 500, 5000), must_see: &["filters with keys", "empty ranges", "several filters in one step", "empty keys", "non-UTF-8 keys", "offsets on a boundary", "bloom blocks", "blocks without keys", "keys of thousands of bytes", "policies with filters of no bytes"] },
        Suite { prop: "C26", name: "c26_far", rule: "far apart and large block offsets, thousands of keys in one range; non-trivial: all", run: c26_far, cases: (1, 30, 300), must_see: &["filters", "offsets around and past 4 GiB"] },
        Suite { prop: "C26", name: "c26_long", rule: "hundreds to thousands of empty ranges before the first key, tens of thousands of keys in one range, filters of many MiB; non-trivial: all", run: c26_long, cases: (0, 30, 200), must_see: &["leading empty ranges", "ranges of more than 65536 keys", "blocks of more than 16 MiB"] },
        Suite { prop: "C26", name: "c26_memory", rule: "many blocks added to one builder, live bytes compared with what it must keep; non-trivial: all", run: c26_memory, cases: (0, 12, 60), must_see: &["keys of finished ranges"] },
        Suite { prop: "C27", name: "c27_edit", rule: "random setter sequences with clears in between, encoded (also behind existing bytes and twice) and decoded by an independent manifest decoder; non-trivial: at least one file entry", run: c27_edit, cases: (10, 1500, 15000), must_see: &["comparator names", "files added", "files deleted", "compaction pointers", "clears", "appends behind bytes", "overwritten scalars", "deleted twice", "numbers used again"] },
        Suite { prop: "C27", name: "c27_large", rule: "edits of thousands of added and deleted files and compaction pointers and with comparator names of up to some 100 KiB; non-trivial: all", run: c27_large, cases: (0, 20, 150), must_see: &["files added", "files deleted", "names over 4 KiB", "edits of more than 65530 entries"] },
        Suite { prop: "C27", name: "c27_tags", rule: "all small tag numbers and random ones, file metadata of random field values; non-trivial: all", run: c27_tags, cases: (10, 300, 3000), must_see: &["unknown tags", "unequal metadata"] },
        Suite { prop: "C28", name: "c28_list", rule: "random additions at front, back and positions of tracked elements against a deque, reads and writes by position, refused positions; non-trivial: an insertion strictly inside", run: c28_list, cases: (10, 1200, 12000), must_see: &["inside insertions", "refused positions", "front additions", "back additions", "writes through get_mut", "drops"] },
        Suite { prop: "C28", name: "c28_long", rule: "long lists built and dropped, live bytes compared; non-trivial: all", run: c28_long, cases: (1, 12, 60), must_see: &["elements"] },
        Suite { prop: "C28", name: "c28_types", rule: "lists of element types of all shapes (without size, large, aligned, with heap parts) of up to 1500 elements read and written at random positions, live bytes compared; non-trivial: two or more elements", run: c28_types, cases: (8, 200, 1500), must_see: &["inside insertions", "positions behind 256"] },
        Suite { prop: "C29", name: "c29_report", rule: "random sample sets around all bucket limits, added singly and through merge trees, the printed report parsed and recomputed; non-trivial: samples in at least three buckets", run: c29_report, cases: (4, 800, 8000), must_see: &["samples", "merges", "clears", "samples on a bucket limit", "samples in the last bucket", "samples beyond 1e50", "single-valued sets"] },
        Suite { prop: "C29", name: "c29_many", rule: "histograms merged with themselves up to 2^52 samples, single samples added and merged in between and afterwards, the report recomputed; non-trivial: more than 2^24 samples", run: c29_many, cases: (1, 300, 3000), must_see: &["samples added to more than 2^24", "merges of more than 2^32"] },
        Suite { prop: "C30", name: "c30_stream", rule: "random, small and directed seeds (whose first products hit the edges of the modulus) with random call mixes, twin generators compared and every draw checked against its range and definition; non-trivial: all", run: c30_stream, cases: (10, 3000, 40000), must_see: &["degenerate seeds", "edge products", "draws"] },
        Suite { prop: "C30", name: "c30_spread", rule: "long streams: uniform and skewed draws reach all of their range; non-trivial: all", run: c30_spread, cases: (0, 20, 200), must_see: &["draws"] },
        Suite { prop: "C31", name: "c31_status", rule: "every constructor of a status with random, empty and non-ASCII texts, all predicates, conversions and renderings; non-trivial: both messages non-empty", run: c31_status, cases: (20, 2500, 20000), must_see: &["empty second messages", "equal messages", "non-ASCII messages", "I/O errors", "poison errors"] },
        Suite { prop: "C31", name: "c31_codes", rule: "all codes and random numbers through try_from and get_value; non-trivial: all", run: c31_codes, cases: (5, 300, 3000), must_see: &["unknown numbers"] },
        Suite { prop: "C32", name: "c32_exclusion", rule: "2..8 threads through own and shared handles, lock and try_lock mixed, every critical section logged by stamps and a torn-write canary; non-trivial: try_lock was refused or sections of two threads alternated", run: c32_exclusion, cases: (2, 150, 2000), must_see: &["critical sections", "alternations between threads", "try_lock refusals"] },
        Suite { prop: "C32", name: "c32_poison", rule: "holders that die while they hold the lock, then lock and try_lock by others and through other handles; non-trivial: all", run: c32_poison, cases: (3, 100, 1000), must_see: &["dead holders", "refused locks"] },
        Suite { prop: "C32", name: "c32_handles", rule: "up to thousands of handles taken from one lock and dropped in any order with or after it, and an unwinding thread that tries the lock; non-trivial: all", run: c32_handles, cases: (2, 150, 1500), must_see: &["handles", "values outliving their lock", "unwinding callers"] },
        Suite { prop: "C32", name: "c32_held", rule: "one thread holds, others try; directed hand-over; non-trivial: all", run: c32_held, cases: (2, 100, 1000), must_see: &["try_lock refusals", "hand-overs"] },
    ]
}

fn st<T>(r: level_db_rust::util::Result<T>, what: &str) -> Result<T, String> {
    r.map_err(|s| format!("{} returned an error: {}", what, s.to_string()))
}

// ------------------------------------------------------------------ C26

/// a filter that spells its keys out
struct Spell {
    /// some sets of keys get a filter without bytes
    mute: bool,
}

fn spell(keys: &[Vec<u8>], mute: bool) -> Vec<u8> {
    let mut o = vec![];
    if mute && keys.len() % 3 == 2 {
        return o;
    }
    refs::put_varint(&mut o, keys.len() as u64);
    for k in keys {
        refs::put_varint(&mut o, k.len() as u64);
        o.extend_from_slice(k);
    }
    o
}

impl FilterPolicy for Spell {
    fn name(&self) -> String {
        "verif.spell".into()
    }
    fn create_filter(&self, keys: Vec<&Slice>) -> Slice {
        let k: Vec<Vec<u8>> = keys.iter().map(|s| { let b: &[u8] = s.as_ref(); b.to_vec() }).collect();
        Slice::from_vec(spell(&k, self.mute))
    }
    fn create_filter_with_len(&self, _capacity: usize, keys: Vec<&Slice>) -> Slice {
        self.create_filter(keys)
    }
    fn key_may_match(&self, _key: &Slice, _filter: &Slice) -> bool {
        true
    }
}

/// what LevelDB's builder does, range by range
#[derive(Default)]
struct RefBlock {
    pending: Vec<Vec<u8>>,
    filters: Vec<Vec<Vec<u8>>>,
}

impl RefBlock {
    fn start(&mut self, off: u64) -> u64 {
        let mut n = 0;
        while (self.filters.len() as u64) < off / 2048 {
            self.filters.push(std::mem::take(&mut self.pending));
            n += 1;
        }
        n
    }
    fn finish(mut self, make: &dyn Fn(&[Vec<u8>]) -> Vec<u8>) -> (Vec<u8>, Vec<Vec<Vec<u8>>>) {
        if !self.pending.is_empty() {
            self.filters.push(std::mem::take(&mut self.pending));
        }
        let mut out = vec![];
        let mut offs = vec![];
        for f in &self.filters {
            offs.push(out.len() as u32);
            if !f.is_empty() {
                out.extend(make(f));
            }
        }
        let at = out.len() as u32;
        for o in offs {
            out.extend(o.to_le_bytes());
        }
        out.extend(at.to_le_bytes());
        out.push(11);
        (out, self.filters)
    }
}

fn explain_block(got: &[u8], want: &[u8]) -> String {
    let tail = |b: &[u8]| -> String {
        if b.len() < 5 {
            return format!("{} bytes", b.len());
        }
        let at = u32::from_le_bytes([b[b.len() - 5], b[b.len() - 4], b[b.len() - 3], b[b.len() - 2]]) as usize;
        let n = if at <= b.len() - 5 { (b.len() - 5 - at) / 4 } else { usize::MAX };
        format!("{} bytes, base log {}, offset array at {}, {} filters", b.len(), b[b.len() - 1], at, n)
    };
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("filter block differs at byte {}: got {} [{}], expected {} [{}]", i, tail(got), hex(&got[i.min(got.len())..]), tail(want), hex(&want[i.min(want.len())..]))
}

fn c26_layout(c: &mut Ctx) -> R {
    let bloom = c.rng.chance(1, 4);
    let mut off = match c.rng.below(4) {
        0 => c.rng.below(10_000) as u64,
        _ => 0,
    };
    let blocks = c.rng.range(0, c.by(8, 30, 100));
    let mute = c.rng.chance(1, 3);
    let mut b: FilterBlockBuilder = match (c.rng.below(2), bloom) {
        (0, false) => FilterBlockBuilder::new_with_policy(Arc::new(Box::new(Spell { mute }) as Box<dyn FilterPolicy>)),
        (_, false) => FilterBlockBuilder::new_with_policy_capacity(Arc::new(Box::new(Spell { mute }) as Box<dyn FilterPolicy>), c.rng.below(100)),
        (_, true) => FilterBlockBuilder::new_with_policy(Arc::new(Box::new(BloomFilterPolicy::new()) as Box<dyn FilterPolicy>)),
    };
    let mut m = RefBlock::default();
    let mut sizes = vec![];
    for _ in 0..blocks {
        if off % 2048 == 0 && off > 0 {
            c.ev("offsets on a boundary", 1);
        }
        b.start_block(off);
        if m.start(off) > 1 {
            c.ev("several filters in one step", 1);
        }
        if c.rng.chance(1, 4) {
            c26_pending(&b, &m)?;
            c.ev("builders asked for their pending keys", 1);
        }
        let n = match c.rng.below(5) {
            0 => 0,
            1 => 1,
            _ => c.rng.range(0, c.by(4, 12, 40)),
        };
        for _ in 0..n {
            let key = if c.rng.chance(1, 120) {
                // a key longer than the range it stands for
                let l = c.rng.range(c.by(200, 2000, 2000), c.by(500, 9000, 70_000));
                c.ev("keys of thousands of bytes", 1);
                c.rng.bytes(l)
            } else {
                c.rng.key(30)
            };
            if key.is_empty() {
                c.ev("empty keys", 1);
            }
            match std::str::from_utf8(&key) {
                Ok(s) if c.rng.chance(1, 2) => b.add_key_from_str(s),
                Ok(_) => b.add_key(&Slice::from_buf(&key)),
                Err(_) => {
                    c.ev("non-UTF-8 keys", 1);
                    b.add_key(&Slice::from_buf(&key))
                }
            }
            c.mix(hash_bytes(&key));
            m.pending.push(key);
        }
        if c.rng.chance(1, 8) {
            c26_pending(&b, &m)?;
        }
        sizes.push(n);
        let step = match c.rng.below(8) {
            0 => 0,
            1 => 2048 - off % 2048,
            2 => 2047 - off % 2048,
            3 => 2049 - off % 2048,
            4 => c.rng.range(2048, 40000) as u64,
            5 => 4096 - off % 2048,
            _ => c.rng.range(1, 900) as u64,
        };
        c.mix(step);
        off += step;
    }
    if c.rng.chance(1, 4) {
        b.start_block(off);
        m.start(off);
    }
    let got = st(b.finish(), "finish")?;
    let got: &[u8] = got.as_ref();
    if bloom {
        c.ev("bloom blocks", 1);
    }
    let make: &dyn Fn(&[Vec<u8>]) -> Vec<u8> = if bloom {
        // the policy itself is C25's subject: here only which keys went into which filter
        &|k: &[Vec<u8>]| {
            let s: Vec<Slice> = k.iter().map(|x| Slice::from_buf(x)).collect();
            let f = BloomFilterPolicy::new().create_filter(s.iter().collect());
            let f: &[u8] = f.as_ref();
            f.to_vec()
        }
    } else {
        &|k: &[Vec<u8>]| spell(k, mute)
    };
    if mute && !bloom {
        c.ev("policies with filters of no bytes", 1);
    }
    let (want, filters) = m.finish(make);
    let full = filters.iter().filter(|f| !f.is_empty()).count();
    c.ev("filters with keys", full as u64);
    c.ev("empty ranges", (filters.len() - full) as u64);
    if full == 0 {
        c.ev("blocks without keys", 1);
    }
    c.nontrivial = full >= 2;
    c.sample = format!("{} blocks, {} filters, {} with keys, {} bytes, bloom {}", blocks, filters.len(), full, want.len(), bloom);
    if got != &want[..] {
        return Err(explain_block(got, &want));
    }
    // a reader can be opened on it, and on anything shorter
    let cut = if c.rng.chance(1, 2) { got.len() } else { c.rng.below(got.len() + 1) };
    let p: FilterPolicyPtr = Arc::new(Box::new(Spell { mute: false }) as Box<dyn FilterPolicy>);
    let r = FilterBlockReader::new_with_policy(p, &Slice::from_buf(&got[..cut]));
    ensure!(r.get_policy().name() == "verif.spell", "the reader has another policy");
    Ok(())
}

/// the keys that wait for their filter, and the filters made so far
fn c26_pending(b: &FilterBlockBuilder, m: &RefBlock) -> R {
    let (keys, start) = (b.get_keys(), b.get_start());
    ensure!(start.len() == m.pending.len(), "{} keys are pending, expected {}", start.len(), m.pending.len());
    for (i, want) in m.pending.iter().enumerate() {
        let end = start.get(i + 1).copied().unwrap_or(keys.len());
        let got = keys.get(start[i]..end);
        ensure!(got == Some(&want[..]), "pending key {} is {:?}, expected {}", i, got.map(hex), hex(want));
    }
    // no key of a finished range is kept
    let kept = b.get_tmp_keys();
    for k in &kept {
        ensure!(k.size() == 0 || m.pending.iter().any(|p| p[..] == **k), "key {} of a finished range is kept", hex(k));
    }
    let offs = b.get_tmp_filter_offsets();
    ensure!(offs.len() == m.filters.len(), "{} filters were made, expected {}", offs.len(), m.filters.len());
    Ok(())
}

/// the keys of finished ranges are not kept
fn c26_memory(c: &mut Ctx) -> R {
    let (lo, hi) = (c.by(30, 300, 1000), c.by(40, 1500, 6000));
    let blocks = c.rng.range(lo, hi);
    let (per, len) = (c.rng.range(10, 40), c.rng.range(60, 200));
    let step = c.rng.range(2048, 4096) as u64;
    c.fp = mix64(blocks as u64 ^ mix64((per * len) as u64) ^ step);
    c.nontrivial = true;
    c.sample = format!("{} blocks of {} keys of {} bytes", blocks, per, len);
    let base = live_bytes();
    let mut b: FilterBlockBuilder = FilterBlockBuilder::new_with_policy(Arc::new(Box::new(BloomFilterPolicy::new_with_bits_per_key(1)) as Box<dyn FilterPolicy>));
    let mut key = vec![0u8; len];
    for i in 0..blocks {
        b.start_block(i as u64 * step);
        for j in 0..per {
            key[..4].copy_from_slice(&((i * per + j) as u32).to_be_bytes());
            b.add_key(&Slice::from_buf(&key));
        }
        c.ev("keys of finished ranges", per as u64);
    }
    let now = live_bytes().saturating_sub(base);
    // offsets and filters of every range, the keys of the last one, with room to spare
    let fair = blocks * (8 + per / 4 + 16) * 4 + per * (len + 100) * 8 + 4096;
    let keys = blocks * per * len;
    ensure!(now <= fair.max(keys / 3), "{} bytes are held after {} blocks with {} bytes of keys, {} of which are pending", now, blocks, keys, per * len);
    st(b.finish(), "finish")?;
    Ok(())
}

fn c26_far(c: &mut Ctx) -> R {
    let mut b: FilterBlockBuilder = FilterBlockBuilder::new_with_policy(Arc::new(Box::new(Spell { mute: false }) as Box<dyn FilterPolicy>));
    let mut m = RefBlock::default();
    let mut off = 0u64;
    for _ in 0..c.rng.range(1, 4) {
        b.start_block(off);
        m.start(off);
        for _ in 0..c.rng.range(0, c.by(30, 3000, 10000)) {
            let l = c.rng.range(0, 20);
            let k = c.rng.bytes(l);
            b.add_key(&Slice::from_buf(&k));
            m.pending.push(k);
        }
        off += c.rng.next() >> c.rng.range(c.by(48, 42, 40), 60);
        if c.case % 6 == 5 && off < 1 << 32 && c.by(0, 1, 1) == 1 {
            // a table of more than 4 GiB, without its data
            off += (1 << 32) - c.rng.below(3) as u64 * 2048;
            c.ev("offsets around and past 4 GiB", 1);
        }
        c.mix(off);
    }
    b.start_block(off);
    m.start(off);
    let got = st(b.finish(), "finish")?;
    let got: &[u8] = got.as_ref();
    let (want, filters) = m.finish(&|k| spell(k, false));
    c.ev("filters", filters.len() as u64);
    c.nontrivial = true;
    c.sample = format!("offsets up to {}, {} filters, {} bytes", off, filters.len(), want.len());
    if got != &want[..] {
        return Err(explain_block(got, &want));
    }
    Ok(())
}

fn c26_long(c: &mut Ctx) -> R {
    let mute = c.rng.chance(1, 3);
    let mut b: FilterBlockBuilder = FilterBlockBuilder::new_with_policy(Arc::new(Box::new(Spell { mute }) as Box<dyn FilterPolicy>));
    let mut m = RefBlock::default();
    let mut off = 0u64;
    let empties = c.rng.edge_len(20_000) as u64;
    if c.rng.chance(2, 3) {
        // keys come late
        let mut steps = c.rng.range(1, 4) as u64;
        while steps > 0 {
            b.start_block(off);
            m.start(off);
            off += 2048 * (empties / 4 + 1);
            steps -= 1;
        }
        c.ev("leading empty ranges", off / 2048);
    }
    let (n, len) = match c.case % 3 {
        0 => (c.rng.range(65_000, 70_000), 2),
        1 => (c.rng.range(17, 24), 1 << 20),
        _ => (c.rng.edge_len(5000), 8),
    };
    let per = if len > 1000 { 3 } else { n };
    c.ev("ranges of more than 65536 keys", (n > 65_536) as u64);
    b.start_block(off);
    m.start(off);
    for i in 0..n {
        let l = c.rng.below(len) + if len > 1000 { len } else { 0 };
        let k = if len > 1000 { vec![i as u8; l] } else { c.rng.bytes(l) };
        b.add_key(&Slice::from_buf(&k));
        m.pending.push(k);
        if i % per == per - 1 {
            off += 2048 * c.rng.below(3) as u64;
            b.start_block(off);
            m.start(off);
        }
    }
    if c.rng.chance(1, 2) {
        off += 2048 * empties;
        b.start_block(off);
        m.start(off);
        let k = c.rng.key(20);
        b.add_key(&Slice::from_buf(&k));
        m.pending.push(k);
    }
    let got = st(b.finish(), "finish")?;
    let got: &[u8] = got.as_ref();
    let (want, filters) = m.finish(&|k| spell(k, mute));
    c.mix(hash_bytes(&want[want.len() - want.len().min(1000)..]) ^ off << 40);
    c.nontrivial = true;
    c.sample = format!("offsets up to {}, {} keys, {} filters, {} bytes", off, n, filters.len(), want.len());
    c.ev("blocks of more than 16 MiB", (want.len() > 1 << 24) as u64);
    if got != &want[..] {
        let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        ensure!(got.len() < 100_000 && want.len() < 100_000, "a block of {} bytes, expected {}: they differ from byte {} on", got.len(), want.len(), at);
        return Err(explain_block(got, &want));
    }
    Ok(())
}

// ------------------------------------------------------------------ C27

#[derive(Default, Debug, PartialEq, Clone)]
pub(crate) struct Edit {
    pub comparator: Option<Vec<u8>>,
    pub log: Option<u64>,
    pub prev_log: Option<u64>,
    pub next_file: Option<u64>,
    pub last_seq: Option<u64>,
    pub compact: Vec<(u32, Vec<u8>)>,
    pub deleted: BTreeSet<(u32, u64)>,
    pub new: Vec<(u32, u64, u64, Vec<u8>, Vec<u8>)>,
}

/// a manifest decoder written from the format: fails on anything malformed or repeated
pub(crate) fn decode_edit(mut b: &[u8]) -> Result<Edit, String> {
    fn int(b: &mut &[u8], bits: u32, what: &str) -> Result<u64, String> {
        match refs::get_varint(b, bits) {
            Some((v, n, exact)) if exact && n == refs::varint_len(v) => {
                *b = &b[n..];
                Ok(v)
            }
            x => Err(format!("no proper {} at [{}] ({:?})", what, hex(b), x)),
        }
    }
    fn bytes(b: &mut &[u8], what: &str) -> Result<Vec<u8>, String> {
        let n = int(b, 32, what)? as usize;
        if n > b.len() {
            return Err(format!("{} of {} bytes with {} left", what, n, b.len()));
        }
        let v = b[..n].to_vec();
        *b = &b[n..];
        Ok(v)
    }
    fn once<T>(slot: &mut Option<T>, v: T, what: &str) -> Result<(), String> {
        if slot.is_some() {
            return Err(format!("{} is written twice", what));
        }
        *slot = Some(v);
        Ok(())
    }
    let mut e = Edit::default();
    while !b.is_empty() {
        match int(&mut b, 32, "tag")? {
            1 => {
                let v = bytes(&mut b, "comparator")?;
                once(&mut e.comparator, v, "comparator")?
            }
            2 => once(&mut e.log, int(&mut b, 64, "log number")?, "log number")?,
            3 => once(&mut e.next_file, int(&mut b, 64, "next file")?, "next file")?,
            4 => once(&mut e.last_seq, int(&mut b, 64, "last sequence")?, "last sequence")?,
            5 => {
                let l = int(&mut b, 32, "level")? as u32;
                e.compact.push((l, bytes(&mut b, "compaction pointer")?));
            }
            6 => {
                let l = int(&mut b, 32, "level")? as u32;
                e.deleted.insert((l, int(&mut b, 64, "deleted file")?));
            }
            7 => {
                let l = int(&mut b, 32, "level")? as u32;
                let n = int(&mut b, 64, "file number")?;
                let s = int(&mut b, 64, "file size")?;
                let lo = bytes(&mut b, "smallest")?;
                let hi = bytes(&mut b, "largest")?;
                e.new.push((l, n, s, lo, hi));
            }
            9 => once(&mut e.prev_log, int(&mut b, 64, "previous log number")?, "previous log number")?,
            t => return Err(format!("unknown tag {}", t)),
        }
    }
    Ok(e)
}

pub(crate) fn text(c: &mut Ctx, max: usize) -> String {
    let n = c.rng.range(0, max);
    let style = c.rng.below(4);
    let mut t: String = (0..n)
        .map(|_| match style {
            0 => *c.rng.pick(&['a', ' ', ':', '\0', '\n']),
            1 => *c.rng.pick(&['ä', '✓', '漢', '😀', 'x']),
            _ => (b' ' + c.rng.below(95) as u8) as char,
        })
        .collect();
    if max > 0 && c.rng.chance(1, 5) {
        t.insert_str(0, &padding(&mut c.rng));
    }
    if max > 0 && c.rng.chance(1, 4) {
        t.push_str(&padding(&mut c.rng));
    }
    t
}

fn c27_edit(c: &mut Ctx) -> R {
    let mut want = Edit::default();
    let mut e = match c.rng.below(4) {
        0 => {
            let n = c.rng.edgy64();
            want.log = Some(n);
            VersionEdit::new_with_log_number(n)
        }
        1 => {
            let n = c.rng.edgy64();
            want.prev_log = Some(n);
            VersionEdit::new_with_prev_log_number(n)
        }
        _ => VersionEdit::new(),
    };
    let steps = if c.rng.chance(1, 25) { c.rng.range(0, c.by(30, 400, 2000)) } else { c.rng.range(0, c.by(12, 25, 80)) };
    let mut files: Vec<(u32, u64)> = vec![];
    // fields often carry the same number
    let mut numbers: Vec<u64> = want.log.into_iter().chain(want.prev_log).collect();
    for _ in 0..steps {
        let op = c.rng.below(16);
        let n = if !numbers.is_empty() && c.rng.chance(1, 4) {
            c.ev("numbers used again", 1);
            *c.rng.pick(&numbers)
        } else {
            c.rng.edgy64()
        };
        numbers.push(n);
        let level = match c.rng.below(4) {
            0 => c.rng.edgy32(),
            _ => c.rng.below(7) as u32,
        };
        c.mix(n ^ (op as u64) << 56 ^ level as u64);
        fn over<T>(c: &mut Ctx, o: &Option<T>) {
            if o.is_some() {
                c.ev("overwritten scalars", 1)
            }
        }
        match op {
            0 | 1 => {
                let max = if c.rng.chance(1, 10) { 300 } else { 30 };
                let t = text(c, max);
                over(c, &want.comparator);
                e.set_comparator_name(Slice::from(&t));
                c.mix(hash_bytes(t.as_bytes()));
                want.comparator = Some(t.into_bytes());
                c.ev("comparator names", 1);
            }
            2 => {
                over(c, &want.log);
                e.set_log_number(n);
                want.log = Some(n);
            }
            3 => {
                over(c, &want.prev_log);
                e.set_prev_log_number(n);
                want.prev_log = Some(n);
            }
            4 => {
                over(c, &want.next_file);
                e.set_next_file(n);
                want.next_file = Some(n);
            }
            5 => {
                over(c, &want.last_seq);
                e.set_last_sequence(n);
                want.last_seq = Some(n);
            }
            6 | 7 => {
                e.set_compact_pointer(level, InternalKey::default());
                want.compact.push((level, vec![]));
                c.ev("compaction pointers", 1);
            }
            8..=10 => {
                let size = if c.rng.chance(1, 8) { n } else { c.rng.edgy64() };
                e.add_file(level, n, size, InternalKey::default(), InternalKey::default());
                want.new.push((level, n, size, vec![], vec![]));
                files.push((level, n));
                c.ev("files added", 1);
                c.nontrivial = true;
            }
            11..=13 => {
                let (l, f) = if !files.is_empty() && c.rng.chance(1, 2) { *c.rng.pick(&files) } else { (level, n) };
                e.delete_file(l, f);
                if !want.deleted.insert((l, f)) {
                    c.ev("deleted twice", 1);
                }
                files.push((l, f));
                c.ev("files deleted", 1);
                c.nontrivial = true;
            }
            14 if c.rng.chance(1, 2) => {
                e.clear();
                // LevelDB's Clear keeps the compaction pointers
                want = Edit { compact: want.compact.clone(), ..Edit::default() };
                c.ev("clears", 1);
            }
            _ => {}
        }
    }
    c.sample = format!("{:?}", want).chars().take(160).collect();
    let mut target: Vec<u8> = vec![];
    for round in 0..2 {
        let before = if round == 0 && c.rng.chance(1, 2) {
            vec![]
        } else {
            let l = c.rng.range(1, 300);
            c.ev("appends behind bytes", 1);
            c.rng.bytes(l)
        };
        target.clear();
        target.extend(&before);
        st(e.encode_to(&mut target), "encode_to")?;
        ensure!(target.len() >= before.len() && target[..before.len()] == before[..], "encode_to changed the bytes before the edit");
        let body = &target[before.len()..];
        let got = match decode_edit(body) {
            Ok(g) => g,
            Err(m) => return Err(format!("the encoding cannot be decoded: {} in [{}]", m, hex(body))),
        };
        ensure!(got == want, "the encoding decodes to {:?}, expected {:?}", got, want);
    }
    Ok(())
}

fn c27_large(c: &mut Ctx) -> R {
    let mut want = Edit::default();
    let mut e = VersionEdit::new();
    let top = if c.case % 10 == 3 { 70_000 } else { 12_000 };
    let (mut new, mut del, ptr) = (c.rng.edge_len(top), c.rng.edge_len(top), c.rng.edge_len(top));
    if top > 65_536 {
        *(if c.rng.chance(1, 2) { &mut new } else { &mut del }) = c.rng.range(65_530, 70_000);
    }
    let base = c.rng.next() >> c.rng.range(8, 60);
    for i in 0..new.max(del).max(ptr) as u64 {
        let level = (i % 7) as u32;
        if i < new as u64 {
            e.add_file(level, base + i, i * 4096, InternalKey::default(), InternalKey::default());
            want.new.push((level, base + i, i * 4096, vec![], vec![]));
        }
        if i < del as u64 {
            e.delete_file(level, base.wrapping_sub(i));
            want.deleted.insert((level, base.wrapping_sub(i)));
        }
        if i < ptr as u64 {
            e.set_compact_pointer(level, InternalKey::default());
            want.compact.push((level, vec![]));
        }
    }
    let l = c.rng.edge_len(200_000);
    let name: String = (0..l).map(|i| (b' ' + (i * 7 % 95) as u8) as char).collect();
    e.set_comparator_name(Slice::from(&name));
    want.comparator = Some(name.into_bytes());
    c.mix(mix64(new as u64 ^ (del as u64) << 20 ^ (ptr as u64) << 40) ^ base);
    c.nontrivial = true;
    c.sample = format!("{} files added, {} deleted, {} pointers, a name of {} bytes", new, del, ptr, l);
    c.ev("files added", new as u64);
    c.ev("files deleted", del as u64);
    c.ev("names over 4 KiB", (l > 4096) as u64);
    c.ev("edits of more than 65530 entries", (new.max(del).max(ptr) >= 65_530) as u64);
    let mut target = vec![];
    for _ in 0..2 {
        target.clear();
        st(e.encode_to(&mut target), "encode_to")?;
        let got = decode_edit(&target).map_err(|m| format!("the encoding of {} cannot be decoded: {}", c.sample, m))?;
        ensure!(got.new.len() == new && got.deleted.len() == want.deleted.len() && got.compact.len() == ptr, "{} decode to {}, {} and {}", c.sample, got.new.len(), got.deleted.len(), got.compact.len());
        ensure!(got == want, "{}: decoded differently", c.sample);
    }
    e.clear();
    target.clear();
    st(e.encode_to(&mut target), "encode_to")?;
    let got = decode_edit(&target)?;
    ensure!(got == Edit { compact: want.compact.clone(), ..Edit::default() }, "{}: after clear {} bytes are encoded", c.sample, target.len());
    Ok(())
}

fn c27_tags(c: &mut Ctx) -> R {
    c.nontrivial = true;
    for v in [c.case as u32, c.rng.edgy32(), c.rng.below(16) as u32, 0, 8, 10] {
        c.mix(v as u64);
        match Tag::from_value(v) {
            Some(t) => ensure!(matches!(v, 1..=7 | 9) && t.get_value() == v as i32, "tag number {} became {}", v, t.get_value()),
            None => {
                c.ev("unknown tags", 1);
                ensure!(!matches!(v, 1..=7 | 9), "tag number {} is unknown", v);
            }
        }
    }
    let (refs_, seeks, num, size) = (c.rng.u32() as i32 >> 2, c.rng.u32() as i32, c.rng.edgy64(), c.rng.edgy64());
    let k = InternalKey::default;
    let mut f = FileMetaData::new(refs_, seeks, num, size, k(), k());
    ensure!(f.get_refs() == refs_ && f.get_number() == num && f.get_file_size() == size, "metadata fields differ from those given");
    ensure!(*f.get_smallest() == k() && *f.get_largest() == k(), "key bounds differ from those given");
    let g = FileMetaData::new_with_number_file_size_internal_key(num, size, k(), k());
    ensure!(g.get_number() == num && g.get_file_size() == size && g.get_refs() == 0, "metadata fields differ from those given");
    ensure!(g == FileMetaData::new(0, 1 << 30, num, size, k(), k()), "fresh metadata does not allow 2^30 seeks");
    ensure!(f == FileMetaData::new(refs_, seeks, num, size, k(), k()), "equal metadata is unequal");
    for other in [
        FileMetaData::new(refs_ ^ 1, seeks, num, size, k(), k()),
        FileMetaData::new(refs_, seeks ^ 1, num, size, k(), k()),
        FileMetaData::new(refs_, seeks, num ^ 1 << c.rng.below(64), size, k(), k()),
        FileMetaData::new(refs_, seeks, num, size ^ 1 << c.rng.below(64), k(), k()),
    ] {
        ensure!(f != other, "metadata that differs in one field is equal");
        c.ev("unequal metadata", 1);
    }
    let d = c.rng.below(1000) as i32 - 500;
    f.add_refs(d);
    ensure!(f.get_refs() == refs_ + d, "add_refs({}) on {} gave {}", d, refs_, f.get_refs());
    let s2 = c.rng.edgy64();
    f.set_file_size(s2);
    ensure!(f.get_file_size() == s2 && f.get_number() == num, "set_file_size did not set just the size");
    ensure!(FileMetaData::new_with_refs(refs_) == FileMetaData::new(refs_, 1 << 30, 0, 0, k(), k()), "new_with_refs");
    ensure!(FileMetaData::new_with_refs_allowed_seeks(refs_, seeks) == FileMetaData::new(refs_, seeks, 0, 0, k(), k()), "new_with_refs_allowed_seeks");
    ensure!(FileMetaData::new_with_refs_allowed_seeks_file_size(refs_, seeks, size) == FileMetaData::new(refs_, seeks, 0, size, k(), k()), "new_with_refs_allowed_seeks_file_size");
    ensure!(FileMetaData::new_with_refs_allowed_seeks_file_size_internal_key(refs_, seeks, size, k(), k()) == FileMetaData::new(refs_, seeks, 0, size, k(), k()), "new_with_refs_allowed_seeks_file_size_internal_key");
    Ok(())
}

// ------------------------------------------------------------------ C28

#[derive(Default)]
struct Counts {
    live: RefCell<BTreeMap<u64, i64>>,
    drops: Cell<u64>,
}

struct Elem {
    id: u64,
    payload: Box<[u64; 2]>,
    home: Rc<Counts>,
}

impl Elem {
    fn new(id: u64, home: &Rc<Counts>) -> Elem {
        *home.live.borrow_mut().entry(id).or_insert(0) += 1;
        Elem { id, payload: Box::new([mix64(id), !mix64(id)]), home: home.clone() }
    }
    fn ok(&self) -> bool {
        self.payload[0] == mix64(self.id) && self.payload[1] == !mix64(self.id)
    }
}

impl Drop for Elem {
    fn drop(&mut self) {
        if let Ok(mut l) = self.home.live.try_borrow_mut() {
            *l.entry(self.id).or_insert(0) -= 1;
        }
        self.home.drops.set(self.home.drops.get() + 1);
    }
}

fn check_counts(h: &Counts, want: &VecDeque<u64>) -> R {
    let mut need: BTreeMap<u64, i64> = BTreeMap::new();
    for id in want {
        *need.entry(*id).or_insert(0) += 1;
    }
    for (id, n) in h.live.borrow().iter() {
        let w = need.remove(id).unwrap_or(0);
        ensure!(*n == w, "element {} is alive {} times, expected {}", id, n, w);
    }
    ensure!(need.is_empty(), "elements {:?} are gone", need);
    Ok(())
}

fn c28_list(c: &mut Ctx) -> R {
    let home = Rc::new(Counts::default());
    let mut list: LinkedList<Elem> = if c.rng.chance(1, 2) { LinkedList::new() } else { LinkedList::default() };
    let mut m: VecDeque<u64> = VecDeque::new();
    let steps = c.rng.range(0, c.by(20, 60, 200));
    let mut next = 1u64;
    ensure!(list.length() == 0, "a new list has length {}", list.length());
    for _ in 0..steps {
        let op = c.rng.below(12);
        let id = next;
        next += 1;
        c.mix(op as u64);
        match op {
            0 => {
                list.add(Elem::new(id, &home));
                m.push_back(id);
                c.ev("back additions", 1);
            }
            1 => {
                list.push(Elem::new(id, &home));
                m.push_front(id);
                c.ev("front additions", 1);
            }
            2 => {
                ensure!(st(list.add_first(Elem::new(id, &home)), "add_first")?, "an accepted addition answers false");
                m.push_front(id);
                c.ev("front additions", 1);
            }
            3 => {
                ensure!(st(list.add_last(Elem::new(id, &home)), "add_last")?, "an accepted addition answers false");
                m.push_back(id);
                c.ev("back additions", 1);
            }
            4..=6 => {
                let p = match c.rng.below(4) {
                    0 => 0,
                    1 => m.len(),
                    2 => m.len().saturating_sub(1),
                    _ => c.rng.below(m.len() + 1),
                };
                c.mix(p as u64);
                if p > 0 && p < m.len() {
                    c.ev("inside insertions", 1);
                    c.nontrivial = true;
                }
                ensure!(st(list.add_by_position(p, Elem::new(id, &home)), "add_by_position")?, "an accepted addition answers false");
                m.insert(p, id);
            }
            7 => {
                let p = match c.rng.below(3) {
                    0 => m.len() + 1,
                    1 => m.len() + 1 + c.rng.below(10),
                    _ => usize::MAX - c.rng.below(3),
                };
                let r = list.add_by_position(p, Elem::new(id, &home));
                ensure!(r.is_err(), "add_by_position({}) on {} elements was accepted", p, m.len());
                c.ev("refused positions", 1);
            }
            8 => {
                let p = if c.rng.chance(1, 2) { m.len() } else { m.len() + c.rng.below(9) };
                ensure!(list.get(p).is_err(), "get({}) on {} elements was answered", p, m.len());
                ensure!(list.get_mut(p).is_err(), "get_mut({}) on {} elements was answered", p, m.len());
                c.ev("refused positions", 1);
            }
            9 | 10 if !m.is_empty() => {
                let p = c.rng.below(m.len());
                if let Some(e) = st(list.get_mut(p), "get_mut")? {
                    ensure!(e.id == m[p] && e.ok(), "get_mut({}) gave element {}, expected {}", p, e.id, m[p]);
                    // replaces the element in place, which drops the old one
                    *e = Elem::new(id, &home);
                    m[p] = id;
                    c.ev("writes through get_mut", 1);
                } else {
                    return Err(format!("get_mut({}) on {} elements found nothing", p, m.len()));
                }
            }
            _ => {}
        }
        ensure!(list.length() == m.len(), "length is {}, expected {}", list.length(), m.len());
        let all = m.len() < 8 || c.rng.chance(1, 8);
        for (i, id) in m.iter().enumerate() {
            if all || c.rng.chance(1, 10) {
                match st(list.get(i), "get")? {
                    Some(e) => ensure!(e.id == *id && e.ok(), "get({}) of {} gave element {}, expected {} ({:?})", i, m.len(), e.id, id, m),
                    None => return Err(format!("get({}) on {} elements found nothing", i, m.len())),
                }
            }
        }
        if c.rng.chance(1, 4) {
            check_counts(&home, &m)?;
        }
    }
    for (i, id) in m.iter().enumerate() {
        match st(list.get(i), "get")? {
            Some(e) => ensure!(e.id == *id && e.ok(), "get({}) of {} gave element {}, expected {}", i, m.len(), e.id, id),
            None => return Err(format!("get({}) on {} elements found nothing", i, m.len())),
        }
    }
    check_counts(&home, &m)?;
    c.sample = format!("{} operations, {} elements", steps, m.len());
    c.fp ^= mix64(m.iter().fold(1u64, |a, i| mix64(a ^ i)));
    if c.case % 4 == 1 {
        drop_unwinding(list);
    } else {
        drop(list);
    }
    m.clear();
    check_counts(&home, &m)?;
    c.ev("drops", home.drops.get());
    ensure!(Rc::strong_count(&home) == 1, "{} elements are still around", Rc::strong_count(&home) - 1);
    Ok(())
}

fn c28_long(c: &mut Ctx) -> R {
    let n = c.rng.range(c.by(100, 50_000, 100_000), c.by(300, 200_000, 600_000));
    c.fp = n as u64;
    c.nontrivial = true;
    c.sample = format!("{} elements", n);
    c.ev("elements", n as u64);
    let base = live_bytes();
    let dropped = Rc::new(Cell::new(0u64));
    struct D(Rc<Cell<u64>>, #[allow(dead_code)] Box<u64>);
    impl Drop for D {
        fn drop(&mut self) {
            self.0.set(self.0.get() + 1);
        }
    }
    let mut list = LinkedList::new();
    let style = c.rng.below(3);
    for i in 0..n {
        let d = D(dropped.clone(), Box::new(i as u64));
        match style {
            0 => list.add(d),
            1 => list.push(d),
            _ => {
                if i % 2 == 0 { list.add(d) } else { list.push(d) }
            }
        }
    }
    ensure!(list.length() == n, "length is {}, expected {}", list.length(), n);
    // what stands where
    let at = |p: usize| -> u64 {
        (match style {
            0 => p,
            1 => n - 1 - p,
            // odd ones were pushed in front: .. 5 3 1 0 2 4 ..
            _ => if p < n / 2 { 2 * (n / 2 - 1 - p) + 1 } else { 2 * (p - n / 2) },
        }) as u64
    };
    let mut added = 0;
    for i in 0..c.by(10, 60, 100) {
        let p = match i % 5 {
            0 => n / 2 - 2 + c.rng.below(5),
            1 => n - 1 - c.rng.below(n.min(5)),
            2 => c.rng.below(n.min(5)),
            _ => c.rng.below(n),
        };
        match st(list.get(p), "get")? {
            Some(d) => ensure!(*d.1 == at(p), "get({}) of {} gave element {}, expected {}", p, n, d.1, at(p)),
            None => return Err(format!("get({}) of {} found nothing", p, n)),
        }
        match st(list.get_mut(p), "get_mut")? {
            Some(d) => ensure!(*d.1 == at(p), "get_mut({}) of {} gave element {}, expected {}", p, n, d.1, at(p)),
            None => return Err(format!("get_mut({}) of {} found nothing", p, n)),
        }
        c.ev("positions of long lists", 2);
    }
    for p in [n / 2, n - 1, n - c.rng.below(n.min(5)), c.rng.below(n), 1] {
        // behind the earlier ones, or else their shift would have to be followed
        let p = p + added;
        ensure!(st(list.add_by_position(p, D(dropped.clone(), Box::new(u64::MAX))), "add_by_position")?, "an accepted addition answers false");
        added += 1;
        ensure!(list.length() == n + added, "length is {}, expected {}", list.length(), n + added);
        let here = st(list.get(p), "get")?.map(|d| *d.1);
        ensure!(here == Some(u64::MAX), "position {} of {} holds {:?} after an addition there", p, n + added, here);
    }
    let n = n + added;
    let mut given = 0;
    for p in [n, n + 1, n + 2 + c.rng.below(n), 1 << 32 | c.rng.below(n), usize::MAX - c.rng.below(3)] {
        ensure!(list.get(p).is_err(), "get({}) of {} elements was answered", p, n);
        ensure!(list.get_mut(p).is_err(), "get_mut({}) of {} elements was answered", p, n);
        if p > n {
            given += 1;
            ensure!(list.add_by_position(p, D(dropped.clone(), Box::new(0))).is_err(), "add_by_position({}) on {} elements was accepted", p, n);
            ensure!(dropped.get() == given && list.length() == n, "a refused addition left {} elements and dropped {}", list.length(), dropped.get());
        }
    }
    drop(list);
    dropped.set(dropped.get() - given);
    ensure!(dropped.get() == n as u64, "{} of {} elements were dropped", dropped.get(), n);
    drop(dropped);
    let now = live_bytes();
    ensure!(now <= base + 512, "{} bytes stay allocated after a list of {} elements was dropped", now - base, n);
    Ok(())
}

/// element types of all shapes: without size, small, large, strictly aligned, with heap parts
fn c28_types(c: &mut Ctx) -> R {
    #[derive(Clone, PartialEq, Debug)]
    #[repr(align(64))]
    struct Aligned(u8, u64);
    let kind = c.rng.below(8);
    c.mix(kind as u64);
    match kind {
        0 => c28_of(c, "()", |_| ()),
        1 => c28_of(c, "u8", |x| x as u8),
        2 => c28_of(c, "u64", |x| x),
        3 => c28_of(c, "[u8; 100]", |x| [x as u8; 100]),
        4 => c28_of(c, "[u64; 300]", |x| [x; 300]),
        5 => c28_of(c, "String", |x| format!("element {}", x)),
        6 => c28_of(c, "an aligned struct", |x| Aligned(x as u8, !x)),
        _ => c28_of(c, "Option<Box<u64>>", |x| if x % 3 == 0 { None } else { Some(Box::new(x)) }),
    }
}

fn c28_of<T: Clone + PartialEq + std::fmt::Debug>(c: &mut Ctx, name: &str, make: impl Fn(u64) -> T) -> R {
    let target = c.rng.range(1, c.by(40, 700, 1500));
    c.nontrivial = target > 1;
    c.mix(target as u64);
    c.sample = format!("{} elements of {}", target, name);
    let mut m: VecDeque<T> = VecDeque::with_capacity(target + 1);
    let base = live_bytes();
    let mut list: LinkedList<T> = LinkedList::new();
    let mut n = 0u64;
    let same = |list: &mut LinkedList<T>, m: &VecDeque<T>, i: usize| -> R {
        match st(list.get(i), "get")? {
            Some(e) => ensure!(*e == m[i], "get({}) of {} {} is {:?}, expected {:?}", i, m.len(), name, e, m[i]),
            None => return Err(format!("get({}) of {} {} found nothing", i, m.len(), name)),
        }
        match st(list.get_mut(i), "get_mut")? {
            Some(e) => ensure!(*e == m[i], "get_mut({}) of {} {} is {:?}, expected {:?}", i, m.len(), name, e, m[i]),
            None => return Err(format!("get_mut({}) of {} {} found nothing", i, m.len(), name)),
        }
        Ok(())
    };
    while m.len() < target {
        let x = c.rng.next() ^ n;
        n += 1;
        match c.rng.below(5) {
            0 => { list.push(make(x)); m.push_front(make(x)) }
            1 | 2 => { list.add(make(x)); m.push_back(make(x)) }
            _ => {
                let p = c.rng.below(m.len() + 1);
                ensure!(st(list.add_by_position(p, make(x)), "add_by_position")?, "an accepted addition answers false");
               
                m.insert(p, make(x));
                c.mix(p as u64);
                c.ev("inside insertions", 1);
            }
        }
        if c.rng.chance(1, 10) {
            let i = c.rng.below(m.len());
            same(&mut list, &m, i)?;
        }
    }
    for _ in 0..c.by(20, 200, 400) {
        let i = c.rng.below(m.len());
        if c.rng.chance(1, 3) {
            let x = c.rng.next();
            match st(list.get_mut(i), "get_mut")? {
                Some(e) => *e = make(x),
                None => return Err(format!("get_mut({}) of {} {} found nothing", i, m.len(), name)),
            }
            m[i] = make(x);
        }
        same(&mut list, &m, i)?;
    }
    for p in [m.len(), m.len() + 1, m.len() + 2 + c.rng.below(m.len()), 1 << 32 | c.rng.below(m.len()), usize::MAX - c.rng.below(3)] {
        ensure!(list.get(p).is_err(), "get({}) of {} {} was answered", p, m.len(), name);
        ensure!(list.get_mut(p).is_err(), "get_mut({}) of {} {} was answered", p, m.len(), name);
        if p > m.len() {
            ensure!(list.add_by_position(p, make(7)).is_err(), "add_by_position({}) on {} {} was accepted", p, m.len(), name);
            ensure!(list.length() == m.len(), "a refused addition left {} of {} {}", list.length(), m.len(), name);
        }
    }
    if target > 256 {
        c.ev("positions behind 256", 1);
    }
    for i in 0..m.len() {
        same(&mut list, &m, i)?;
    }
    ensure!(list.length() == target, "length is {}, expected {}", list.length(), target);
    c.ev("elements", target as u64);
    m.clear();
    drop(m);
    drop(list);
    let now = live_bytes();
    ensure!(now <= base + 512, "{} bytes stay allocated after a list of {} {} was dropped", now - base, target, name);
    Ok(())
}

// ------------------------------------------------------------------ C29

fn limits() -> Vec<f64> {
    let mut v: Vec<f64> = (1..10).map(|x| x as f64).collect();
    let mut s = 1.0;
    while s < 1e9 {
        for m in [10., 12., 14., 16., 18., 20., 25., 30., 35., 40., 45., 50., 60., 70., 80., 90.] {
            v.push(m * s);
        }
        s *= 10.0;
    }
    v.truncate(153);
    v.push(1e200);
    v
}

struct Report {
    count: f64,
    average: f64,
    stddev: f64,
    min: f64,
    median: f64,
    max: f64,
    rows: Vec<(f64, f64, f64, f64, f64)>,
    marks: Vec<f64>,
}

fn parse_report(s: &str) -> Result<Report, String> {
    let field = |name: &str| -> Result<f64, String> {
        let i = s.find(name).ok_or_else(|| format!("the report has no '{}': {}", name, s))? + name.len();
        let w = s[i..].split_whitespace().next().unwrap_or("");
        w.parse::<f64>().map_err(|_| format!("'{}' is followed by '{}'", name, w))
    };
    let mut rows = vec![];
    let mut marks = vec![];
    for line in s.lines().filter(|l| l.trim_start().starts_with('[')) {
        let nums: Vec<f64> = line
            .split(|ch: char| !(ch.is_ascii_digit() || ch == '.' || ch == '-' || ch == 'e' || ch == '+' || ch == 'N' || ch == 'a' || ch == 'i' || ch == 'n' || ch == 'f'))
            .filter(|t| !t.is_empty())
            .map(|t| t.parse::<f64>().unwrap_or(f64::NAN))
            .collect();
        ensure_len(nums.len() >= 5, line)?;
        rows.push((nums[0], nums[1], nums[2], nums[3], nums[4]));
        // the marks stand as a number before one sign, or, as in LevelDB, as that many signs
        marks.push(nums.get(5).copied().unwrap_or(line.matches('#').count() as f64));
    }
    Ok(Report { count: field("Count:")?, average: field("Average:")?, stddev: field("StdDev:")?, min: field("Min:")?, median: field("Median:")?, max: field("Max:")?, rows, marks })
}

fn ensure_len(ok: bool, line: &str) -> R {
    if ok { Ok(()) } else { Err(format!("a bucket row has too few columns: {}", line)) }
}

fn close(a: f64, b: f64, abs: f64) -> bool {
    (a - b).abs() <= abs + 1e-9 * b.abs()
}

fn check_report(s: &str, x: &[f64], lim: &[f64]) -> R {
    check_weighted(s, &x.iter().map(|v| (*v, 1)).collect::<Vec<_>>(), lim)
}

/// the same for samples that were taken in many times
fn check_weighted(s: &str, x: &[(f64, u64)], lim: &[f64]) -> R {
    let r = parse_report(s)?;
    let n = x.iter().map(|v| v.1).sum::<u64>() as f64;
    let sum: f64 = x.iter().map(|v| v.0 * v.1 as f64).sum();
    let (min, max) = x.iter().fold((f64::MAX, 0.0f64), |(a, b), v| (a.min(v.0), b.max(v.0)));
    ensure!(r.count == n, "count is {}, expected {}", r.count, n);
    ensure!(close(r.average, sum / n, 6e-5), "average is {}, expected {}", r.average, sum / n);
    // the minimum starts out as the last limit
    ensure!((close(r.min, min, 6e-5) || min >= 1e200) && close(r.max, max, 6e-5), "min and max are {} and {}, expected {} and {}", r.min, r.max, min, max);
    let mean = sum / n;
    let var = x.iter().map(|v| (v.0 - mean) * (v.0 - mean) * v.1 as f64).sum::<f64>() / n;
    let sq = x.iter().map(|v| v.0 * v.0 * v.1 as f64).sum::<f64>() / n;
    // the report may be computed from sums of squares, which cancel
    let tol = 0.006 + (sq * 1e-12).sqrt().min(sq * 1e-12 / var.sqrt().max(1e-300));
    ensure!(!sq.is_finite() || (sq * n * n).is_infinite() || (r.stddev - var.sqrt()).abs() <= tol + 1e-6 * var.sqrt(), "standard deviation is {}, expected {}", r.stddev, var.sqrt());
    // buckets
    let mut cells = vec![0u64; lim.len()];
    for v in x {
        cells[lim.partition_point(|l| *l <= v.0).min(lim.len() - 1)] += v.1;
    }
    let want: Vec<(f64, f64, f64)> = cells.iter().enumerate().filter(|(_, n)| **n > 0).map(|(i, n)| (if i == 0 { 0.0 } else { lim[i - 1] }, lim[i], *n as f64)).collect();
    let got: Vec<(f64, f64, f64)> = r.rows.iter().map(|t| (t.0, t.1, t.2)).collect();
    ensure!(got == want, "bucket rows are {:?}, expected {:?}", got, want);
    let mut acc = 0.0;
    for t in &r.rows {
        acc += t.2;
        ensure!((t.3 - 100.0 * t.2 / n).abs() < 0.002 && (t.4 - 100.0 * acc / n).abs() < 0.002, "a bucket of {} and {} up to it among {} shows {}% and {}%", t.2, acc, n, t.3, t.4);
    }
    for (t, m) in r.rows.iter().zip(&r.marks) {
        ensure!((m - 20.0 * t.2 / n).abs() <= 0.5 + 1e-6, "a bucket of {} among {} shows {} marks of twenty", t.2, n, m);
    }
    // median, interpolated inside its bucket
    let mut before = 0.0;
    for (i, k) in cells.iter().enumerate() {
        let k = *k as f64;
        if k > 0.0 && before + k >= n / 2.0 && min < 1e200 {
            let l = if i == 0 { 0.0 } else { lim[i - 1] };
            let m = (l + (lim[i] - l) * ((n / 2.0 - before) / k)).max(min).min(max);
            ensure!(close(r.median, m, 6e-5), "median is {}, expected {} in bucket {}..{}", r.median, m, l, lim[i]);
            break;
        }
        before += k;
    }
    Ok(())
}

fn sample(c: &mut Ctx, style: usize, lim: &[f64]) -> f64 {
    match style {
        0 => c.rng.below(12) as f64,
        1 => {
            c.ev("samples on a bucket limit", 1);
            lim[c.rng.below(lim.len() - 1)] + (c.rng.below(3) as f64 - 1.0)
        }
        2 => c.rng.below(200_000) as f64,
        7 => {
            c.ev("fractional samples", 1);
            c.rng.below(40) as f64 / 8.0 + *c.rng.pick(&[0.0, 0.001, 0.1, 17.0])
        }
        8 => {
            c.ev("samples in the last bucket", 1);
            10f64.powi(c.rng.range(10, 18) as i32) * (1 + c.rng.below(9)) as f64
        }
        3 => (c.rng.next() >> c.rng.range(30, 63)) as f64 + *c.rng.pick(&[0.0, 0.0, 0.5, 0.25]),
        4 => {
            c.ev("samples in the last bucket", 1);
            9e9 + c.rng.below(1_000_000_000) as f64 + *c.rng.pick(&[0.0, 0.5])
        }
        9 => {
            c.ev("samples beyond 1e50", 1);
            10f64.powi(c.rng.range(50, 296) as i32) * (1 + c.rng.below(99)) as f64
        }
        _ => 777.0,
    }
}

/// a histogram without samples
fn c29_empty(h: &Histogram) -> R {
    let s = h.to_string();
    let field = |name: &str| -> Result<String, String> {
        let i = s.find(name).ok_or_else(|| format!("the report has no '{}': {}", name, s))? + name.len();
        Ok(s[i..].split_whitespace().next().unwrap_or("").to_string())
    };
    for name in ["Count:", "Average:", "StdDev:", "Max:"] {
        let w = field(name)?;
        ensure!(w.parse::<f64>() == Ok(0.0), "{} is '{}' without samples", name, w);
    }
    ensure!(!s.lines().any(|l| l.trim_start().starts_with('[')), "a report without samples has bucket rows: {}", s);
    Ok(())
}

fn c29_report(c: &mut Ctx) -> R {
    let lim = limits();
    let style = c.rng.below(10);
    let n = match c.rng.below(4) {
        0 => 1,
        1 => c.rng.range(2, 5),
        _ => c.rng.range(1, c.by(20, 400, 3000)),
    };
    if style == 5 {
        c.ev("single-valued sets", 1);
    }
    let x: Vec<f64> = (0..n)
        .map(|_| {
            let s = if style == 6 { *c.rng.pick(&[0, 1, 2, 3, 4, 7, 8, 9]) } else { style };
            sample(c, s, &lim)
        })
        .collect();
    c.ev("samples", n as u64);
    c.fp = x.iter().fold(n as u64, |a, v| mix64(a ^ v.to_bits()));
    c.sample = format!("{} samples, style {}", n, style);
    let mut h = Histogram::default();
    let fresh = h.to_string();
    c29_empty(&h)?;
    if c.rng.chance(1, 3) {
        for _ in 0..c.rng.below(20) {
            let s = c.rng.below(10);
            let v = sample(c, s, &lim);
            h.add(v);
        }
        h.clear();
        c.ev("clears", 1);
        ensure!(h.to_string() == fresh, "a cleared histogram reports {:?}, a new one {:?}", h.to_string(), fresh);
    }
    let parts = c.rng.range(1, 5);
    if parts == 1 {
        x.iter().for_each(|v| h.add(*v));
    } else {
        let mut hs: Vec<Histogram> = (0..parts).map(|_| Histogram::default()).collect();
        for v in &x {
            let i = c.rng.below(parts);
            hs[i].add(*v);
        }
        // merge in a random tree
        while hs.len() > 1 {
            let i = c.rng.below(hs.len());
            let a = hs.swap_remove(i);
            let j = c.rng.below(hs.len());
            let before = a.to_string();
            hs[j].merge(&a);
            ensure!(a.to_string() == before, "merge changed the histogram that was merged in");
            c.ev("merges", 1);
        }
        h.merge(&hs[0]);
    }
    let text = h.to_string();
    ensure!(h.to_string() == text, "printing a histogram changed it");
    if let Err(m) = check_report(&text, &x, &lim) {
        return Err(format!("{} ({} samples in {} parts, first {:?})\n{}", m, n, parts, &x[..x.len().min(6)], text));
    }
    let cells: BTreeSet<usize> = x.iter().map(|v| lim.partition_point(|l| *l <= *v)).collect();
    c.nontrivial = cells.len() >= 3;
    // adding zero samples changes nothing
    h.merge(&Histogram::default());
    ensure!(h.to_string() == text, "merging an empty histogram changed the report");
    Ok(())
}

/// Counts far beyond what can be added one by one.
fn c29_many(c: &mut Ctx) -> R {
    let lim = limits();
    let mut x: Vec<(f64, u64)> = vec![];
    let mut h = Histogram::default();
    let style = *c.rng.pick(&[0, 1, 2, 3, 7, 8]);
    let top = c.rng.range(10, 51);
    let total = |x: &[(f64, u64)]| x.iter().map(|v| v.1).sum::<u64>();
    c.nontrivial = top >= 24;
    loop {
        for _ in 0..c.rng.below(3) + x.is_empty() as usize {
            let v = sample(c, style, &lim);
            c.mix(v.to_bits());
            c.ev("samples added to more than 2^24", (total(&x) > 1 << 24) as u64);
            if c.rng.chance(1, 2) {
                h.add(v);
            } else {
                let mut one = Histogram::default();
                one.add(v);
                h.merge(&one);
            }
            x.push((v, 1));
        }
        if c.rng.chance(1, 3) || total(&x) >> top > 0 {
            let s = h.to_string();
            if let Err(m) = check_weighted(&s, &x, &lim) {
                return Err(format!("{} ({:?})\n{}", m, &x[..x.len().min(6)], s));
            }
        }
        if total(&x) >> top > 0 {
            break;
        }
        // twice as many
        let mut twin = Histogram::default();
        twin.merge(&h);
        h.merge(&twin);
        c.ev("merges of more than 2^32", (total(&x) > 1 << 32) as u64);
        x.iter_mut().for_each(|v| v.1 *= 2);
    }
    c.sample = format!("{} samples of {} kinds", total(&x), x.len());
    Ok(())
}

// ------------------------------------------------------------------ C30

/// the generator as its tests pin it: 16807 * seed in 32 bits, folded at 2^31 - 1
fn ref_next(s: u32) -> u32 {
    let p = 16807u64 * s as u64 % (1 << 32);
    let t = p / (1 << 31) + p % (1 << 31);
    if t > 2147483647 { (t - 2147483647) as u32 } else { t as u32 }
}

fn inverse(m: u32) -> u32 {
    let mut x = m;
    for _ in 0..5 {
        x = x.wrapping_mul(2u32.wrapping_sub(m.wrapping_mul(x)));
    }
    x
}

fn some_seed(c: &mut Ctx) -> u32 {
    match c.rng.below(6) {
        0 => {
            c.ev("degenerate seeds", 1);
            *c.rng.pick(&[0u32, 2147483647, 1, 2147483646, 2147483648, u32::MAX])
        }
        1 => {
            // the product with 16807 is an edge of the folding
            c.ev("edge products", 1);
            let p = *c.rng.pick(&[0x7fff_ffffu32, 0x8000_0000, 0xffff_ffff, 1, 0x7fff_fffe, 0x8000_0001, 0xffff_fffe]);
            inverse(16807).wrapping_mul(p)
        }
        2 => {
            // the second product is
            c.ev("edge products", 1);
            let p = *c.rng.pick(&[0x7fff_ffffu32, 0x8000_0000, 0xffff_ffff]);
            let second = inverse(16807).wrapping_mul(p) & 0x7fff_ffff;
            inverse(16807).wrapping_mul(second)
        }
        _ => c.rng.edgy32(),
    }
}

fn c30_stream(c: &mut Ctx) -> R {
    let seed = some_seed(c);
    c.fp = seed as u64;
    c.nontrivial = true;
    c.sample = format!("seed {}", seed);
    let mut a = Random::new(seed);
    let mut b = Random::new(seed);
    let mut s = if seed == 0 || seed == 2147483647 { 1 } else { seed };
    for i in 0..c.by(30, 60, 200) {
        c.ev("draws", 1);
        let op = c.rng.below(6);
        let mut step = || {
            s = ref_next(s);
            s
        };
        match op {
            0 | 1 => {
                let (x, y) = (a.next(), b.next());
                ensure!(x == y, "two generators of seed {} differ at draw {}: {} and {}", seed, i, x, y);
                ensure!(x >= 1 && x <= 2147483647, "draw {} of seed {} is {}", i, seed, x);
                let w = step();
                ensure!(x == w, "draw {} of seed {} is {}, expected {}", i, seed, x, w);
            }
            2 => {
                let n = c.rng.edgy32().max(1);
                let (x, y) = (a.uniform(n), b.uniform(n));
                let w = step() % n;
                ensure!(x == y && x < n && x == w, "uniform({}) is {} and {}, expected {}", n, x, y, w);
            }
            3 => {
                let n = *c.rng.pick(&[1u32, 2, 3, 10, 4000, u32::MAX]);
                let (x, y) = (a.one_in(n), b.one_in(n));
                let w = step() % n == 0;
                ensure!(x == y && x == w && (n != 1 || x), "one_in({}) is {} and {}, expected {}", n, x, y, w);
            }
            4 => {
                let (x, y) = (a.next_bool(), b.next_bool());
                let w = step() % 2 == 0;
                ensure!(x == y && x == w, "next_bool is {} and {}, expected {}", x, y, w);
            }
            _ => {
                let m = c.rng.below(32) as u32;
                let (x, y) = (a.skewed(m), b.skewed(m));
                let bits = 1u64 << (step() % (m + 1));
                let w = (step() as u64 % bits) as u32;
                ensure!(x == y && (x as u64) < 1u64 << m && x == w, "skewed({}) is {} and {}, expected {}", m, x, y, w);
            }
        }
    }
    Ok(())
}

fn c30_spread(c: &mut Ctx) -> R {
    let seed = c.rng.u32();
    let mut r = Random::new(seed);
    c.fp = seed as u64;
    c.nontrivial = true;
    c.sample = format!("seed {}", seed);
    let draws = 20000u64;
    c.ev("draws", draws);
    let mut max = 0;
    let mut zero = 0;
    for _ in 0..draws {
        let v = r.skewed(10);
        ensure!(v < 1024, "skewed(10) is {}", v);
        max = max.max(v);
        zero += (v == 0) as u32;
    }
    // P(0) = sum 2^-i / 11 = 0.18; P(>= 512) = 1/22
    ensure!(zero > 1500 && zero < 8000 && max >= 512, "skewed(10) is not skewed: {} zeros, largest {} in {} draws", zero, max, draws);
    Ok(())
}

// ------------------------------------------------------------------ C31

const CODES: [i32; 8] = [0, 1, 2, 3, 4, 5, 6, 7];

fn level(n: i32) -> LevelError {
    match n {
        0 => LevelError::KOk,
        1 => LevelError::KNotFound,
        2 => LevelError::KCorruption,
        3 => LevelError::KNotSupported,
        4 => LevelError::KInvalidArgument,
        5 => LevelError::KIOError,
        6 => LevelError::KBadRecord,
        _ => LevelError::KRepeatedRecord,
    }
}

fn check_status(make: &dyn Fn() -> Status, code: i32, msg: &str) -> R {
    let s = make();
    let got = [s.is_ok(), s.is_not_found(), s.is_corruption(), s.is_not_supported_error(), s.is_invalid_argument(), s.is_io_error()];
    for (i, g) in got.iter().enumerate() {
        ensure!(*g == (i as i32 == code), "a status of code {} answers {:?} to the predicates", code, got);
    }
    ensure!(s.get_msg() == msg, "the message is {:?}, expected {:?}", s.get_msg(), msg);
    let e = s.get_error();
    ensure!(e.get_value() == code, "the error has code {}, expected {}", e.get_value(), code);
    let m = make().into_msg();
    let m: &[u8] = m.as_ref();
    ensure!(m == msg.as_bytes(), "into_msg gives {:?}, expected {:?}", String::from_utf8_lossy(m), msg);
    let t = make().to_string();
    let prefix = ["OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: "];
    if code == 0 {
        ensure!(t == "OK", "an ok status prints as {:?}", t);
    } else if (code as usize) < prefix.len() {
        ensure!(t == format!("{}{}", prefix[code as usize], msg), "a status of code {} with message {:?} prints as {:?}", code, msg, t);
    } else {
        ensure!(t.ends_with(msg) && t.len() > msg.len(), "a status of code {} with message {:?} prints as {:?}", code, msg, t);
    }
    Ok(())
}

fn c31_status(c: &mut Ctx) -> R {
    let max = if c.rng.chance(1, 20) { 3000 } else { 40 };
    let a = text(c, max);
    // messages that look like parts of a report, of each other, or are the same
    let odd = ["OK", ": ", ":", " ", "NotFound: ", "Corruption: ", "Corruption: x: y", "IO error: ", "\0", "\n", "{}", "%s"];
    let a = match c.rng.below(10) {
        0 => c.rng.pick(&odd).to_string(),
        1 => format!("{}{}", a, c.rng.pick(&odd)),
        _ => a,
    };
    let b = match c.rng.below(12) {
        0..=2 => String::new(),
        3 => a.clone(),
        4 => a.chars().take(c.rng.below(5)).collect(),
        5 => a.chars().skip(c.rng.below(5)).collect(),
        6 => c.rng.pick(&odd).to_string(),
        7 => text(c, max),
        _ => text(c, 40),
    };
    c.ev("equal messages", (a == b && !a.is_empty()) as u64);
    c.fp = hash_bytes(a.as_bytes()) ^ hash_bytes(b.as_bytes()).rotate_left(9);
    c.nontrivial = !a.is_empty() && !b.is_empty();
    c.sample = format!("{:?} / {:?}", a, b).chars().take(120).collect();
    if b.is_empty() {
        c.ev("empty second messages", 1);
    }
    if !a.is_ascii() {
        c.ev("non-ASCII messages", 1);
    }
    let both = if b.is_empty() { a.clone() } else { format!("{}: {}", a, b) };
    let (sa, sb) = (|| Slice::from(&a), || Slice::from(&b));
    check_status(&|| LevelError::ok(), 0, "")?;
    check_status(&|| Status::default(), 0, "")?;
    check_status(&|| LevelError::not_found(sa(), sb()), 1, &both)?;
    check_status(&|| LevelError::corruption(sa(), sb()), 2, &both)?;
    check_status(&|| LevelError::corruption_string(&a, &b), 2, &both)?;
    check_status(&|| LevelError::not_supported(sa(), sb()), 3, &both)?;
    check_status(&|| LevelError::invalid_argument(sa(), sb()), 4, &both)?;
    check_status(&|| LevelError::io_error(sa(), sb()), 5, &both)?;
    check_status(&|| LevelError::repeated_record(sa()), 7, &a)?;
    for n in CODES {
        let want = if n == 0 { "" } else { &a };
        check_status(&|| Status::wrapper(level(n), sa()), n, want)?;
        check_status(&|| Status::wrapper_str(level(n), &a), n, want)?;
        if n != 0 {
            check_status(&|| Status::wrappers(level(n), sa(), sb()), n, &both)?;
        }
    }
    let kinds = [std::io::ErrorKind::NotFound, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::Other, std::io::ErrorKind::Interrupted, std::io::ErrorKind::PermissionDenied];
    let k = *c.rng.pick(&kinds);
    check_status(&|| Status::from(std::io::Error::new(k, a.clone())), 5, &a)?;
    let e = std::io::Error::from(k).to_string();
    check_status(&|| Status::from(std::io::Error::from(k)), 5, &e)?;
    c.ev("I/O errors", 2);
    let s = Status::from(std::sync::PoisonError::new(1u8));
    ensure!(!s.is_ok() && s.is_corruption() && !s.get_msg().is_empty(), "a poison error became a status that reports {:?}", s.get_msg());
    c.ev("poison errors", 1);
    Ok(())
}

fn c31_codes(c: &mut Ctx) -> R {
    c.nontrivial = true;
    for n in [c.case as i32 - 20, c.rng.u32() as i32, c.rng.edgy32() as i32, -1, 8] {
        c.mix(n as u64);
        let r = LevelError::try_from(n);
        if (0..8).contains(&n) {
            match r {
                Ok(e) => ensure!(e.get_value() == n, "number {} became code {}", n, e.get_value()),
                Err(m) => return Err(format!("number {} is refused: {}", n, m)),
            }
        } else {
            c.ev("unknown numbers", 1);
            match r {
                Ok(e) => return Err(format!("unknown number {} became code {}", n, e.get_value())),
                Err(m) => ensure!(m.contains(&n.to_string()), "the report {:?} does not name the number {}", m, n),
            }
        }
    }
    for n in CODES {
        let e = level(n);
        ensure!(e.get_value() == n, "code {} has number {}", n, e.get_value());
        let p = [e.is_ok(), e.is_not_found(), e.is_corruption(), e.is_not_supported_error(), e.is_invalid_argument(), e.is_io_error()];
        for (i, g) in p.iter().enumerate() {
            ensure!(*g == (i as i32 == n), "code {} answers {:?} to the predicates", n, p);
        }
        ensure!(e.is_repeated_record() == (n == 7), "code {} answers {} to is_repeated_record", n, e.is_repeated_record());
        let back = LevelError::try_from(e.get_value());
        ensure!(matches!(&back, Ok(b) if b.get_value() == n), "code {} does not survive the conversion", n);
        let name = ["OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: ", "", ""][n as usize];
        let got = format!("{}", e);
        ensure!(if n < 6 { got == name } else { !got.is_empty() }, "code {} prints as {:?}", n, got);
    }
    ensure!(LevelError::default().is_ok(), "the default error is not ok");
    Ok(())
}

// ------------------------------------------------------------------ C32

/// two fields that only agree when nobody is inside
struct Guarded {
    a: u64,
    b: u64,
    trace: Vec<(u64, u64, usize)>,
}

fn c32_exclusion(c: &mut Ctx) -> R {
    let threads = c.rng.range(2, c.by(3, 8, 8));
    let ops = c.rng.range(5, c.by(10, 400, 1500));
    let m = Arc::new(MutexLock::new(Guarded { a: 0, b: 0, trace: vec![] }));
    let clock = Arc::new(AtomicU64::new(1));
    let inside = Arc::new(AtomicU64::new(0));
    let start = Arc::new(Barrier::new(threads));
    let spin = c.rng.below(60);
    let shared = c.rng.chance(1, 2);
    let one = Arc::new(m.get_lock());
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (m, clock, inside, start, one) = (m.clone(), clock.clone(), inside.clone(), start.clone(), one.clone());
            let mut rng = c.rng.clone();
            for _ in 0..t + 1 {
                rng = Rng::new(rng.next() ^ t as u64);
            }
            std::thread::spawn(move || -> Result<(u64, u64), String> {
                let own = m.get_lock();
                let lock = if shared { &*one } else { &own };
                start.wait();
                let (mut done, mut refused) = (0, 0);
                let mut left = ops;
                while left > 0 {
                    let fresh;
                    let l = if rng.chance(1, 8) {
                        fresh = m.get_lock();
                        &fresh
                    } else {
                        lock
                    };
                    let mut g = if rng.chance(1, 3) {
                        match l.try_lock() {
                            Ok(g) => g,
                            Err(TryLockError::WouldBlock) => {
                                refused += 1;
                                left -= 1;
                                continue;
                            }
                            Err(TryLockError::Poisoned(_)) => return Err("try_lock reports a poisoned lock and nobody died".into()),
                        }
                    } else {
                        match l.lock() {
                            Ok(g) => g,
                            Err(_) => return Err("lock reports a poisoned lock and nobody died".into()),
                        }
                    };
                    let others = inside.fetch_add(1, Ordering::SeqCst);
                    let from = clock.fetch_add(1, Ordering::SeqCst);
                    let (a, b) = (g.a, g.b);
                    g.a = a.wrapping_add(1);
                    for _ in 0..rng.below(spin + 1) {
                        std::hint::spin_loop();
                    }
                    if rng.chance(1, 16) {
                        std::thread::yield_now();
                    }
                    g.b = b.wrapping_add(1);
                    let to = clock.fetch_add(1, Ordering::SeqCst);
                    g.trace.push((from, to, t));
                    inside.fetch_sub(1, Ordering::SeqCst);
                    drop(g);
                    if others != 0 {
                        return Err(format!("{} other threads were inside together with thread {}", others, t));
                    }
                    if a != b {
                        return Err(format!("thread {} entered while the guarded value was half written ({} and {})", t, a, b));
                    }
                    done += 1;
                    left -= 1;
                }
                Ok((done, refused))
            })
        })
        .collect();
    let mut total = 0;
    let mut refused = 0;
    let mut bad = None;
    for h in hs {
        match h.join() {
            Ok(Ok((d, r))) => {
                total += d;
                refused += r;
            }
            Ok(Err(m)) => bad = bad.or(Some(m)),
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    if let Some(m) = bad {
        return Err(m);
    }
    let l = m.get_lock();
    let g = match l.lock() {
        Ok(g) => g,
        Err(_) => return Err("the lock is poisoned and nobody died".into()),
    };
    ensure!(g.a == total && g.b == total, "{} sections were executed but the counters are {} and {}: updates were lost", total, g.a, g.b);
    ensure!(g.trace.len() as u64 == total, "{} sections were executed, {} logged", total, g.trace.len());
    let mut alt = 0;
    for w in g.trace.windows(2) {
        ensure!(w[0].1 < w[1].0, "section {:?} began before {:?} ended", w[1], w[0]);
        alt += (w[0].2 != w[1].2) as u64;
    }
    c.ev("critical sections", total);
    c.ev("alternations between threads", alt);
    c.ev("try_lock refusals", refused);
    c.nontrivial = alt > 0 || refused > 0;
    c.fp = g.trace.iter().fold(threads as u64, |a, t| mix64(a ^ t.2 as u64));
    c.sample = format!("{} threads, {} sections, {} alternations, {} refusals", threads, total, alt, refused);
    Ok(())
}

fn c32_poison(c: &mut Ctx) -> R {
    let m = Arc::new(MutexLock::new(5u64));
    let early = if c.rng.chance(1, 2) { Some(m.get_lock()) } else { None };
    let by_try = c.rng.chance(1, 2);
    let m2 = m.clone();
    c.nontrivial = true;
    c.fp = c.case;
    c.sample = format!("holder dies, taken by try_lock {}", by_try);
    let h = std::thread::spawn(move || {
        let l = m2.get_lock();
        let mut g = if by_try { l.try_lock().ok() } else { l.lock().ok() };
        if let Some(g) = g.as_mut() {
            **g = 6;
        }
        // no panic hook, no message: just an unwinding holder
        std::panic::resume_unwind(Box::new(77u8));
        #[allow(unreachable_code)]
        drop(g);
    });
    match h.join() {
        Err(p) if p.downcast_ref::<u8>() == Some(&77) => {}
        _ => return Err("the holder did not die as arranged".into()),
    }
    c.ev("dead holders", 1);
    let late = m.get_lock();
    // asked by a thread that is unwinding itself
    struct Asks<'a>(&'a Lock<u64>, &'a Cell<(bool, bool)>);
    impl Drop for Asks<'_> {
        fn drop(&mut self) {
            let by_lock = self.0.lock().is_err();
            let by_try = matches!(self.0.try_lock(), Err(TryLockError::Poisoned(_)));
            self.1.set((by_lock, by_try));
        }
    }
    let refused = Cell::new((false, false));
    drop_unwinding(Asks(&late, &refused));
    ensure!(refused.get() == (true, true), "a thread that unwinds gets the lock of a dead holder (refused by lock {}, by try_lock {})", refused.get().0, refused.get().1);
    for (who, l) in [("an older", early.as_ref()), ("a new", Some(&late))] {
        let Some(l) = l else {
            continue;
        };
        let r = l.lock();
        ensure!(r.is_err(), "{} handle locks normally although a holder died inside", who);
        drop(r);
        match l.try_lock() {
            Err(TryLockError::Poisoned(e)) => {
                let v = **e.get_ref();
                ensure!(v == 6, "the value under the dead lock is {}, expected 6", v);
            }
            Err(TryLockError::WouldBlock) => return Err(format!("{} handle: the dead holder still blocks the lock", who)),
            Ok(_) => return Err(format!("{} handle try_locks normally although a holder died inside", who)),
        }
        c.ev("refused locks", 2);
    }
    Ok(())
}

/// The guarded value lives as long as the lock or any handle, and no longer.
fn c32_handles(c: &mut Ctx) -> R {
    struct Counted(Arc<AtomicU64>, u64);
    impl Drop for Counted {
        fn drop(&mut self) {
            self.0.fetch_add(1, Ordering::SeqCst);
        }
    }
    let dropped = Arc::new(AtomicU64::new(0));
    let n = c.rng.edge_len(c.by(40, 3000, 10_000)).max(1);
    c.nontrivial = true;
    c.fp = n as u64 ^ c.case << 32;
    c.sample = format!("{} handles", n);
    c.ev("handles", n as u64);
    let m = MutexLock::new(Counted(dropped.clone(), 0));
    let mut m = Some(m);
    let mut hs = vec![];
    for _ in 0..n {
        hs.push(m.as_ref().unwrap().get_lock());
    }
    c.rng.shuffle(&mut hs);
    let when = c.rng.below(n + 1);
    let mut left = 0;
    let mut i = 0;
    while let Some(h) = hs.pop() {
        if i == when {
            m = None;
            c.ev("values outliving their lock", 1);
        }
        i += 1;
        ensure!(dropped.load(Ordering::SeqCst) == 0, "the guarded value is gone with {} handles left", hs.len() + 1);
        if i % 7 == 0 || hs.is_empty() {
            match h.lock() {
                Ok(mut g) => {
                    ensure!(g.1 == left, "the guarded value is {}, expected {}", g.1, left);
                    g.1 += 1;
                    left += 1;
                }
                Err(_) => return Err("lock failed".into()),
            }
            if let Some(o) = hs.last() {
                let g = h.lock();
                ensure!(o.try_lock().is_err(), "another of {} handles gets the lock while it is held", n);
                drop(g);
                ensure!(o.try_lock().is_ok(), "another of {} handles finds the lock taken after its release", n);
            }
        }
    }
    if m.take().is_some() {
        ensure!(dropped.load(Ordering::SeqCst) == 1, "the guarded value was dropped {} times with its lock and {} handles", dropped.load(Ordering::SeqCst), n);
    }
    ensure!(dropped.load(Ordering::SeqCst) == 1, "the guarded value was dropped {} times after its lock and {} handles", dropped.load(Ordering::SeqCst), n);
    // a holder that dies while this is the last handle left, and while others are
    for alone in [true, false] {
        let m = MutexLock::new(1u64);
        let last = m.get_lock();
        let more = if alone { None } else { Some(m.get_lock()) };
        drop(m);
        let died = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _g = last.lock();
            std::panic::resume_unwind(Box::new(79u8));
        }));
        ensure!(died.is_err(), "the holder did not die as arranged");
        ensure!(last.lock().is_err(), "lock() hands out a lock whose holder died, with {} handle left", if alone { "one" } else { "another" });
        ensure!(matches!(last.try_lock(), Err(TryLockError::Poisoned(_))), "try_lock() does not report the dead holder, with {} handle left", if alone { "one" } else { "another" });
        if let Some(o) = more {
            drop(last);
            ensure!(o.lock().is_err() && o.try_lock().is_err(), "the last handle gets a lock whose holder died");
        }
        c.ev("holders that died on the last handle", alone as u64);
    }
    // a thread that unwinds finds the lock as any other does
    let m = Arc::new(MutexLock::new(3u64));
    let own = m.get_lock();
    let held = c.rng.chance(1, 2);
    let g = if held { own.lock().ok() } else { None };
    let said = Arc::new(AtomicU64::new(0));
    let (m2, said2) = (m.clone(), said.clone());
    let h = std::thread::spawn(move || {
        struct Last(Arc<MutexLock<u64>>, Arc<AtomicU64>);
        impl Drop for Last {
            fn drop(&mut self) {
                let l = self.0.get_lock();
                let r = match l.try_lock() {
                    Ok(g) if *g == 3 => 1,
                    Ok(_) => 2,
                    Err(TryLockError::WouldBlock) => 3,
                    Err(TryLockError::Poisoned(_)) => 4,
                };
                self.1.store(r, Ordering::SeqCst);
            }
        }
        let _last = Last(m2, said2);
        std::panic::resume_unwind(Box::new(78u8));
    });
    // (a try_lock that waits for the holder is let go after a while)
    for _ in 0..60_000 {
        if said.load(Ordering::SeqCst) != 0 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    let early = said.load(Ordering::SeqCst);
    drop(g);
    match h.join() {
        Err(p) if p.downcast_ref::<u8>() == Some(&78) => {}
        _ => return Err("the caller did not die as arranged".into()),
    }
    let late = said.load(Ordering::SeqCst);
    c.ev("unwinding callers", 1);
    let want = if held { 3 } else { 1 };
    ensure!(late == want && early == want, "an unwinding caller's try_lock while the lock is {} ended {} (1 got it, 3 would block), early {}", if held { "held" } else { "free" }, late, early);
    ensure!(own.try_lock().is_ok(), "the lock is not free after the unwinding caller");
    Ok(())
}

fn c32_held(c: &mut Ctx) -> R {
    let m = Arc::new(MutexLock::new(vec![0u64]));
    let rounds = c.rng.range(1, c.by(3, 20, 60));
    c.nontrivial = true;
    c.fp = rounds as u64 ^ c.case << 8;
    c.sample = format!("{} rounds", rounds);
    let flag = Arc::new(AtomicBool::new(false));
    for r in 0..rounds {
        let l = m.get_lock();
        let mut g = match l.lock() {
            Ok(g) => g,
            Err(_) => return Err("lock failed".into()),
        };
        flag.store(false, Ordering::SeqCst);
        let (m2, flag2) = (m.clone(), flag.clone());
        let (tx, rx) = std::sync::mpsc::channel();
        let h = std::thread::spawn(move || -> Result<u64, String> {
            let l = m2.get_lock();
            let refused = match l.try_lock() {
                Err(TryLockError::WouldBlock) => true,
                _ => false,
            };
            let _ = tx.send(());
            if !refused {
                return Err("try_lock succeeded while another thread holds the lock".into());
            }
            let g = match l.lock() {
                Ok(g) => g,
                Err(_) => return Err("lock failed".into()),
            };
            if !flag2.load(Ordering::SeqCst) {
                return Err("lock returned while another thread holds the lock".into());
            }
            Ok(g.iter().sum())
        });
        let _ = rx.recv();
        g.push(r as u64 + 1);
        if c.rng.chance(1, 2) {
            std::thread::yield_now();
        }
        let want: u64 = g.iter().sum();
        flag.store(true, Ordering::SeqCst);
        drop(g);
        match h.join() {
            Ok(Ok(v)) => ensure!(v == want, "the next holder saw {}, expected {}", v, want),
            Ok(Err(m)) => return Err(m),
            Err(p) => std::panic::resume_unwind(p),
        }
        c.ev("try_lock refusals", 1);
        c.ev("hand-overs", 1);
        // same thread, second handle
        let g1 = l.lock();
        let l2 = m.get_lock();
        ensure!(matches!(l2.try_lock(), Err(TryLockError::WouldBlock)), "a second handle of the same thread gets the lock while it is held");
        drop(g1);
        ensure!(l2.try_lock().is_ok(), "the lock is not free after its release");
    }
    let _: Option<Mutex<()>> = None;
    Ok(())
}
