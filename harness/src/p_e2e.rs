//! C33..C35: the parts together. Recovery of batches and version edits through a cut log, filter blocks
//! behind a LevelDB reader, and components used from many threads at once.

use crate::kit::*;
use crate::p_log::{gen_split, read_all, same_records, write_all, Item};
use crate::p_mem::{in_arena, internal_order};
use crate::p_misc::{decode_edit, text, Edit};
use crate::refs;
use level_db_rust::db::db_format::{pack_sequence_and_type, InternalKey, LookupKey, ValueType};
use level_db_rust::db::mem_table::MemTable;
use level_db_rust::db::skip_list::SkipList;
use level_db_rust::db::version_edit::VersionEdit;
use level_db_rust::table::filter_block::{FilterBlock, FilterBlockBuilder};
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::traits::filter_policy_trait::FilterPolicy;
use level_db_rust::traits::DataIterator;
use level_db_rust::util::arena::Arena;
use level_db_rust::util::coding::{Decoder, Encoder};
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Barrier, Mutex};

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C33", name: "c33_batches", rule: "write batches encoded, logged, cut at a random byte, read back, decoded and replayed into a skip list and a memtable, then the log rewritten from the recovered table and cut again; non-trivial: a batch was lost and one survived", run: c33_batches, cases: (4, 250, 2000), must_see: &["batches recovered", "batches lost to the cut", "deletions", "overwritten keys", "restarts", "entries replayed", "multi-block logs"] },
        Suite { prop: "C33", name: "c33_manifest", rule: "version edits encoded, logged, cut at a random byte, read back and folded into the state of the store, restarted from a snapshot edit; non-trivial: an edit was lost and one survived", run: c33_manifest, cases: (5, 400, 4000), must_see: &["edits recovered", "edits lost to the cut", "files live", "files removed", "files moved", "restarts"] },
        Suite { prop: "C33", name: "c33_many", rule: "the same with thousands of short batches on short keys; non-trivial: a batch was lost and one survived", run: c33_many, cases: (0, 12, 100), must_see: &["batches recovered", "restarts", "entries replayed"] },
        Suite { prop: "C33", name: "c33_files", rule: "the same with edits of up to thousands of files; non-trivial: an edit was lost and one survived", run: c33_files, cases: (0, 12, 100), must_see: &["edits recovered", "files live"] },
        Suite { prop: "C34", name: "c34_filter_block", rule: "data blocks of random sizes, keys and positions behind a bloom filter block, asked through a LevelDB filter block reader for every key at its block's offset and for absent keys; non-trivial: at least two blocks with keys", run: c34_filter_block, cases: (4, 250, 2500), must_see: &["keys asked", "absent keys asked", "absent keys denied", "blocks sharing a filter", "blocks over several ranges", "blocks embedded in other bytes", "empty keys", "keys in two blocks", "keys added as text", "blocks of empty keys only"] },
        Suite { prop: "C34", name: "c34_large", rule: "as c34_filter_block with one dimension far beyond a usual table: over 5000 and over 65535 keys in a block, keys of 64 KiB to 16 MiB, filters of over 2^20 to 2^27 bits, up to 140000 leading ranges without keys; non-trivial: at least two blocks with keys", run: c34_large, cases: (0, 18, 180), must_see: &["keys asked", "absent keys denied", "blocks of over 5000 keys", "filters of over 2 MiB", "keys of over 64 KiB", "many ranges without keys"] },
        Suite { prop: "C35", name: "c35_threads", rule: "two to eight threads started together, each running whole cases of other suites on its own objects, every oracle of those suites applying; non-trivial: at least two different suites overlapped", run: c35_threads, cases: (2, 500, 6000), must_see: &["cases on threads", "threads", "suites overlapping"] },
        Suite { prop: "C35", name: "c35_handover", rule: "slices, buffers and encoded data made on one thread and used, changed and dropped on another; non-trivial: all", run: c35_handover, cases: (2, 150, 1500), must_see: &["objects handed over"] },
    ]
}

fn st<T>(r: level_db_rust::util::Result<T>, what: &str) -> Result<T, String> {
    r.map_err(|s| format!("{} returned an error: {}", what, s.to_string()))
}

// ------------------------------------------------------------------ C33: batches

/// memtable entries: user key ascending, newest first
struct ByTag;

impl Comparator for ByTag {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> {
        Some(internal_order(a, b))
    }
    fn get_name(&self) -> String {
        "verif.bytag".into()
    }
    fn find_shortest_separator(&self, s: &String, _l: &Slice) -> String {
        s.clone()
    }
    fn find_short_successor(&self, k: &String) -> String {
        k.clone()
    }
}

/// the same order, watching what it is given: nothing but added entries
#[derive(Default)]
struct Watch {
    added: Mutex<BTreeSet<Vec<u8>>>,
    foreign: Mutex<Option<Vec<u8>>>,
    /// the stored side of the last equal pair
    equal: Mutex<Option<Vec<u8>>>,
    calls: std::sync::atomic::AtomicU64,
}

impl Comparator for Watch {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> {
        self.calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let added = self.added.lock().unwrap();
        for x in [a, b] {
            if !added.contains(x) {
                *self.foreign.lock().unwrap() = Some(x.to_vec());
                return Some(a.cmp(b));
            }
        }
        let o = internal_order(a, b);
        if o == Ordering::Equal {
            *self.equal.lock().unwrap() = Some(b.to_vec());
        }
        Some(o)
    }
    fn get_name(&self) -> String {
        "verif.watch".into()
    }
    fn find_shortest_separator(&self, s: &String, _l: &Slice) -> String {
        s.clone()
    }
    fn find_short_successor(&self, k: &String) -> String {
        k.clone()
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Op {
    key: Vec<u8>,
    /// None: a deletion
    value: Option<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq)]
struct Batch {
    seq: u64,
    ops: Vec<Op>,
}

/// LevelDB's batch format, written with the repository's encoder
fn encode_batch(b: &Batch) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    {
        let mut e = Encoder::with_vec(&mut v);
        st(e.put_fixed64(b.seq), "put_fixed64")?;
        st(e.put_fixed32(b.ops.len() as u32), "put_fixed32")?;
        for o in &b.ops {
            st(e.put_buf(&[o.value.is_some() as u8]), "put_buf")?;
            st(e.put_length_prefixed_slice(&Slice::from_buf(&o.key)), "put_length_prefixed_slice")?;
            if let Some(x) = &o.value {
                st(e.put_length_prefixed_slice(&Slice::from_buf(x)), "put_length_prefixed_slice")?;
            }
        }
    }
    Ok(v)
}

fn decode_batch(rec: &[u8]) -> Result<Batch, String> {
    let mut d = Decoder::with_buf(rec);
    let seq = st(d.get_fixed64(), "get_fixed64")?;
    let n = st(d.get_fixed32(), "get_fixed32")?;
    let mut ops = vec![];
    for _ in 0..n {
        let t = st(d.get_buf(1), "get_buf")?;
        let t: &[u8] = t.as_ref();
        ensure!(t.len() == 1, "get_buf(1) returned {} bytes", t.len());
        let t = t[0];
        let key = st(d.get_length_prefixed_slice(), "get_length_prefixed_slice")?.as_ref().to_vec();
        let value = match t {
            0 => None,
            1 => Some(st(d.get_length_prefixed_slice(), "get_length_prefixed_slice")?.as_ref().to_vec()),
            _ => return Err(format!("a batch written with tags 0 and 1 is read with tag {}", t)),
        };
        ops.push(Op { key, value });
    }
    ensure!(!d.can_get(), "bytes are left behind the last entry of a batch");
    Ok(Batch { seq, ops })
}

fn entry(seq: u64, o: &Op) -> Vec<u8> {
    let mut e = vec![];
    refs::put_varint(&mut e, o.key.len() as u64 + 8);
    e.extend_from_slice(&o.key);
    e.extend((seq << 8 | o.value.is_some() as u64).to_le_bytes());
    let v: &[u8] = o.value.as_deref().unwrap_or(&[]);
    refs::put_varint(&mut e, v.len() as u64);
    e.extend_from_slice(v);
    e
}

fn gen_batch(c: &mut Ctx, seq: u64, keys: &mut Vec<Vec<u8>>) -> Batch {
    let n = match c.rng.below(6) {
        0 => 0,
        1 => c.rng.range(1, c.by(6, 60, 300)),
        _ => c.rng.range(1, c.by(3, 6, 12)),
    };
    let ops = (0..n)
        .map(|_| {
            let key = if !keys.is_empty() && c.rng.chance(1, 2) {
                c.ev("overwritten keys", 1);
                keys[c.rng.below(keys.len())].clone()
            } else if c.scale > 0 && c.rng.chance(1, 1500) {
                c.ev("keys over 1 MiB", 1);
                let l = c.rng.range(1 << 20, 3 << 20);
                c.rng.bytes(l)
            } else if c.rng.chance(1, 12) {
                let b = c.by(200, 20_000, 70_000);
                let l = c.rng.edge_len(b);
                c.rng.bytes(l)
            } else {
                c.rng.key(24)
            };
            let giant = c.scale > 0 && c.rng.chance(1, 800);
            let key = if giant && c.rng.chance(1, 3) { vec![] } else { key };
            keys.push(key.clone());
            let value = if !giant && c.rng.chance(1, 4) {
                c.ev("deletions", 1);
                None
            } else {
                let b = c.by(300, 40_000, 100_000);
                c.ev("values over 1 MiB", giant as u64);
                let l = if giant { c.rng.range(1 << 20, 5 << 20) } else if c.rng.chance(1, 6) { 0 } else if c.rng.chance(1, 10) { c.rng.edge_len(b) } else { c.rng.range(0, 60) };
                Some(match c.rng.below(12) {
                    _ if giant => c.rng.bytes(l),
                    0 => key.clone(),
                    1 => c.rng.special(64),
                    2 => keys[c.rng.below(keys.len())].clone(),
                    _ => c.rng.bytes(l),
                })
            };
            Op { key, value }
        })
        .collect();
    Batch { seq, ops }
}

/// a few short operations
fn tiny_batch(c: &mut Ctx, seq: u64, keys: &mut Vec<Vec<u8>>) -> Batch {
    let n = c.rng.range(1, 5);
    let ops = (0..n)
        .map(|_| {
            let l = c.rng.range(0, 4);
            let key = c.rng.bytes(l);
            keys.push(key.clone());
            let l = c.rng.range(0, 6).saturating_sub(3);
            Op { key, value: if c.rng.chance(1, 4) { None } else { Some(c.rng.bytes(l)) } }
        })
        .collect();
    Batch { seq, ops }
}

fn c33_batches(c: &mut Ctx) -> R {
    c33_replay(c, false)
}

fn c33_many(c: &mut Ctx) -> R {
    c33_replay(c, true)
}

fn c33_replay(c: &mut Ctx, many: bool) -> R {
    let rounds = c.rng.range(1, c.by(2, 3, 5));
    // what survived so far, in order
    let mut alive: Vec<Batch> = vec![];
    let mut keys: Vec<Vec<u8>> = vec![];
    let (mut lost, mut kept) = (0u64, 0u64);
    let start = c.rng.edgy64() % (1 << 56);
    let mut seq = start.min((1 << 56) - 1 - 200_000);
    for round in 0..rounds {
        let mut batches = alive.clone();
        let mut recs = vec![];
        for b in &batches {
            recs.push(encode_batch(b)?);
        }
        let more = if many { c.rng.range(c.by(10, 400, 800), c.by(20, 2500, 5000)) } else { c.rng.range(1, c.by(4, 12, 40)) };
        for _ in 0..more {
            let mut b = if many { tiny_batch(c, seq, &mut keys) } else { gen_batch(c, seq, &mut keys) };
            seq += b.ops.len() as u64;
            let mut rec = encode_batch(&b)?;
            if c.rng.chance(1, if many { 400 } else { 5 }) {
                // sized to leave a few bytes in the block
                let room = refs::BLOCK - refs::log_file(&recs).0.len() % refs::BLOCK;
                // of its own, or of a later one
                let later = if c.rng.chance(1, 2) { c.rng.range(1, 3) * (refs::BLOCK - 7) } else { 0 };
                let more = (room + later).saturating_sub(7 + rec.len() + if c.rng.chance(1, 3) { 0 } else { c.rng.range(0, 16) });
                if let (Some(Some(v)), true) = (b.ops.last_mut().map(|o| o.value.as_mut()), more < c.by(2000, 140_000, 140_000)) {
                    v.resize(v.len() + more, 7);
                    rec = encode_batch(&b)?;
                    c.ev("batches sized to a block end", 1);
                }
            }
            recs.push(rec);
            batches.push(b);
        }
        let split = gen_split(c, recs.iter().map(|r| r.len() + 16).sum());
        let intr = *c.rng.pick(&[0usize, 0, 20]);
        let bytes = write_all(c, &recs, split, intr)?;
        let (want_file, lay) = refs::log_file(&recs);
        ensure!(bytes == want_file, "the log of the batches is not LevelDB's");
        if bytes.len() > refs::BLOCK {
            c.ev("multi-block logs", 1);
        }
        // the crash; at times nothing is lost
        let cut = match c.rng.below(4) {
            0 => bytes.len(),
            1 if !lay.is_empty() => {
                let l = c.rng.pick(&lay);
                (l.end + c.rng.below(12)).saturating_sub(6).min(bytes.len())
            }
            _ => c.rng.below(bytes.len() + 1),
        };
        let whole = lay.iter().filter(|l| l.end <= cut).count();
        let split = gen_split(c, cut);
        let checksum = c.rng.chance(2, 3);
        let items = read_all(c, &bytes[..cut], split, intr, checksum, 0)?;
        let mut back = vec![];
        for it in items {
            match it {
                Item::Rec(r) => back.push(r),
                Item::Bad(e) => return Err(format!("a cut log reports an error: {}", e.to_string())),
            }
        }
        same_records(&back, &recs[..whole])?;
        kept += whole as u64;
        lost += (recs.len() - whole) as u64;
        // replay
        let arena = Arc::new(Mutex::new(Arena::default()));
        let mut list = SkipList::create(Arc::new(ByTag), arena.clone());
        let watch = Arc::new(Watch::default());
        let mut table = MemTable::create(watch.clone());
        let mut model: Vec<Vec<u8>> = vec![];
        let mut payload = 0;
        alive.clear();
        for (r, want) in back.iter().zip(&batches) {
            let b = decode_batch(r)?;
            ensure!(b == *want, "batch at sequence {} is decoded as {:?}, written {:?}", want.seq, b, want);
            for (i, o) in b.ops.iter().enumerate() {
                let s = b.seq + i as u64;
                let e = entry(s, o);
                st(list.insert(in_arena(&e, &arena)?), "insert")?;
                let t = if o.value.is_some() { ValueType::KTypeValue } else { ValueType::KTypeDeletion };
                let v = o.value.clone().unwrap_or_default();
                ensure!(pack_sequence_and_type(s as usize, if o.value.is_some() { ValueType::KTypeValue } else { ValueType::KTypeDeletion }) == s << 8 | o.value.is_some() as u64, "the packed tag of sequence {} is wrong", s);
                watch.added.lock().unwrap().insert(e.clone());
                let calls = watch.calls.load(std::sync::atomic::Ordering::Relaxed);
                st(table.add(s as usize, t, &o.key, &v), "add")?;
                ensure!(model.is_empty() || watch.calls.load(std::sync::atomic::Ordering::Relaxed) > calls, "an entry was added to a table of {} without a comparison", model.len());
                payload += e.len();
                model.push(e);
                c.ev("entries replayed", 1);
            }
            alive.push(b);
        }
        ensure!(table.approximate_memory_usage() >= payload, "the memtable reports {} bytes for {} bytes of entries", table.approximate_memory_usage(), payload);
        // the memtable holds what was added to it: an equal entry meets it there
        for b in &alive {
            for (i, o) in b.ops.iter().enumerate() {
                if model.len() > 60 && !c.rng.chance(60, model.len()) {
                    continue;
                }
                let s = b.seq + i as u64;
                let e = entry(s, o);
                *watch.equal.lock().unwrap() = None;
                let t = if o.value.is_some() { ValueType::KTypeValue } else { ValueType::KTypeDeletion };
                st(table.add(s as usize, t, &o.key, &o.value.clone().unwrap_or_default()), "add")?;
                let met = watch.equal.lock().unwrap().take();
                ensure!(met.as_ref() == Some(&e), "the entry at sequence {} is not found in the memtable: {:?}", s, met.map(|m| hex(&m)));
                c.ev("entries met in the memtable", 1);
            }
        }
        if let Some(x) = watch.foreign.lock().unwrap().as_ref() {
            return Err(format!("the memtable compares {}, which was not added", hex(x)));
        }
        for _ in 0..6 {
            if !model.is_empty() {
                let e = match model.iter().position(|e| e.len() > 1 << 20) {
                    Some(i) if c.rng.chance(1, 3) => model[i].clone(),
                    _ => model[c.rng.below(model.len())].clone(),
                };
                ensure!(list.contains(&e), "the replayed table does not contain entry {}", hex(&e));
            }
        }
        model.sort_by(|a, b| internal_order(a, b));
        let mut cur = list.iter();
        cur.seek_to_last();
        ensure!(cur.valid() != model.is_empty(), "a cursor on the last of {} entries is valid: {}", model.len(), cur.valid());
        if let Some(m) = model.last() {
            let k = cur.key();
            let k: &[u8] = k.as_ref();
            ensure!(k == &m[..], "the last entry is {}, expected {}", hex(k), hex(m));
        }
        ensure!(list.len() == model.len(), "the replayed table has {} entries, expected {}", list.len(), model.len());
        let mut n = 0;
        let mut it = list.iter();
        while let Some(k) = Iterator::next(&mut it) {
            ensure!(n < model.len(), "the replayed table has more than its {} entries", model.len());
            let k: &[u8] = k.as_ref();
            ensure!(k == &model[n][..], "entry {} of the replayed table is {}, expected {}", n, hex(k), hex(&model[n]));
            n += 1;
        }
        ensure!(n == model.len(), "iteration of the replayed table ends after {} of {} entries", n, model.len());
        // the newest state of a key is the first entry at or behind its lookup key
        for _ in 0..c.rng.range(0, 6) {
            if model.is_empty() || keys.is_empty() {
                break;
            }
            let k = keys[c.rng.below(keys.len())].clone();
            let snap = start.min(seq) + c.rng.below((seq - start.min(seq) + 1) as usize) as u64;
            let lk = LookupKey::new(Slice::from_buf(&k), snap as usize).mem_table_key();
            let lk: &[u8] = lk.as_ref();
            let i = model.partition_point(|e| internal_order(e, lk) == Ordering::Less);
            let want = alive.iter().flat_map(|b| b.ops.iter().enumerate().map(move |(i, o)| (b.seq + i as u64, o))).filter(|(s, o)| *s <= snap && o.key == k).last();
            let got = model.get(i).filter(|e| {
                let (n, used, _) = refs::get_varint(e, 32).expect("own entry");
                e[used..used + n as usize - 8] == k[..]
            });
            match (want, got) {
                (None, None) => {}
                (Some((s, o)), Some(e)) => ensure!(*e == entry(s, o), "looking up a key at sequence {} leads to {}, expected {}", snap, hex(e), hex(&entry(s, o))),
                (w, g) => return Err(format!("looking up a key of {} bytes at sequence {} leads to {:?}, expected {:?}", k.len(), snap, g.map(|e| hex(e)), w.map(|x| x.0))),
            }
            c.ev("snapshot lookups", 1);
        }
        if round > 0 {
            c.ev("restarts", 1);
        }
        c.mix(hash_bytes(&bytes[..cut]));
    }
    c.ev("batches recovered", kept);
    c.ev("batches lost to the cut", lost);
    c.nontrivial = kept > 0 && lost > 0;
    c.sample = format!("{} rounds, {} batches recovered, {} lost", rounds, kept, lost);
    Ok(())
}

// ------------------------------------------------------------------ C33: manifest

#[derive(Default, Debug, PartialEq, Clone)]
struct Store {
    comparator: Option<Vec<u8>>,
    log: Option<u64>,
    prev_log: Option<u64>,
    next_file: Option<u64>,
    last_seq: Option<u64>,
    compact: BTreeMap<u32, Vec<u8>>,
    files: BTreeMap<(u32, u64), u64>,
}

impl Store {
    /// LevelDB's builder: deletions of an edit come before its additions
    fn apply(&mut self, e: &Edit) {
        fn put<T: Clone>(a: &mut Option<T>, b: &Option<T>) {
            if b.is_some() {
                *a = b.clone()
            }
        }
        put(&mut self.comparator, &e.comparator);
        put(&mut self.log, &e.log);
        put(&mut self.prev_log, &e.prev_log);
        put(&mut self.next_file, &e.next_file);
        put(&mut self.last_seq, &e.last_seq);
        for (l, k) in &e.compact {
            self.compact.insert(*l, k.clone());
        }
        for f in &e.deleted {
            self.files.remove(f);
        }
        for (l, n, s, _, _) in &e.new {
            self.files.insert((*l, *n), *s);
        }
    }
    fn snapshot(&self) -> (VersionEdit, Edit) {
        let mut v = VersionEdit::new();
        let mut e = Edit::default();
        if let Some(x) = &self.comparator {
            v.set_comparator_name(Slice::from_buf(x));
        }
        e.comparator = self.comparator.clone();
        for l in self.compact.keys() {
            v.set_compact_pointer(*l, InternalKey::default());
            e.compact.push((*l, vec![]));
        }
        for ((l, n), s) in &self.files {
            v.add_file(*l, *n, *s, InternalKey::default(), InternalKey::default());
            e.new.push((*l, *n, *s, vec![], vec![]));
        }
        for (o, set) in [(&self.log, 0), (&self.prev_log, 1), (&self.next_file, 2), (&self.last_seq, 3)] {
            if let Some(n) = *o {
                match set {
                    0 => v.set_log_number(n),
                    1 => v.set_prev_log_number(n),
                    2 => v.set_next_file(n),
                    _ => v.set_last_sequence(n),
                }
            }
        }
        e.log = self.log;
        e.prev_log = self.prev_log;
        e.next_file = self.next_file;
        e.last_seq = self.last_seq;
        (v, e)
    }
}

fn gen_edit(c: &mut Ctx, files: &mut BTreeSet<(u32, u64)>, next: &mut u64, much: usize) -> (VersionEdit, Edit) {
    /// numbers of a store are often equal to each other
    fn number(c: &mut Ctx, next: u64) -> u64 {
        match c.rng.below(4) {
            0 => next,
            1 => next.wrapping_sub(1),
            _ => c.rng.edgy64(),
        }
    }
    let mut v = VersionEdit::new();
    let mut e = Edit::default();
    let mut fresh: BTreeSet<(u32, u64)> = BTreeSet::new();
    // the levels of an edit are often the lowest
    let levels = *c.rng.pick(&[7usize, 7, 7, 1, 300, 1 << 32]);
    // a compaction of everything
    let all = much > 1 && c.rng.chance(1, 3);
    for _ in 0..c.rng.range(0, c.by(6, 14, 40)) * much {
        match c.rng.below(12 + (much > 1) as usize * 4) {
            0 => {
                let t = if c.rng.chance(1, 12) {
                    let b = c.by(200, 40_000, 80_000);
                    "n".repeat(c.rng.edge_len(b))
                } else {
                    text(c, 40)
                };
                v.set_comparator_name(Slice::from(&t));
                e.comparator = Some(t.into_bytes());
            }
            1 => {
                let n = number(c, *next);
                v.set_log_number(n);
                e.log = Some(n);
            }
            2 => {
                let n = number(c, *next);
                v.set_prev_log_number(n);
                e.prev_log = Some(n);
            }
            3 => {
                v.set_next_file(*next);
                e.next_file = Some(*next);
            }
            4 => {
                let n = number(c, *next);
                v.set_last_sequence(n);
                e.last_seq = Some(n);
            }
            5 => {
                let l = c.rng.below(7) as u32;
                v.set_compact_pointer(l, InternalKey::default());
                e.compact.push((l, vec![]));
            }
            6 | 7 if !files.is_empty() => {
                let f = *files.range((c.rng.below(levels) as u32, next.wrapping_sub(c.rng.below(1 << 14) as u64))..).next().unwrap_or_else(|| files.iter().next().expect("file"));
                // a file added by this very edit stays: LevelDB applies deletions first
                if fresh.contains(&f) {
                    continue;
                }
                files.remove(&f);
                v.delete_file(f.0, f.1);
                e.deleted.insert(f);
                c.ev("files removed", 1);
            }
            8 if !files.is_empty() => {
                // a file moves to another level as it is, or stays
                let f = *files.range((c.rng.below(levels) as u32, next.wrapping_sub(c.rng.below(1 << 14) as u64))..).next().unwrap_or_else(|| files.iter().next().expect("file"));
                if fresh.contains(&f) {
                    continue;
                }
                let (to, s) = (if c.rng.chance(1, 8) { f.0 } else { c.rng.below(levels) as u32 }, c.rng.edgy64());
                if to != f.0 && files.contains(&(to, f.1)) {
                    continue;
                }
                let first = c.rng.chance(1, 2);
                if first {
                    v.delete_file(f.0, f.1);
                }
                v.add_file(to, f.1, s, InternalKey::default(), InternalKey::default());
                if !first {
                    v.delete_file(f.0, f.1);
                }
                files.remove(&f);
                e.deleted.insert(f);
                e.new.push((to, f.1, s, vec![], vec![]));
                files.insert((to, f.1));
                fresh.insert((to, f.1));
                c.ev("files moved", 1);
            }
            _ => {
                let (l, n, s) = (c.rng.below(levels) as u32, *next, c.rng.edgy64());
                *next += 1 + c.rng.below(40) as u64;
                v.add_file(l, n, s, InternalKey::default(), InternalKey::default());
                e.new.push((l, n, s, vec![], vec![]));
                files.insert((l, n));
                fresh.insert((l, n));
            }
        }
    }
    if all {
        for f in files.iter().filter(|f| !fresh.contains(f)).cloned().collect::<Vec<_>>() {
            files.remove(&f);
            v.delete_file(f.0, f.1);
            e.deleted.insert(f);
            c.ev("files removed", 1);
        }
        c.ev("compactions of everything", 1);
    }
    (v, e)
}

fn c33_manifest(c: &mut Ctx) -> R {
    c33_fold(c, 1)
}

/// edits of thousands of files, and names and manifests of many blocks
fn c33_files(c: &mut Ctx) -> R {
    let much = c.rng.range(c.by(4, 100, 200), c.by(8, 800, 2000));
    c33_fold(c, much)
}

fn c33_fold(c: &mut Ctx, much: usize) -> R {
    let rounds = c.rng.range(1, c.by(2, 4, 6));
    let mut store = Store::default();
    let mut next = c.rng.edgy64() >> 2;
    let (mut lost, mut kept) = (0u64, 0u64);
    for round in 0..rounds {
        let mut files: BTreeSet<(u32, u64)> = store.files.keys().copied().collect();
        let mut edits: Vec<Edit> = vec![];
        let mut recs: Vec<Vec<u8>> = vec![];
        let mut buf: Vec<u8> = vec![];
        let n = c.rng.range(1, c.by(5, 15, 40));
        for i in 0..n {
            let size = if c.rng.chance(1, 3) { much } else { 1 };
            let (mut v, e) = if round > 0 && i == 0 { store.snapshot() } else { gen_edit(c, &mut files, &mut next, size) };
            buf.clear();
            st(v.encode_to(&mut buf), "encode_to")?;
            recs.push(buf.clone());
            edits.push(e);
        }
        let split = gen_split(c, recs.iter().map(|r| r.len() + 16).sum());
        let intr = *c.rng.pick(&[0usize, 0, 20]);
        let bytes = write_all(c, &recs, split, intr)?;
        let (want_file, lay) = refs::log_file(&recs);
        ensure!(bytes == want_file, "the manifest is not LevelDB's");
        // a restarted store switches to its new manifest only once the snapshot is in it
        let low = if round > 0 { lay[0].end } else { 0 };
        let cut = match c.rng.below(4) {
            0 => bytes.len(),
            1 => {
                let l = c.rng.pick(&lay);
                (l.end + c.rng.below(12)).saturating_sub(6).min(bytes.len()).max(low)
            }
            _ => c.rng.range(low, bytes.len()),
        };
        let whole = lay.iter().filter(|l| l.end <= cut).count();
        let split = gen_split(c, cut);
        let items = read_all(c, &bytes[..cut], split, intr, true, 0)?;
        let mut got = Store::default();
        let mut want = Store::default();
        ensure!(items.len() == whole, "{} records come back from a manifest cut behind {} of them", items.len(), whole);
        for (it, e) in items.into_iter().zip(&edits) {
            let r = match it {
                Item::Rec(r) => r,
                Item::Bad(s) => return Err(format!("a cut manifest reports an error: {}", s.to_string())),
            };
            let d = decode_edit(&r).map_err(|m| format!("a recovered edit cannot be decoded: {} in [{}]", m, hex(&r)))?;
            ensure!(d == *e, "a recovered edit decodes to {:?}, written {:?}", d, e);
            got.apply(&d);
            want.apply(e);
        }
        ensure!(got == want, "the recovered store is {:?}, expected {:?}", got, want);
        if round > 0 {
            c.ev("restarts", 1);
        }
        kept += whole as u64;
        lost += (recs.len() - whole) as u64;
        store = got;
        c.ev("files live", store.files.len() as u64);
        c.mix(hash_bytes(&bytes[..cut]));
    }
    c.ev("edits recovered", kept);
    c.ev("edits lost to the cut", lost);
    c.nontrivial = kept > 0 && lost > 0;
    c.sample = format!("{} rounds, {} edits recovered, {} lost, {} files", rounds, kept, lost, store.files.len());
    Ok(())
}

// ------------------------------------------------------------------ C34

/// LevelDB's FilterBlockReader: the filter bytes in charge of a block, or None if it answers true anyway
fn filter_for(contents: &[u8], offset: u64) -> Option<&[u8]> {
    let n = contents.len();
    if n < 5 {
        return None;
    }
    let base_lg = contents[n - 1] as u32;
    let word = |p: usize| u32::from_le_bytes([contents[p], contents[p + 1], contents[p + 2], contents[p + 3]]) as usize;
    let array = word(n - 5);
    if array > n - 5 {
        return None;
    }
    let num = (n - 5 - array) / 4;
    let index = if base_lg >= 64 { 0 } else { offset >> base_lg };
    if index < num as u64 {
        let i = index as usize;
        let (start, limit) = (word(array + i * 4), word(array + i * 4 + 4));
        if start <= limit && limit <= array {
            return Some(&contents[start..limit]);
        }
    }
    None
}

fn c34_filter_block(c: &mut Ctx) -> R {
    let bits = *c.rng.pick(&[1usize, 2, 5, 8, 10, 10, 10, 16, 20, 43, 44, 45, 46, 47, 64, 100, 101, 128, 200, 365, 372, 600]);
    c34_block(c, bits, 0)
}

/// one dimension far beyond a usual table: keys in a block, bytes in a key or a filter, ranges without keys
fn c34_large(c: &mut Ctx) -> R {
    let kind = (c.case % 6 + 1) as usize;
    let bits = match kind {
        1 => *c.rng.pick(&[8usize, 10, 16]),
        // filters of more than 2^20, 2^24 and 2^27 bits
        2 => *c.rng.pick(&[70_000usize, 300_000, 1_000_000]),
        3 => 1_000_000,
        _ => *c.rng.pick(&[10usize, 12, 20, 64]),
    };
    c34_block(c, bits, kind)
}

fn c34_block(c: &mut Ctx, bits: usize, kind: usize) -> R {
    let make = || -> Box<dyn FilterPolicy> { Box::new(BloomFilterPolicy::new_with_bits_per_key(bits)) };
    let mut b = FilterBlockBuilder::new_with_policy(Arc::new(make()));
    let mut blocks: Vec<(u64, Vec<Vec<u8>>)> = vec![];
    let mut off = 0u64;
    let mut total = 0usize;
    let unique = c.rng.next();
    if c.rng.chance(1, 4) {
        // the first block does not stand at the start of the file
        off = *c.rng.pick(&[1u64, 2047, 2048, 2049, 4096, 6144, 1 << 20]);
    }
    if kind == 5 {
        off = 2048 * *c.rng.pick(&[300u64, 1100, 33_000, 66_000, 140_000]) + c.rng.below(2048) as u64;
        c.ev("many ranges without keys", 1);
    }
    let count = if kind == 0 { c.rng.range(0, c.by(6, 30, 120)) } else { c.rng.range(2, c.by(3, 5, 8)) };
    for i in 0..count {
        b.start_block(off);
        let n = match (c.rng.below(8), kind) {
            (_, 1) if i == 0 => *c.rng.pick(&[4096usize, 5001, 8193, 33_000, 66_000, 70_000]) + c.rng.below(10),
            (_, 2) if i == 0 => c.rng.range(16, 60),
            (_, 3) if i == 0 => c.rng.range(135, 150),
            (_, 2..=3) => c.rng.range(0, 4),
            (0, _) => 0,
            (1, _) => c.rng.range(1, c.by(20, 300, 1500)),
            (_, 4) if i == 0 => c.rng.range(2, 6),
            _ => c.rng.range(1, c.by(4, 20, 60)),
        };
        let style = if kind == 1 { *c.rng.pick(&[0, 2, 4]) } else if kind == 4 && i == 0 { 3 } else { c.rng.below(7) };
        if n > 5000 {
            c.ev("blocks of over 5000 keys", 1);
        }
        if n * bits > 1 << 24 {
            c.ev("filters of over 2 MiB", 1);
        }
        let keys: Vec<Vec<u8>> = (0..n)
            .map(|j| match style {
                0 => format!("{:08}-{:04}", i, j).into_bytes(),
                1 => c.rng.key(40),
                2 => (unique.wrapping_add((i * 100_000 + j) as u64)).to_be_bytes().to_vec(),
                3 if kind == 4 && j < 2 => {
                    let l = *c.rng.pick(&[1 << 16, 1 << 20, 3 << 20, 1 << 24, (1 << 24) + 3]) + c.rng.below(9);
                    c.ev("keys of over 64 KiB", 1);
                    c.rng.bytes(l)
                }
                5 => vec![],
                6 => {
                    let z = c.rng.range(0, 4);
                    let mut k = text(c, 12).into_bytes();
                    k.extend(vec![0u8; z]);
                    k
                }
                3 if c.rng.chance(1, 8) => {
                    let big = c.by(300, 5000, 70_000);
                    let l = c.rng.edge_len(big);
                    c.rng.bytes(l)
                }
                _ => {
                    let l = c.rng.range(0, 20);
                    c.rng.bytes(l)
                }
            })
            .collect();
        let mut keys = keys;
        if let (Some((_, p)), true) = (blocks.last(), c.rng.chance(1, 4)) {
            // versions of one user key go on in the next block
            if let Some(k) = p.last() {
                c.ev("keys in two blocks", 1);
                keys.insert(0, k.clone());
            }
        }
        for k in &keys {
            if k.is_empty() {
                c.ev("empty keys", 1);
            }
            match std::str::from_utf8(k) {
                Ok(t) if c.rng.chance(1, 2) => {
                    b.add_key_from_str(t);
                    c.ev("keys added as text", 1);
                }
                _ => b.add_key(&Slice::from_buf(k)),
            }
            c.mix(hash_bytes(k));
        }
        total += n;
        if !keys.is_empty() && keys.iter().all(|k| k.is_empty()) {
            c.ev("blocks of empty keys only", 1);
        }
        blocks.push((off, keys));
        let size = match c.rng.below(6) {
            0 => c.rng.range(1, 300) as u64,
            1 => c.rng.range(2040, 2056) as u64,
            2 => c.rng.range(4000, 30_000) as u64,
            3 => c.rng.range(100_000, 900_000) as u64,
            _ => c.rng.range(300, 4200) as u64,
        };
        if size < 2048 && off / 2048 == (off + size) / 2048 {
            c.ev("blocks sharing a filter", 1);
        }
        if size > 4096 {
            c.ev("blocks over several ranges", 1);
        }
        off += size;
        // the trailer of a block
        off += 5;
        if c.rng.chance(1, 8) {
            off = (off + 2047) / 2048 * 2048;
            c.ev("blocks at the start of a range", 1);
        }
    }
    let s = st(b.finish(), "finish")?;
    let mut contents: Vec<u8> = s.as_ref().to_vec();
    // stored in a file, read back out of it
    if c.rng.chance(1, 2) {
        let (a, z) = (c.rng.range(0, 100), c.rng.range(0, 100));
        let mut file = c.rng.bytes(a);
        file.extend_from_slice(&contents);
        file.extend(c.rng.bytes(z));
        let whole = Slice::from_vec(file);
        let l = contents.len();
        contents = whole.as_sub_ref(a, l).to_vec();
        c.ev("blocks embedded in other bytes", 1);
    }
    let policy = make();
    for (off, keys) in &blocks {
        for k in keys {
            c.ev("keys asked", 1);
            if let Some(f) = filter_for(&contents, *off) {
                ensure!(refs::bloom_match(k, f), "a LevelDB reader denies key {} of the block at {} (filter of {} bytes)", hex(k), off, f.len());
                // the policy copies the filter for every answer
                if f.len() * keys.len() > 1 << 22 && !c.rng.chance(1 << 22, f.len() * keys.len()) {
                    continue;
                }
                c.ev("answers of the policy", 1);
                ensure!(policy.key_may_match(&Slice::from_buf(k), &Slice::from_buf(f)), "the policy denies key {} of the block at {} (filter of {} bytes)", hex(k), off, f.len());
            }
        }
    }
    // a filter block that answers yes to everything would be no filter
    let (mut asked, mut denied) = (0u64, 0u64);
    let known: BTreeSet<&Vec<u8>> = blocks.iter().flat_map(|b| b.1.iter()).collect();
    for (off, _) in &blocks {
        for j in 0..if kind == 2 || kind == 3 { 25 } else if kind > 0 { 60 } else { 8u64 } {
            let mut k = mix64(unique ^ off ^ j << 40).to_le_bytes().to_vec();
            k.push(b'?');
            if known.contains(&k) {
                continue;
            }
            asked += 1;
            let no = match filter_for(&contents, *off) {
                Some(f) => {
                    let (x, y) = (refs::bloom_match(&k, f), policy.key_may_match(&Slice::from_buf(&k), &Slice::from_buf(f)));
                    ensure!(x == y, "the policy answers {} for an absent key, a LevelDB reader {}", y, x);
                    !x
                }
                None => false,
            };
            denied += no as u64;
        }
    }
    c.ev("absent keys asked", asked);
    c.ev("absent keys denied", denied);
    // ten bits per key let less than 2 % through; a case asks too few for the last word, so the bound is wide.
    // blocks behind the last filter without keys of their own are not covered and do not count.
    if bits >= 8 && asked >= 100 && blocks.last().map_or(false, |b| !b.1.is_empty()) {
        ensure!(denied * 10 >= asked * 8, "only {} of {} absent keys are denied with {} bits per key", denied, asked, bits);
    }
    c.nontrivial = blocks.iter().filter(|b| !b.1.is_empty()).count() >= 2;
    c.sample = format!("{} blocks, {} keys, {} bits per key, {} bytes", blocks.len(), total, bits, contents.len());
    Ok(())
}

// ------------------------------------------------------------------ C35

/// suites that start threads themselves, or measure the whole process, stay outside
const NOT_ON_THREADS: &[&str] = &["C13", "C32", "C35"];
const NOT_THESE: &[&str] = &["c01_file", "c01_scale", "c12_memory", "c12_churn", "c18_huge", "c18_giant", "c20_giant", "c21_giant", "c11_mass", "c18_refused", "c19_large", "c07_mask", "c22_exhaustive", "c25_rate", "c30_spread", "c07_large", "c08_far", "c09_far", "c23_large", "c24_giant", "c25_giant", "c26_long", "c27_large", "c29_many", "c32_handles", "c14_long", "c16_many", "c19_giant", "c28_long", "c33_many", "c33_files", "c34_large"];

fn pool() -> Vec<Suite> {
    let mut v = vec![];
    v.extend(crate::p_log::suites());
    v.extend(crate::p_util::suites());
    v.extend(crate::p_cache::suites());
    v.extend(crate::p_mem::suites());
    v.extend(crate::p_misc::suites());
    v.extend(suites());
    v.into_iter().filter(|s| !NOT_ON_THREADS.contains(&s.prop) && !NOT_THESE.contains(&s.name)).collect()
}

fn c35_threads(c: &mut Ctx) -> R {
    let threads = c.rng.range(2, c.by(3, 8, 8));
    let pool = pool();
    // all the same suite, or all different, or a pair
    let style = c.rng.below(3);
    let one = c.rng.below(pool.len());
    let other = c.rng.below(pool.len());
    let each = c.by(1, 6, 12);
    let gate = Arc::new(Barrier::new(threads));
    let mut hs = vec![];
    let mut used = BTreeSet::new();
    for t in 0..threads {
        let mut rng = Rng::new(c.rng.next());
        let picks: Vec<Suite> = (0..each)
            .map(|_| match style {
                0 => pool[one],
                1 => pool[if t % 2 == 0 { one } else { other }],
                _ => pool[rng.below(pool.len())],
            })
            .collect();
        for s in &picks {
            used.insert(s.name);
            c.mix(hash_str(s.name));
            c.ev(s.name, 1);
        }
        c.ev("cases on threads", each as u64);
        let gate = gate.clone();
        let seed = c.seed;
        hs.push(std::thread::spawn(move || -> Vec<(&'static str, String)> {
            let mut bad = vec![];
            gate.wait();
            for (i, s) in picks.iter().enumerate() {
                let mut obs = BTreeMap::new();
                let mut ctx = Ctx {
                    rng: Rng::new(rng.next()),
                    obs: &mut obs,
                    // the sizes of the Miri runs: many short cases overlap more than a few long ones
                    scale: 0,
                    case: rng.below(512) as u64,
                    seed: seed.wrapping_add(i as u64),
                    fp: 0,
                    nontrivial: false,
                    sample: String::new(),
                };
                if let Err(m) = solo(s, &mut ctx) {
                    bad.push((s.name, m));
                    break;
                }
            }
            bad
        }));
    }
    c.ev("threads", threads as u64);
    if used.len() > 1 {
        c.ev("suites overlapping", used.len() as u64);
        c.nontrivial = true;
    }
    c.sample = format!("{} threads: {:?}", threads, used.iter().take(6).collect::<Vec<_>>());
    let mut bad = None;
    for h in hs {
        match h.join() {
            Ok(v) => bad = bad.or(v.into_iter().next()),
            Err(_) => return Err("a thread died outside of a case".into()),
        }
    }
    match bad {
        Some((s, m)) => Err(format!("with {} threads, each on its own objects, {} sees: {}", threads, s, m)),
        None => Ok(()),
    }
}

fn c35_handover(c: &mut Ctx) -> R {
    c.nontrivial = true;
    let n = c.rng.range(1, c.by(4, 20, 60));
    let items: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let l = c.rng.range(0, c.by(60, 3000, 9000));
            c.rng.bytes(l)
        })
        .collect();
    c.fp = items.iter().fold(1, |a, b| mix64(a ^ hash_bytes(b)));
    c.sample = format!("{} objects made on one thread, used on two others", n);
    let src = items.clone();
    let maker = std::thread::spawn(move || -> Vec<Slice> {
        src.iter()
            .enumerate()
            .map(|(i, b)| match i % 3 {
                0 => Slice::from_buf(b),
                1 => Slice::from_vec(b.clone()),
                _ => {
                    let mut s = Slice::from_buf(b);
                    s.merge(Slice::from_buf(b"+"), None);
                    s
                }
            })
            .collect()
    });
    let made = maker.join().map_err(|_| "making slices on a thread panicked".to_string())?;
    let want: Vec<Vec<u8>> = items
        .iter()
        .enumerate()
        .map(|(i, b)| {
            let mut b = b.clone();
            if i % 3 == 2 {
                b.push(b'+');
            }
            b
        })
        .collect();
    ensure!(made.len() == want.len(), "{} slices of {}", made.len(), want.len());
    let (w, m) = (want.clone(), made);
    let user = std::thread::spawn(move || -> Result<Vec<Slice>, String> {
        let mut out = vec![];
        for (s, w) in m.into_iter().zip(&w) {
            let b: &[u8] = s.as_ref();
            ensure!(b == &w[..], "a slice made on another thread is {}, expected {}", hex(b), hex(w));
            let copy = s.clone();
            drop(s);
            out.push(copy);
        }
        Ok(out)
    });
    let back = user.join().map_err(|_| "using slices on another thread panicked".to_string())??;
    for (s, w) in back.iter().zip(&want) {
        let b: &[u8] = s.as_ref();
        ensure!(b == &w[..], "a slice copied on another thread is {}, expected {}", hex(b), hex(w));
        c.ev("objects handed over", 1);
    }
    Ok(())
}
