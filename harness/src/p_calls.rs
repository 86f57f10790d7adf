//! C35: the same calls, alone and on many threads at once. What a call returns depends on its arguments only,
//! so a result that was remembered, shared or left half done by another thread shows as a different answer.

use crate::kit::*;
use level_db_rust::db::db_format::{InternalKey, LookupKey, ValueType};
use level_db_rust::db::log_reader::{LogReader, SeekableReader};
use level_db_rust::db::log_writer::LogWriter;
use level_db_rust::db::mem_table::MemTable;
use level_db_rust::db::skip_list::SkipList;
use level_db_rust::db::version_edit::VersionEdit;
use level_db_rust::table::filter_block::{FilterBlock, FilterBlockBuilder};
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::traits::filter_policy_trait::FilterPolicy;
use level_db_rust::util::arena::Arena;
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::coding::{varint_length, Decoder, Encoder};
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::crc::{AsCrc, CRC};
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::hash::{Hash, ToHash};
use level_db_rust::util::histogram::Histogram;
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
use level_db_rust::util::random::Random;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::{LevelError, Status};
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Barrier, Mutex};

struct Mem(Arc<Mutex<Vec<u8>>>);

impl Write for Mem {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Bytes(Cursor<Vec<u8>>);

impl Read for Bytes {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}

impl Seek for Bytes {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}

impl SeekableReader for Bytes {}

fn parts(d: &[u8]) -> Vec<&[u8]> {
    d.split(|b| b % 16 == 7).collect()
}

fn seed_of(d: &[u8]) -> u32 {
    hash_bytes(d) as u32
}

fn ascii(d: &[u8]) -> String {
    d.iter().map(|b| (b % 95 + 32) as char).collect()
}

/// one call: what it returns, as bytes
type Call = (&'static str, usize, fn(&[u8]) -> Vec<u8>);

/// name, how many of the calls to make per thousand of the cheapest, the call
const CALLS: &[Call] = &[
    ("hash of a slice", 1000, |d| {
        let s = Slice::from_buf(d);
        [s.to_hash().to_le_bytes(), s.to_hash_with_seed(seed_of(d)).to_le_bytes()].concat()
    }),
    ("hash of text", 1000, |d| {
        let s = ascii(d);
        [s.to_hash().to_le_bytes(), s.as_str().to_hash().to_le_bytes(), Hash::hash_code(d, 0).to_le_bytes()].concat()
    }),
    ("hash of a vector", 1000, |d| {
        let v = d.to_vec();
        [v.to_hash().to_le_bytes(), d.to_hash_with_seed(9).to_le_bytes()].concat()
    }),
    ("crc", 1000, |d| {
        let h = d.len() / 2;
        [CRC::value(d).to_le_bytes(), CRC::extend(CRC::value(&d[..h]), &d[h..]).to_le_bytes(), CRC::mask(CRC::value(d)).to_le_bytes(), d.to_vec().as_crc().to_le_bytes()].concat()
    }),
    ("crc mask", 1000, |d| {
        let m = CRC::mask(seed_of(d));
        [m.to_le_bytes(), CRC::unmask(m).to_le_bytes(), CRC::unmask(seed_of(d)).to_le_bytes()].concat()
    }),
    ("encoder", 700, |d| {
        let mut out = vec![];
        let mut e = Encoder::with_vec(&mut out);
        let mut ok = true;
        for p in parts(d) {
            ok &= e.put_length_prefixed_slice(&Slice::from_buf(p)).is_ok();
            ok &= e.put_varint32(seed_of(p)).is_ok();
            ok &= e.put_varint64(hash_bytes(p)).is_ok();
            ok &= e.put_fixed32(seed_of(p)).is_ok();
            ok &= e.put_fixed64(hash_bytes(p)).is_ok();
        }
        out.push(ok as u8);
        out.push(varint_length(hash_bytes(d)) as u8);
        out
    }),
    ("decoder", 700, |d| {
        let mut out = vec![];
        let mut x = Decoder::with_buf(d);
        for i in 0..8 {
            match i % 4 {
                0 => out.extend(x.get_varint64().unwrap_or(1).to_le_bytes()),
                1 => out.extend(x.get_varint32().unwrap_or(2).to_le_bytes()),
                2 => out.extend(x.get_length_prefixed_slice().map(|s| s.to_vec()).unwrap_or_else(|_| vec![3])),
                _ => out.extend(x.get_fixed32().unwrap_or(4).to_le_bytes()),
            }
            out.extend((x.offset() as u32).to_le_bytes());
        }
        out
    }),
    ("bloom filter", 300, |d| {
        let p = BloomFilterPolicy::new_with_bits_per_key(d.len() % 20 + 1);
        let keys: Vec<Slice> = parts(d).iter().map(|k| Slice::from_buf(k)).collect();
        let f = p.create_filter(keys.iter().collect());
        let mut out = f.to_vec();
        out.extend(keys.iter().map(|k| p.key_may_match(k, &f) as u8));
        out.push(p.key_may_match(&Slice::from_buf(d), &f) as u8);
        out
    }),
    ("filter block", 150, |d| {
        let mut b = FilterBlockBuilder::new_with_policy(Arc::new(Box::new(BloomFilterPolicy::new())));
        for (i, p) in parts(d).iter().enumerate() {
            b.start_block(i as u64 * 1500);
            b.add_key(&Slice::from_buf(p));
            b.add_key(&Slice::from_buf(d));
        }
        b.finish().map(|s| s.to_vec()).unwrap_or_default()
    }),
    ("comparator", 700, |d| {
        let c = BytewiseComparatorImpl::default();
        let (a, b) = d.split_at(d.len() / 3);
        let (x, y) = (ascii(a), ascii(b));
        let mut out = vec![c.compare(a, b).map_or(9, |o| o as i8) as u8];
        out.extend(c.get_name().bytes());
        if x < y {
            out.extend(c.find_shortest_separator(&x, &Slice::from(&y)).bytes());
        }
        out.extend(c.find_short_successor(&x).bytes());
        out
    }),
    ("slice", 500, |d| {
        let (a, b) = d.split_at(d.len() / 2);
        let mut s = Slice::from_buf(a);
        s.merge(Slice::from_buf(b), Some(ascii(&b[..b.len().min(3)])));
        let t = Slice::from_buf(d);
        let mut out = s.to_vec();
        out.push((s == t) as u8);
        out.push(t.partial_cmp(&s).map_or(9, |o| o as i8) as u8);
        out.push(s.starts_with(&Slice::from_buf(a)) as u8);
        out.extend(t.clone().to_vec());
        out
    }),
    ("lookup key", 700, |d| {
        let k = LookupKey::new(Slice::from_buf(d), hash_bytes(d) as usize >> 8);
        [k.mem_table_key().to_vec(), k.internal_key().to_vec()].concat()
    }),
    ("status", 500, |d| {
        let (a, b) = d.split_at(d.len() / 2);
        let (a, b) = (ascii(a), ascii(b));
        let mut out = Status::wrapper_str(LevelError::KNotFound, &a).to_string().into_bytes();
        out.extend(Status::wrapper(LevelError::KIOError, Slice::from(&b)).get_msg().into_bytes());
        out.extend(LevelError::corruption_string(&a, &b).to_string().into_bytes());
        out.extend(LevelError::invalid_argument(Slice::from(&b), Slice::from(&a)).to_string().into_bytes());
        out
    }),
    ("version edit", 400, |d| {
        let mut v = VersionEdit::new();
        v.set_comparator_name(Slice::from(&ascii(d)));
        v.set_log_number(hash_bytes(d));
        for (i, p) in parts(d).iter().enumerate() {
            v.add_file(i as u32, hash_bytes(p), p.len() as u64, InternalKey::default(), InternalKey::default());
            v.delete_file(p.len() as u32, hash_bytes(p) >> 9);
        }
        let mut out = vec![];
        let ok = v.encode_to(&mut out).is_ok();
        out.push(ok as u8);
        out
    }),
    ("histogram", 60, |d| {
        let mut h = Histogram::default();
        for b in d {
            h.add(*b as f64 * *b as f64);
        }
        let mut g = Histogram::default();
        g.merge(&h);
        g.add(3.0);
        (h.to_string() + &g.to_string()).into_bytes()
    }),
    ("random", 700, |d| {
        let mut r = Random::new(seed_of(d));
        let mut out = vec![];
        for i in 1..8u32 {
            out.extend(r.next().to_le_bytes());
            out.extend(r.uniform(i * 97).to_le_bytes());
            out.extend(r.skewed(i).to_le_bytes());
            out.push(r.one_in(i) as u8);
        }
        out
    }),
    ("log", 30, |d| {
        let file = Arc::new(Mutex::new(vec![]));
        let mut w = LogWriter::new(Box::new(Mem(file.clone())));
        let mut ok = 0u8;
        for p in parts(d) {
            ok += w.add_record(Slice::from_buf(p)).is_ok() as u8;
        }
        ok += w.add_record(Slice::from_vec(d.repeat(33_000 / d.len().max(1)))).is_ok() as u8;
        drop(w);
        let bytes = file.lock().unwrap().clone();
        let mut out = vec![ok];
        let mut r = LogReader::new(Box::new(Bytes(Cursor::new(bytes.clone()))), true, 0);
        for _ in 0..d.len() + 3 {
            match r.read_next() {
                Ok(Some(s)) => out.extend(hash_bytes(s.as_ref()).to_le_bytes()),
                Ok(None) => break,
                Err(e) => {
                    out.extend(e.to_string().into_bytes());
                    break;
                }
            }
        }
        out.extend(hash_bytes(&bytes).to_le_bytes());
        out
    }),
    ("skip list", 100, |d| {
        let arena = Arc::new(Mutex::new(Arena::default()));
        let mut l = SkipList::create(Arc::new(BytewiseComparatorImpl::default()), arena.clone());
        let mut out = vec![];
        for p in parts(d) {
            if let Ok(k) = UnsafeSlice::new_with_arena(p, arena.clone()) {
                out.push(l.insert(k).is_ok() as u8);
            }
        }
        let mut it = l.iter();
        while let Some(k) = Iterator::next(&mut it) {
            let k: &[u8] = k.as_ref();
            out.extend_from_slice(k);
            out.push(l.contains(&k) as u8);
        }
        out.extend((l.len() as u32).to_le_bytes());
        out
    }),
    ("memtable", 100, |d| {
        let mut t = MemTable::create(Arc::new(BytewiseComparatorImpl::default()));
        let mut out = vec![];
        for (i, p) in parts(d).iter().enumerate() {
            let e: &[u8] = &d[..d.len() / 2];
            out.push(t.add(i, ValueType::KTypeValue, p, &e).is_ok() as u8);
        }
        out.push((t.approximate_memory_usage() >= d.len()) as u8);
        out
    }),
    ("cache", 60, |d| {
        let mut c: ShardLRUCache<usize> = ShardLRUCache::new_with_capacity(32 * 40, 64);
        let mut out = vec![];
        for (i, p) in parts(d).iter().enumerate() {
            out.push(c.insert(&Slice::from_buf(p), i, p.len() % 50 + 1).is_ok() as u8);
        }
        for p in parts(d) {
            out.push(c.lookup(&Slice::from_buf(p)).ok().flatten().map_or(255, |v| *v as u8));
        }
        out.extend((c.total_charge().unwrap_or(0) as u32).to_le_bytes());
        let _ = c.erase(&Slice::from_buf(d));
        let _ = c.prune();
        out.extend((c.total_charge().unwrap_or(7) as u32).to_le_bytes());
        out
    }),
    ("linked list", 300, |d| {
        let mut l: LinkedList<u8> = LinkedList::new();
        for (i, b) in d.iter().enumerate() {
            match b % 3 {
                0 => l.add(*b),
                1 => l.push(*b),
                _ => {
                    let _ = l.add_by_position(i / 2, *b);
                }
            }
        }
        let mut out: Vec<u8> = (0..l.length()).filter_map(|i| l.get(i).ok().flatten().cloned()).collect();
        out.push(l.length() as u8);
        out
    }),
];

pub fn suites() -> Vec<Suite> {
    vec![Suite { prop: "C35", name: "c35_calls", rule: "two to eight threads started together make the same few calls with a handful of small arguments, each thousands of times; every answer must be the one the call gave alone; non-trivial: all", run: c35_calls, cases: (0, 440, 4400), must_see: &["calls on threads", "threads", "kinds of calls"] }]
}

fn c35_calls(c: &mut Ctx) -> R {
    let threads = c.rng.range(2, 8);
    // every kind is the subject of a case of its own in turn; others run beside it
    let first = c.case as usize % CALLS.len();
    let mut kinds = vec![first];
    for _ in 0..c.rng.below(3) {
        kinds.push(c.rng.below(CALLS.len()));
    }
    let each = c.by(4, 2500, 10_000);
    // few arguments of few lengths: what one thread has just asked another asks next
    const LENS: [usize; 20] = [7, 16, 4, 8, 0, 1, 2, 3, 5, 6, 9, 10, 12, 15, 17, 24, 32, 64, 120, 300];
    let len = LENS[c.case as usize / CALLS.len() % LENS.len()];
    let mut args: Vec<Vec<u8>> = vec![];
    for _ in 0..c.rng.range(2, 6) {
        let l = if c.rng.chance(3, 4) { len } else { *c.rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 33, 100, 300]) };
        args.push(c.rng.bytes(l));
    }
    let mut table: Vec<(usize, usize, Vec<u8>)> = vec![];
    for k in &kinds {
        for i in 0..args.len() {
            let want = (CALLS[*k].2)(&args[i]);
            table.push((*k, i, want));
        }
        c.mix(*k as u64);
    }
    for a in &args {
        c.mix(hash_bytes(a));
    }
    for (k, i, want) in &table {
        ensure!((CALLS[*k].2)(&args[*i]) == *want, "{} of {} answers differently when asked again", CALLS[*k].0, hex(&args[*i]));
    }
    let table = Arc::new(table);
    let args = Arc::new(args);
    let gate = Arc::new(Barrier::new(threads));
    let mut hs = vec![];
    for _ in 0..threads {
        let (table, args, gate, seed) = (table.clone(), args.clone(), gate.clone(), c.rng.next());
        hs.push(std::thread::spawn(move || -> Result<u64, String> {
            let mut rng = Rng::new(seed);
            gate.wait();
            let (mut n, mut budget) = (0u64, each as f64);
            while budget > 0.0 {
                let (k, i, want) = &table[rng.below(table.len())];
                // sometimes the same again, with what another thread did in between
                for _ in 0..rng.range(1, 4) {
                    let got = (CALLS[*k].2)(&args[*i]);
                    n += 1;
                    budget -= 1000.0 / CALLS[*k].1 as f64;
                    if got != *want {
                        return Err(format!("{} of {} answers {}, alone it answered {}", CALLS[*k].0, hex(&args[*i]), hex(&got), hex(want)));
                    }
                }
            }
            Ok(n)
        }));
    }
    c.ev("threads", threads as u64);
    c.ev("kinds of calls", kinds.len() as u64);
    c.nontrivial = true;
    c.sample = format!("{} threads: {:?} on {} arguments", threads, kinds.iter().map(|k| CALLS[*k].0).collect::<Vec<_>>(), args.len());
    let mut bad = None;
    for h in hs {
        match h.join() {
            Ok(Ok(n)) => c.ev("calls on threads", n),
            Ok(Err(m)) => bad = bad.or(Some(m)),
            Err(_) => bad = bad.or(Some("a call panics on a thread".into())),
        }
    }
    match bad {
        Some(m) => Err(format!("with {} threads: {}", threads, m)),
        None => Ok(()),
    }
}
