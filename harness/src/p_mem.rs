//! C14..C19: skip list, memtable, lookup keys, arena, unsafe slices.

use crate::kit::*;
use crate::refs;
use level_db_rust::db::db_format::{pack_sequence_and_type, LookupKey, ParsedInternalKey, ValueType};
use level_db_rust::db::mem_table::MemTable;
use level_db_rust::db::skip_list::{Iter, SkipList};
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::traits::DataIterator;
use level_db_rust::util::arena::{Arena, ArenaAllocLike, ArenaRef};
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::{TryIntoUnsafeSlice, UnsafeSlice};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::sync::{Arc, Mutex};

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C14", name: "c14_set", rule: "random, ascending, descending and duplicate-laden insert orders under six comparators, membership of present, absent and neighbouring keys, length, height and full order checked as the list grows; non-trivial: at least two keys and one equal insert", run: c14_set, cases: (8, 500, 5000), must_see: &["inserts", "inserts of an equal key", "equal but not identical keys", "absent lookups"] },
        Suite { prop: "C14", name: "c14_long", rule: "keys of up to some MiB that differ at their end or are prefixes of each other; non-trivial: all", run: c14_long, cases: (1, 25, 250), must_see: &["keys over 1 MiB"] },
        Suite { prop: "C14", name: "c14_big", rule: "hundreds to thousands of keys, comparisons per operation counted; non-trivial: all", run: c14_big, cases: (1, 20, 200), must_see: &["lookups", "comparisons"] },
        Suite { prop: "C14", name: "c14_declined", rule: "inserts under a comparator that declines some pairs of keys; a refused insert must leave the list as it was; non-trivial: an insert was refused", run: c14_declined, cases: (8, 400, 4000), must_see: &["inserts refused"] },
        Suite { prop: "C15", name: "c15_cursor", rule: "random cursor movements on several cursors interleaved with inserts, against a sorted model; non-trivial: a cursor moved over a key inserted after it was created", run: c15_cursor, cases: (8, 600, 6000), must_see: &["moves onto a key inserted later", "ends reached", "moves past the end", "empty lists", "seek_to_last", "seek_to_first", "Iterator steps"] },
        Suite { prop: "C15", name: "c15_memory", rule: "lists filled, iterated and dropped with their arena, live bytes compared; keys read again after many later inserts; non-trivial: all", run: c15_memory, cases: (3, 120, 1200), must_see: &["bytes returned"] },
        Suite { prop: "C16", name: "c16_entries", rule: "adds of puts and deletions with repeated user keys, empty and long keys and values, lengths at varint boundaries; every comparator argument must be an exact encoding of an added entry and every entry must be found when added again; non-trivial: at least two entries", run: c16_entries, cases: (5, 400, 4000), must_see: &["adds", "comparator arguments checked", "empty keys", "empty values", "deletions", "lengths of two varint bytes", "lengths of three varint bytes", "entries found again"] },
        Suite { prop: "C16", name: "c16_many", rule: "tables of thousands of short entries, many with empty values; non-trivial: two or more entries", run: c16_many, cases: (0, 8, 80), must_see: &["adds", "empty values", "entries found again"] },
        Suite { prop: "C16", name: "c16_long", rule: "one to three adds with keys and values of up to 5 MiB next to empty ones, judged the same way; non-trivial: at least two entries", run: c16_long, cases: (0, 60, 300), must_see: &["lengths of four varint bytes", "empty keys", "empty values"] },
        Suite { prop: "C17", name: "c17_lookup", rule: "user keys of every length class including varint boundaries and all-byte content with sequence numbers over the 56-bit range; non-trivial: key of at least one byte", run: c17_lookup, cases: (20, 3000, 40000), must_see: &["one-byte lengths", "two-byte lengths", "three-byte lengths", "maximum sequence"] },
        Suite { prop: "C17", name: "c17_tags", rule: "pack_sequence_and_type over 56-bit numbers and both types, value types to and from numbers, all small and edge numbers; non-trivial: all", run: c17_tags, cases: (20, 600, 6000), must_see: &["unknown numbers", "encoded lengths"] },
        Suite { prop: "C18", name: "c18_arena", rule: "random sequences of plain and aligned allocations with sizes around the block limits, every block filled with its own pattern and re-read; non-trivial: at least two blocks of memory in use", run: c18_arena, cases: (6, 500, 5000), must_see: &["alignments of 512 and more", "empty allocations", "own-block allocations", "aligned allocations", "blocks exactly filled", "pattern checks"] },
        Suite { prop: "C18", name: "c18_huge", rule: "allocations of up to several MiB and thousands of small ones, usage compared with what the allocator handed out; non-trivial: all", run: c18_huge, cases: (1, 24, 400), must_see: &["bytes returned", "arenas of more than 1024 blocks", "arenas of nothing but own blocks"] },
        Suite { prop: "C18", name: "c18_giant", rule: "requests of 4 to 256 MiB and some beyond 4 GiB among small ones, their ends written and read again, usage compared; non-trivial: all", run: c18_giant, cases: (0, 20, 150), must_see: &["requests of more than 4 MiB"] },
        Suite { prop: "C18", name: "c18_refused", rule: "requests memory cannot satisfy, in a process of their own: sizes beyond the address space and ordinary ones the allocator refuses, after some that succeeded; non-trivial: all", run: c18_refused, cases: (0, 24, 150), must_see: &["requests the allocator refused", "requests beyond the address space"] },
        Suite { prop: "C19", name: "c19_views", rule: "slices made from bytes, strings and &str in a shared arena, chains of sub-slices, copies and conversions, re-read after later arena use; out-of-range sub-slices must be refused; non-trivial: at least one sub-slice of a sub-slice", run: c19_views, cases: (8, 600, 6000), must_see: &["sub-slices", "refused sub-slices", "empty slices", "copies out", "arena copies", "non-UTF-8 contents"] },
        Suite { prop: "C19", name: "c19_giant", rule: "a view of more than 2^31 bytes and its parts at both ends; non-trivial: the memory was there", run: c19_giant, cases: (0, 1, 2), must_see: &[] },
        Suite { prop: "C19", name: "c19_large", rule: "views next to powers of two up to 32 MiB (thorough 128 MiB), sub-slices near their ends, copies; non-trivial: more than a block", run: c19_large, cases: (2, 40, 200), must_see: &["sub-slices", "views over 8 MiB"] },
    ]
}

// ------------------------------------------------------------------ comparators

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Bytes,
    Reverse,
    NoCase,
    LenFirst,
    FirstByte,
    Number,
}
const KINDS: [Kind; 6] = [Kind::Bytes, Kind::Reverse, Kind::NoCase, Kind::LenFirst, Kind::FirstByte, Kind::Number];

fn order(k: Kind, a: &[u8], b: &[u8]) -> Ordering {
    match k {
        Kind::Bytes => a.cmp(b),
        Kind::Reverse => b.cmp(a),
        Kind::NoCase => a.iter().map(|x| x.to_ascii_lowercase()).cmp(b.iter().map(|x| x.to_ascii_lowercase())),
        Kind::LenFirst => a.len().cmp(&b.len()).then_with(|| a.cmp(b)),
        Kind::FirstByte => a.first().cmp(&b.first()),
        Kind::Number => {
            let n = |s: &[u8]| s.iter().take(8).fold(0u64, |x, d| x.wrapping_mul(256) + *d as u64) % 1000;
            n(a).cmp(&n(b))
        }
    }
}

/// the comparator given to the list: counts its calls and bounds them
struct Cmp {
    kind: Kind,
    calls: Cell<u64>,
    limit: Cell<u64>,
    /// one pair in so many is declined; 0: none
    declines: Cell<u64>,
    declined: Cell<u64>,
}

impl Cmp {
    fn new(kind: Kind) -> Arc<Cmp> {
        Arc::new(Cmp { kind, calls: Cell::new(0), limit: Cell::new(u64::MAX), declines: Cell::new(0), declined: Cell::new(0) })
    }
    /// at most this many further calls
    fn allow(&self, n: u64) {
        self.limit.set(self.calls.get() + n)
    }
}

impl Comparator for Cmp {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > self.limit.get() {
            std::panic::panic_any(StepLimit(format!("{} comparisons and no end", self.calls.get())));
        }
        let n = self.declines.get();
        if n > 0 && hash_bytes(a).wrapping_add(hash_bytes(b)).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20 & 0xffff < 0x10000 / n {
            self.declined.set(self.declined.get() + 1);
            return None;
        }
        Some(order(self.kind, a, b))
    }
    fn get_name(&self) -> String {
        "verif.cmp".into()
    }
    fn find_shortest_separator(&self, start: &String, _limit: &Slice) -> String {
        start.clone()
    }
    fn find_short_successor(&self, key: &String) -> String {
        key.clone()
    }
}

fn arena() -> ArenaRef {
    Arc::new(Mutex::new(Arena::default()))
}

fn st<T>(r: level_db_rust::util::Result<T>, what: &str) -> Result<T, String> {
    r.map_err(|s| format!("{} returned an error: {}", what, s.to_string()))
}

pub(crate) fn in_arena(k: &[u8], a: &ArenaRef) -> Result<UnsafeSlice, String> {
    st(UnsafeSlice::new_with_arena(k, a.clone()), "new_with_arena")
}

/// sorted distinct keys under the comparator: what the list has to hold
struct Model {
    kind: Kind,
    keys: Vec<Vec<u8>>,
}

impl Model {
    fn find(&self, k: &[u8]) -> Result<usize, usize> {
        self.keys.binary_search_by(|x| order(self.kind, x, k))
    }
    fn insert(&mut self, k: &[u8]) -> Option<usize> {
        match self.find(k) {
            Ok(_) => None,
            Err(i) => {
                self.keys.insert(i, k.to_vec());
                Some(i)
            }
        }
    }
}

fn all_keys(list: &SkipList<Cmp>, n: usize) -> Result<Vec<Vec<u8>>, String> {
    let mut out = vec![];
    let mut it = list.iter();
    for _ in 0..n + 1 {
        match Iterator::next(&mut it) {
            Some(k) => out.push(k.as_ref().to_vec()),
            None => return Ok(out),
        }
    }
    Err(format!("iteration does not end after {} keys of a list of {}", out.len(), n))
}

fn same(got: &[Vec<u8>], want: &[Vec<u8>], what: &str) -> R {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!("{}: {} keys, expected {}; position {} is {:?}, expected {:?}", what, got.len(), want.len(), i, got.get(i).map(|k| hex(k)), want.get(i).map(|k| hex(k))))
}

// ------------------------------------------------------------------ C14

fn key_stream(c: &mut Ctx, n: usize, text: bool) -> Vec<Vec<u8>> {
    let style = c.rng.below(10);
    // long keys that agree up to the last bytes, many of them inserted again
    let fill = { let b = c.by(150, 700, 5000); c.rng.edge_len(b) };
    let mut v: Vec<Vec<u8>> = (0..n)
        .map(|i| match style {
            0 => format!("{:05}", i).into_bytes(),
            1 => format!("{:05}", n - i).into_bytes(),
            2 => format!("k{}", c.rng.below(n / 2 + 1)).into_bytes(),
            3 => {
                let l = c.rng.range(0, 5);
                (0..l).map(|_| *c.rng.pick(b"aAbBcC")).collect()
            }
            7 | 8 => {
                let mut k = vec![b'p'; if style == 7 { fill } else { c.rng.range(0, 300) }];
                k.extend(format!("{}", c.rng.below(n / 3 + 1)).into_bytes());
                k
            }
            9 => {
                // white space and the like is part of a key
                let mut pad = |r: &mut Rng| -> String { let n = r.below(3); (0..n).map(|_| *r.pick(&[' ', '\t', '\n', '\0', '\u{a0}', 'é', '-', '('])).collect() };
                format!("{}{}{}", pad(&mut c.rng), c.rng.below(3), pad(&mut c.rng)).into_bytes()
            }
            4 if !text => c.rng.key(40),
            5 if !text => {
                let l = c.rng.range(0, 3);
                c.rng.bytes(l)
            }
            _ => format!("{}", c.rng.u32()).into_bytes(),
        })
        .collect();
    if c.rng.chance(1, 6) && n > 0 {
        let i = c.rng.below(n);
        let l = if c.rng.chance(1, 2) { c.rng.range(500, 5000) } else { let b = c.by(5000, 70_000, 300_000); c.rng.edge_len(b) };
        v[i] = if text { vec![b'x'; l] } else { c.rng.bytes(l) };
        if n > 2 {
            let (j, k) = (c.rng.below(n), v[i].clone());
            v[j] = k;
        }
    }
    v
}

fn c14_set(c: &mut Ctx) -> R {
    let n = match c.rng.below(8) {
        0 => c.rng.range(0, 3),
        1..=5 => c.rng.range(2, c.by(12, 60, 200)),
        _ => c.rng.range(10, c.by(20, 300, 1000)),
    };
    let kind = *c.rng.pick(&KINDS);
    let text = c.rng.chance(1, 2);
    let keys = key_stream(c, n, text);
    c.fp = keys.iter().fold(kind as u64 + 1, |a, k| mix64(a ^ hash_bytes(k)));
    c.sample = format!("{:?}, {} inserts", kind, n);
    let cmp = Cmp::new(kind);
    let ar = arena();
    let mut list = SkipList::create(cmp.clone(), ar.clone());
    let mut m = Model { kind, keys: vec![] };
    ensure!(list.len() == 0 && list.height() == 0, "a new list has length {} and height {}", list.len(), list.height());
    ensure!(!list.contains(b"x"), "an empty list contains a key");
    let top = list.max_height();
    ensure!(top > 0, "max_height() is 0");
    let mut eq = 0u64;
    for (i, k) in keys.iter().enumerate() {
        let us = in_arena(k, &ar)?;
        let h0 = list.height();
        cmp.allow(64 * (m.keys.len() as u64 + 16));
        st(list.insert(us), "insert")?;
        c.ev("inserts", 1);
        let new = m.insert(k);
        if new.is_none() {
            eq += 1;
            c.ev("inserts of an equal key", 1);
            if !m.keys.contains(k) {
                c.ev("equal but not identical keys", 1);
            }
        }
        let h = list.height();
        ensure!(list.len() == m.keys.len(), "after inserting {} keys ({} distinct) len() is {}", i + 1, m.keys.len(), list.len());
        ensure!(h >= h0 && h >= 1 && h <= top, "height went from {} to {} with max_height {}", h0, h, top);
        ensure!(new.is_some() || h == h0, "height went from {} to {} by inserting a present key", h0, h);
        if h > h0 && h0 > 0 {
            c.ev("height growths", 1);
        }
        if h == top {
            c.ev("lists of full height", 1);
        }
        cmp.allow(64 * (m.keys.len() as u64 + 16));
        ensure!(list.contains(k), "contains({}) is false right after its insert", hex(k));
        // another key, near or far
        let mut q = match c.rng.below(4) {
            0 => c.rng.key(10),
            1 => keys[c.rng.below(n)].clone(),
            _ => {
                let mut q = keys[c.rng.below(n)].clone();
                match c.rng.below(3) {
                    0 => q.push(c.rng.next() as u8),
                    1 => {
                        q.pop();
                    }
                    _ => {
                        if let Some(x) = q.last_mut() {
                            *x = x.wrapping_add(1)
                        }
                    }
                }
                q
            }
        };
        if q.len() > 100 {
            q.truncate(100);
        }
        let want = m.find(&q).is_ok();
        cmp.allow(64 * (m.keys.len() as u64 + 16));
        let got = list.contains(&q);
        ensure!(got == want, "contains({}) is {} with {} keys under {:?}, expected {}", hex(&q), got, m.keys.len(), kind, want);
        if !want {
            c.ev("absent lookups", 1);
        }
        if i % 16 == 15 || i + 1 == n {
            same(&all_keys(&list, m.keys.len())?, &m.keys, "order of the list")?;
        }
    }
    for k in &keys {
        cmp.allow(64 * (m.keys.len() as u64 + 16));
        ensure!(list.contains(k), "contains({}) is false at the end", hex(k));
    }
    if n < 200 {
        // the text form lists the same keys, those that are text, and is text itself
        let s = list.to_string();
        ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "to_string() is no text: {}", hex(s.as_bytes()));
        let mut at = 0;
        for k in &m.keys {
            let Ok(k) = std::str::from_utf8(k) else {
                c.ev("keys that are no text", 1);
                continue;
            };
            let want = format!("-> {}(", k);
            match s[at..].find(&want) {
                Some(j) => {
                    at += j + want.len();
                    let lvl: String = s[at..].chars().take_while(|x| x.is_ascii_digit()).collect();
                    c.mix(lvl.parse::<u64>().unwrap_or(0));
                }
                None => return Err(format!("to_string() does not list key {:?} in order: {}", k, s)),
            }
        }
    }
    ensure!(list.memory_usage() == ar.lock().unwrap().memory_usage(), "memory_usage() is not the arena's");
    c.nontrivial = m.keys.len() >= 2 && eq > 0;
    Ok(())
}

/// A comparator may decline to compare two keys. The insert is then refused and the list is as it was.
fn c14_declined(c: &mut Ctx) -> R {
    let n = c.rng.range(2, c.by(15, 80, 400));
    let kind = *c.rng.pick(&KINDS);
    let keys = key_stream(c, n, false);
    c.fp = keys.iter().fold(kind as u64 + 1, |a, k| mix64(a ^ hash_bytes(k)));
    let one_in = *c.rng.pick(&[2u64, 5, 20, 60]);
    c.sample = format!("{:?}, {} inserts, one pair in {} declined", kind, n, one_in);
    let cmp = Cmp::new(kind);
    let ar = arena();
    let mut list = SkipList::create(cmp.clone(), ar.clone());
    let mut m = Model { kind, keys: vec![] };
    for k in &keys {
        let us = in_arena(k, &ar)?;
        cmp.allow(64 * (m.keys.len() as u64 + 16));
        let picky = c.rng.chance(2, 3);
        cmp.declines.set(if picky { one_in } else { 0 });
        let before = cmp.declined.get();
        let r = list.insert(us);
        let declined = cmp.declined.get() > before;
        cmp.declines.set(0);
        match r {
            Ok(()) => {
                m.insert(k);
            }
            Err(e) => {
                ensure!(declined, "insert({}) fails though every comparison was answered: {}", hex(k), e.to_string());
                c.ev("inserts refused", 1);
                c.nontrivial = true;
            }
        }
        ensure!(list.len() == m.keys.len(), "after {} len() is {}, {} keys were accepted", if declined { "a declined insert" } else { "an insert" }, list.len(), m.keys.len());
        if declined {
            cmp.allow(64 * (m.keys.len() as u64 + 16));
            let there = m.find(k).is_ok();
            ensure!(list.contains(k) == there, "after its declined insert contains({}) is {}, expected {}", hex(k), !there, there);
            same(&all_keys(&list, m.keys.len())?, &m.keys, "the list after a declined insert")?;
            let j = c.rng.below(n);
            cmp.allow(64 * (m.keys.len() as u64 + 16));
            let there = m.find(&keys[j]).is_ok();
            ensure!(list.contains(&keys[j]) == there, "after a declined insert contains({}) is {}, expected {}", hex(&keys[j]), !there, there);
        }
    }
    for k in &keys {
        cmp.allow(64 * (m.keys.len() as u64 + 16));
        ensure!(list.contains(k) == m.find(k).is_ok(), "contains({}) is wrong at the end", hex(k));
    }
    same(&all_keys(&list, m.keys.len())?, &m.keys, "order of the list")
}

fn c14_big(c: &mut Ctx) -> R {
    let n = c.rng.range(c.by(60, 700, 1500), c.by(120, 2500, 10000));
    let kind = if c.rng.chance(1, 2) { Kind::Bytes } else { Kind::LenFirst };
    let cmp = Cmp::new(kind);
    let ar = arena();
    let mut list = SkipList::create(cmp.clone(), ar.clone());
    let mut all: BTreeSet<Vec<u8>> = BTreeSet::new();
    let asc = c.rng.below(3);
    for i in 0..n {
        let k = match asc {
            0 => format!("{:07}", i),
            1 => format!("{:07}", n - i),
            _ => format!("{:07}", c.rng.below(10 * n)),
        }
        .into_bytes();
        cmp.allow(64 * (all.len() as u64 + 16));
        st(list.insert(in_arena(&k, &ar)?), "insert")?;
        all.insert(k);
    }
    // random inserts meet lists of half the final length on average: a scan would take n/4 comparisons
    let per = cmp.calls.get() as f64 / n as f64;
    c.max("max comparisons per insert x100", (per * 100.0) as u64);
    if n >= 500 && asc == 2 {
        ensure!(per < n as f64 / 10.0, "{} comparisons per insert of {} keys: inserts scan the list", per, n);
    }
    let keys: Vec<Vec<u8>> = all.into_iter().collect();
    c.fp = keys.iter().fold(n as u64, |a, k| mix64(a ^ hash_bytes(k)));
    c.sample = format!("{} keys, {:?}", keys.len(), kind);
    c.nontrivial = true;
    ensure!(list.len() == keys.len(), "len() is {} of {} distinct keys", list.len(), keys.len());
    same(&all_keys(&list, keys.len())?, &keys, "order of the list")?;
    let before = cmp.calls.get();
    cmp.limit.set(u64::MAX);
    for k in &keys {
        ensure!(list.contains(k), "contains({}) is false", hex(k));
        let mut q = k.clone();
        q.push(b'x');
        ensure!(!list.contains(&q), "contains({}) is true", hex(&q));
    }
    let per = (cmp.calls.get() - before) as f64 / (2 * keys.len()) as f64;
    c.ev("lookups", 2 * keys.len() as u64);
    c.ev("comparisons", cmp.calls.get() - before);
    c.max("max comparisons per lookup x100", (per * 100.0) as u64);
    // the list has 8 levels of half density each: about n/128 + 16 comparisons; a scan takes n/2
    if keys.len() >= 500 {
        ensure!(per < keys.len() as f64 / 8.0, "{} comparisons per lookup among {} keys: lookups scan the list", per, keys.len());
    }
    Ok(())
}

// ------------------------------------------------------------------ C15

#[derive(Clone, PartialEq, Debug)]
enum Pos {
    Head,
    At(Vec<u8>),
    Tail,
}

struct Cursor {
    it: Iter<Cmp>,
    pos: Pos,
    born: usize,
}

/// Keys of up to some MiB.
fn c14_long(c: &mut Ctx) -> R {
    let n = c.rng.range(2, 7);
    let cmp = Cmp::new(Kind::Bytes);
    let ar = arena();
    let mut list = SkipList::create(cmp.clone(), ar.clone());
    let most = c.by(600, 3 << 20, 3 << 20);
    let common = c.rng.edge_len(most);
    let mut all: BTreeSet<Vec<u8>> = BTreeSet::new();
    cmp.allow(10_000);
    for i in 0..n {
        let mut k = vec![b'a' + (c.case % 3) as u8; common];
        let tail = c.rng.below(3);
        k.extend(c.rng.bytes(tail));
        if c.rng.chance(1, 4) {
            k.truncate(c.rng.below(20));
        }
        c.mix(k.len() as u64 ^ (i as u64) << 40);
        ensure!(list.contains(&k) == all.contains(&k), "contains() of a key of {} bytes is {} before its insert", k.len(), list.contains(&k));
        st(list.insert(in_arena(&k, &ar)?), "insert")?;
        c.ev("keys over 1 MiB", (k.len() > 1 << 20) as u64);
        all.insert(k);
        ensure!(list.len() == all.len(), "len() is {} of {} distinct keys", list.len(), all.len());
        for k in &all {
            ensure!(list.contains(k), "contains() of a present key of {} bytes is false", k.len());
        }
    }
    c.nontrivial = true;
    c.sample = format!("{} keys of around {} bytes", n, common);
    let keys: Vec<Vec<u8>> = all.into_iter().collect();
    for k in &keys {
        let mut q = k.clone();
        q.push(0);
        let in_ = keys.binary_search(&q).is_ok();
        ensure!(list.contains(&q) == in_, "contains() of a key of {} bytes is {}", q.len(), !in_);
    }
    same(&all_keys(&list, keys.len())?, &keys, "order of the list")
}

fn c15_cursor(c: &mut Ctx) -> R {
    let kind = *c.rng.pick(&KINDS);
    let cmp = Cmp::new(kind);
    let ar = arena();
    let mut list = SkipList::create(cmp.clone(), ar.clone());
    let mut m = Model { kind, keys: vec![] };
    let mut added: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let n0 = *c.rng.pick(&[0usize, 0, 1, 2, 5, 30]);
    let steps = c.rng.range(5, c.by(40, 120, 400));
    let pool = key_stream(c, n0 + steps, false);
    let mut next_key = 0;
    c.fp = pool.iter().fold(kind as u64, |a, k| mix64(a ^ hash_bytes(k)));
    c.sample = format!("{:?}, {} prefilled, {} steps", kind, n0, steps);
    let mut add = |list: &mut SkipList<Cmp>, m: &mut Model, added: &mut BTreeMap<Vec<u8>, usize>, next_key: &mut usize, step: usize| -> R {
        let k = &pool[*next_key % pool.len()];
        *next_key += 1;
        let us = in_arena(k, &ar)?;
        cmp.allow(64 * (m.keys.len() as u64 + 16));
        st(list.insert(us), "insert")?;
        if m.insert(k).is_some() {
            added.insert(k.clone(), step);
        }
        Ok(())
    };
    for _ in 0..n0 {
        add(&mut list, &mut m, &mut added, &mut next_key, 0)?;
    }
    if n0 == 0 {
        let mut it = list.iter();
        c.ev("empty lists", 1);
        ensure!(!it.valid(), "a cursor over an empty list is valid");
        ensure!(Iterator::next(&mut it).is_none(), "an empty list yields a key");
        it.seek_to_first();
        ensure!(!it.valid(), "seek_to_first on an empty list is valid");
        it.seek_to_last();
        ensure!(!it.valid(), "seek_to_last on an empty list is valid");
        DataIterator::next(&mut it);
        ensure!(!it.valid(), "next on an empty list is valid");
    }
    let mut cs: Vec<Cursor> = vec![];
    for step in 1..=steps {
        let op = c.rng.below(12);
        c.mix(op as u64);
        if op < 3 {
            add(&mut list, &mut m, &mut added, &mut next_key, step)?;
            // an insert moves no cursor
            for (i, cu) in cs.iter().enumerate() {
                check_cursor(cu, i, "insert")?;
            }
            continue;
        }
        if op == 3 || cs.is_empty() {
            let it = list.iter();
            ensure!(!it.valid(), "a new cursor is valid before it is placed");
            cs.push(Cursor { it, pos: Pos::Head, born: step });
            if cs.len() > 6 {
                cs.remove(0);
            }
            continue;
        }
        let i = c.rng.below(cs.len());
        let cu = &mut cs[i];
        let after = |p: &Pos| -> Pos {
            let i = match p {
                Pos::Head => 0,
                Pos::At(k) => m.find(k).map(|i| i + 1).unwrap_or(0),
                Pos::Tail => return Pos::Tail,
            };
            m.keys.get(i).cloned().map(Pos::At).unwrap_or(Pos::Tail)
        };
        let what;
        match op {
            4 => {
                what = "seek_to_first";
                cu.it.seek_to_first();
                cu.pos = m.keys.first().cloned().map(Pos::At).unwrap_or(Pos::Tail);
                c.ev("seek_to_first", 1);
            }
            5 => {
                what = "seek_to_last";
                cu.it.seek_to_last();
                cu.pos = m.keys.last().cloned().map(Pos::At).unwrap_or(Pos::Tail);
                c.ev("seek_to_last", 1);
            }
            6..=8 => {
                what = "Iterator::next";
                if cu.pos == Pos::Tail {
                    c.ev("moves past the end", 1);
                }
                cu.pos = after(&cu.pos);
                let got = Iterator::next(&mut cu.it).map(|k| k.as_ref().to_vec());
                let want = if let Pos::At(k) = &cu.pos { Some(k.clone()) } else { None };
                ensure!(got == want, "Iterator::next gave {:?}, expected {:?} ({} keys)", got.map(|k| hex(&k)), want.map(|k| hex(&k)), m.keys.len());
                c.ev("Iterator steps", 1);
            }
            _ => {
                what = "next";
                if cu.pos == Pos::Tail {
                    c.ev("moves past the end", 1);
                }
                cu.pos = after(&cu.pos);
                DataIterator::next(&mut cu.it);
            }
        }
        match &cu.pos {
            Pos::At(k) => {
                if added.get(k).copied().unwrap_or(0) > cu.born {
                    c.ev("moves onto a key inserted later", 1);
                    c.nontrivial = true;
                }
            }
            Pos::Tail => c.ev("ends reached", 1),
            Pos::Head => {}
        }
        check_cursor(cu, i, what)?;
    }
    same(&all_keys(&list, m.keys.len())?, &m.keys, "order of the list")
}

fn check_cursor(cu: &Cursor, i: usize, what: &str) -> R {
    let valid = cu.it.valid();
    match &cu.pos {
        Pos::At(k) => {
            ensure!(valid, "cursor {} is not valid after {}, expected key {}", i, what, hex(k));
            let got = cu.it.key();
            ensure!(got.as_ref() == &k[..], "cursor {} is at {} after {}, expected {}", i, hex(got.as_ref()), what, hex(k));
        }
        p => ensure!(!valid, "cursor {} is valid after {}, expected {:?}", i, what, p),
    }
    Ok(())
}

fn c15_memory(c: &mut Ctx) -> R {
    let n = c.rng.range(0, c.by(20, 300, 2000));
    let keys = key_stream(c, n, false);
    c.fp = keys.iter().fold(n as u64, |a, k| mix64(a ^ hash_bytes(k)));
    c.sample = format!("{} inserts", n);
    c.nontrivial = true;
    let rounds = c.by(2, 4, 8);
    let base = live_bytes();
    let mut peak = 0;
    for r in 0..rounds {
        let ar = arena();
        let mut list = SkipList::create(Cmp::new(Kind::Bytes), ar.clone());
        let mut held: Vec<UnsafeSlice> = Vec::with_capacity(n);
        for k in &keys {
            let us = in_arena(k, &ar)?;
            st(list.insert(us), "insert")?;
            held.push(us);
        }
        drop(ar);
        for (us, k) in held.iter().zip(&keys) {
            ensure!(us.as_ref() == &k[..], "a key changed from {} to {} while the list grew", hex(k), hex(us.as_ref()));
        }
        let mut it = list.iter();
        let mut seen = 0;
        while let Some(k) = Iterator::next(&mut it) {
            seen += k.len().min(1);
            ensure!(seen <= n, "iteration does not end");
        }
        peak = peak.max(live_bytes() - base);
        let used = list.memory_usage();
        let payload: usize = held.iter().map(|k| k.len()).sum();
        ensure!(used >= payload, "memory_usage() is {} with {} bytes of keys", used, payload);
        if r % 2 == 0 {
            drop(it);
            drop(list);
        } else if r % 4 == 1 {
            drop_unwinding((list, it));
        } else {
            drop(list);
            drop(it);
        }
    }
    let now = live_bytes();
    c.ev("bytes returned", (base + peak).saturating_sub(now) as u64);
    ensure!(now <= base + 512, "{} bytes stay allocated after {} lists of {} keys were dropped", now - base, rounds, n);
    Ok(())
}

// ------------------------------------------------------------------ C16

/// decodes nothing it was not given: every argument must be a known entry
struct Recorder {
    internal: bool,
    known: RefCell<BTreeSet<Vec<u8>>>,
    current: RefCell<Vec<u8>>,
    calls: Cell<u64>,
    limit: Cell<u64>,
    equal: Cell<u64>,
    wrong: RefCell<Option<String>>,
}

pub(crate) fn internal_order(a: &[u8], b: &[u8]) -> Ordering {
    // user key ascending, then tag descending
    fn split(e: &[u8]) -> Option<(&[u8], u64)> {
        let (n, used, _) = refs::get_varint(e, 32)?;
        let n = n as usize;
        if n < 8 || e.len() < used + n {
            return None;
        }
        let k = &e[used..used + n - 8];
        let t = &e[used + n - 8..used + n];
        Some((k, u64::from_le_bytes([t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]])))
    }
    match (split(a), split(b)) {
        (Some((ka, ta)), Some((kb, tb))) => ka.cmp(kb).then(tb.cmp(&ta)),
        _ => a.cmp(b),
    }
}

impl Comparator for Recorder {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > self.limit.get() {
            std::panic::panic_any(StepLimit(format!("{} comparisons in one add", self.calls.get())));
        }
        {
            let known = self.known.borrow();
            let mut wrong = self.wrong.borrow_mut();
            if wrong.is_none() {
                for x in [a, b] {
                    if !known.contains(x) {
                        *wrong = Some(format!("the comparator was called with {} ({} bytes), which is no added entry; current entry {}", hex(x), x.len(), hex(&self.current.borrow())));
                    }
                }
                let cur = self.current.borrow();
                if wrong.is_none() && a != &cur[..] && b != &cur[..] {
                    *wrong = Some(format!("the comparator was called with {} and {}, neither is the entry being added", hex(a), hex(b)));
                }
            }
        }
        let o = if self.internal { internal_order(a, b) } else { a.cmp(b) };
        if o == Ordering::Equal {
            self.equal.set(self.equal.get() + 1);
        }
        Some(o)
    }
    fn get_name(&self) -> String {
        "verif.recorder".into()
    }
    fn find_shortest_separator(&self, s: &String, _l: &Slice) -> String {
        s.clone()
    }
    fn find_short_successor(&self, k: &String) -> String {
        k.clone()
    }
}

fn entry(seq: u64, typ: u64, key: &[u8], value: &[u8]) -> Vec<u8> {
    let mut e = vec![];
    refs::put_varint(&mut e, key.len() as u64 + 8);
    e.extend_from_slice(key);
    e.extend((seq << 8 | typ).to_le_bytes());
    refs::put_varint(&mut e, value.len() as u64);
    e.extend_from_slice(value);
    e
}

fn some_len(c: &mut Ctx) -> usize {
    let huge = c.scale > 0;
    match c.rng.below(12) {
        0 => 0,
        1 => c.rng.range(117, 123),
        2 => c.rng.range(126, 129),
        3 if huge => c.rng.range(16374, 16386),
        4 if huge => c.rng.range(16381, 16385),
        5 => c.rng.range(1020, 1030),
        6 if huge && c.rng.chance(1, 8) => c.rng.range(30000, 200000),
        _ => c.rng.range(0, 24),
    }
}

fn seq_no(c: &mut Ctx) -> u64 {
    match c.rng.below(6) {
        0 => 0,
        1 => (1 << 56) - 1,
        2 => (1u64 << c.rng.below(56)).wrapping_sub(c.rng.below(2) as u64),
        3 => c.rng.below(10) as u64,
        _ => c.rng.next() >> (8 + c.rng.below(56)),
    }
}

fn vtype(t: u64) -> ValueType {
    if t == 0 { ValueType::KTypeDeletion } else { ValueType::KTypeValue }
}

fn c16_entries(c: &mut Ctx) -> R {
    let n = c.rng.range(1, c.by(8, 30, 100));
    c16_run(c, n, some_len)
}

/// the same with a few entries of up to some MiB
fn c16_long(c: &mut Ctx) -> R {
    let n = c.rng.range(1, 3);
    c16_run(c, n, |c| match c.rng.below(5) {
        0 => 0,
        1 => c.rng.range(0, 24),
        2 => (1 << 21) - 12 + c.rng.below(14),
        3 => c.rng.range(1 << 16, 5 << 20),
        _ => c.rng.edge_len(1 << 22),
    })
}

/// the same with thousands of short ones
fn c16_many(c: &mut Ctx) -> R {
    let n = if c.case % 4 == 3 { c.by(1100, 5500, 12_000) } else { c.rng.range(1100, c.by(1101, 4500, 9000)) };
    c16_run(c, n, |c| if c.rng.chance(1, 2) { 0 } else { c.rng.range(0, 24) })
}

fn c16_run(c: &mut Ctx, n: usize, some_len: fn(&mut Ctx) -> usize) -> R {
    let base = live_bytes();
    let peak;
    {
        let rec = Arc::new(Recorder {
            internal: c.rng.chance(3, 4),
            known: RefCell::default(),
            current: RefCell::default(),
            calls: Cell::new(0),
            limit: Cell::new(0),
            equal: Cell::new(0),
            wrong: RefCell::new(None),
        });
        let mut table = MemTable::create(rec.clone());
        let mut entries: Vec<(u64, u64, Vec<u8>, Vec<u8>)> = vec![];
        let mut used = table.approximate_memory_usage();
        let mut stored: BTreeMap<Vec<u8>, ()> = BTreeMap::new();
        let mut payload = 0usize;
        let mut user_keys: Vec<Vec<u8>> = vec![];
        let again = c.rng.chance(1, 2);
        for i in 0..n {
            let key = if !user_keys.is_empty() && c.rng.chance(1, 3) {
                user_keys[c.rng.below(user_keys.len())].clone()
            } else {
                let l = some_len(c);
                if l < 24 { c.rng.key(l.max(1)) } else { c.rng.bytes(l) }
            };
            user_keys.push(key.clone());
            let l = some_len(c);
            let t = c.rng.below(4).min(1) as u64;
            let value = if t == 0 && c.rng.chance(1, 2) {
                vec![]
            } else {
                match c.rng.below(12) {
                    0 => key.clone(),
                    1 => c.rng.special(64),
                    2 if !entries.is_empty() => {
                        let e = &entries[c.rng.below(entries.len())];
                        if c.rng.chance(1, 2) { e.2.clone() } else { e.3.clone() }
                    }
                    _ => c.rng.bytes(l),
                }
            };
            c.ev("values equal to their key", (value == key && !key.is_empty()) as u64);
            let seq = if c.rng.chance(1, 3) { i as u64 } else { seq_no(c) };
            let e = entry(seq, t, &key, &value);
            // an equal internal key (same user key, sequence and type) would be ignored: not asked here
            if rec.internal && entries.iter().any(|x| x.0 == seq && x.1 == t && x.2 == key) {
                continue;
            }
            c.mix(hash_bytes(&e));
            *rec.current.borrow_mut() = e.clone();
            rec.known.borrow_mut().insert(e.clone());
            rec.calls.set(0);
            rec.limit.set(64 * (entries.len() as u64 + 16));
            st(table.add(seq as usize, vtype(t), &key, &value), "add")?;
            c.ev("adds", 1);
            c.ev("comparator arguments checked", 2 * rec.calls.get());
            if let Some(w) = rec.wrong.borrow().clone() {
                return Err(w);
            }
            ensure!(stored.is_empty() || rec.calls.get() > 0, "an entry was added to a non-empty table without comparing it");
            if key.is_empty() {
                c.ev("empty keys", 1)
            }
            if value.is_empty() {
                c.ev("empty values", 1)
            }
            if t == 0 {
                c.ev("deletions", 1)
            }
            for l in [key.len() + 8, value.len()] {
                match refs::varint_len(l as u64) {
                    2 => c.ev("lengths of two varint bytes", 1),
                    3 => c.ev("lengths of three varint bytes", 1),
                    4 => c.ev("lengths of four varint bytes", 1),
                    _ => {}
                }
            }
            // a lookup key for this entry is a prefix of a stored put
            if t == 1 {
                let lk = LookupKey::new(Slice::from_buf(&key), seq as usize).mem_table_key();
                let p: &[u8] = lk.as_ref();
                ensure!(e.starts_with(p), "memtable key {} of the lookup key is no prefix of the entry {}", hex(p), hex(&e));
            }
            if stored.insert(e.clone(), ()).is_none() {
                payload += e.len();
            }
            entries.push((seq, t, key, value));
            let u = table.approximate_memory_usage();
            ensure!(u >= used, "reported memory use fell from {} to {}", used, u);
            ensure!(u >= payload, "reported memory use is {} with {} bytes of entries", u, payload);
            used = u;
        }
        c.nontrivial = entries.len() >= 2;
        c.sample = format!("{} entries, {} bytes", entries.len(), payload);
        if again {
            // each one is in the table: adding it again must meet its equal
            for (seq, t, key, value) in &entries {
                let e = entry(*seq, *t, key, value);
                *rec.current.borrow_mut() = e.clone();
                rec.calls.set(0);
                rec.equal.set(0);
                rec.limit.set(64 * (entries.len() as u64 + 16));
                st(table.add(*seq as usize, vtype(*t), key, value), "add")?;
                if let Some(w) = rec.wrong.borrow().clone() {
                    return Err(w);
                }
                ensure!(rec.equal.get() > 0, "entry {} is not found in the table it was added to", hex(&e));
                c.ev("entries found again", 1);
            }
        }
        peak = live_bytes();
    }
    let now = live_bytes();
    ensure!(now <= base + 4096 || now - base < (peak - base) / 50, "{} bytes stay allocated after the memtable was dropped", now.saturating_sub(base));
    Ok(())
}

// ------------------------------------------------------------------ C17

fn c17_lookup(c: &mut Ctx) -> R {
    let len = match c.rng.below(6) {
        0 => c.rng.range(115, 125),
        1 => c.rng.range(16370, 16380),
        2 if c.scale > 0 && c.rng.chance(1, 20) => c.rng.range(2097140, 2097148),
        3 if c.scale > 0 && c.rng.chance(1, 25) => c.rng.range(1 << 20, 6 << 20),
        3 => 0,
        4 => { let b = c.by(300, 70_000, 300_000); c.rng.edge_len(b) }
        _ => c.rng.range(0, 300),
    };
    let key = if c.rng.chance(1, 8) { vec![0xff; len] } else { c.rng.bytes(len) };
    let seq = seq_no(c);
    c.fp = hash_bytes(&key) ^ mix64(seq);
    c.nontrivial = len > 0;
    c.sample = format!("{} byte key, sequence {}", len, seq);
    if seq == (1 << 56) - 1 {
        c.ev("maximum sequence", 1);
    }
    c.ev(match refs::varint_len(len as u64 + 8) { 1 => "one-byte lengths", 2 => "two-byte lengths", 3 => "three-byte lengths", _ => "four-byte lengths" }, 1);
    let mut want = vec![];
    refs::put_varint(&mut want, len as u64 + 8);
    let prefix = want.len();
    want.extend(&key);
    want.extend((seq << 8 | 1).to_le_bytes());
    let lk = LookupKey::new(Slice::from_buf(&key), seq as usize);
    for round in 0..2 {
        let m = lk.mem_table_key();
        let got: &[u8] = m.as_ref();
        ensure!(got == &want[..], "round {}: memtable key of a {} byte key at {} is {}, expected {}", round, len, seq, hex(got), hex(&want));
        let i = lk.internal_key();
        let got: &[u8] = i.as_ref();
        ensure!(got == &want[prefix..], "round {}: internal key of a {} byte key at {} is {}, expected {}", round, len, seq, hex(got), hex(&want[prefix..]));
    }
    let m = lk.mem_table_key();
    drop(lk);
    let got: &[u8] = m.as_ref();
    ensure!(got == &want[..], "the memtable key changed when the lookup key was dropped");
    Ok(())
}

fn c17_tags(c: &mut Ctx) -> R {
    let seq = seq_no(c);
    c.fp = seq;
    c.nontrivial = true;
    c.sample = format!("sequence {}", seq);
    for t in 0..2u64 {
        let got = pack_sequence_and_type(seq as usize, vtype(t));
        ensure!(got == (seq << 8 | t), "pack_sequence_and_type({}, {}) is {:#x}", seq, t, got);
    }
    let len = match c.rng.below(3) {
        0 => c.rng.below(300),
        1 => { let b = c.by(300, 70_000, 300_000); c.rng.edge_len(b) }
        _ => { let b = c.by(300, 1 << 18, 1 << 20); c.rng.below(b) }
    };
    let parsed = || ParsedInternalKey::new(Slice::from_vec(vec![7; len]), seq, vtype(seq & 1));
    let got = ParsedInternalKey::default().internal_key_encoding_length(parsed());
    ensure!(got == len + 8, "the internal key of a {} byte key is said to take {} bytes", len, got);
    c.ev("encoded lengths", 1);
    let n = match c.rng.below(3) {
        0 => c.rng.below(520) as i32 - 260,
        1 => c.rng.edgy32() as i32,
        _ => c.rng.u32() as i32,
    };
    for n in [n, 0, 1, 2, -1] {
        match ValueType::try_from(n) {
            Ok(v) => ensure!((n == 0 || n == 1) && v.get_value() as i32 == n, "number {} became the value type of {}", n, v.get_value()),
            Err(_) => {
                c.ev("unknown numbers", 1);
                ensure!(n != 0 && n != 1, "number {} is refused as a value type", n);
            }
        }
        c.mix(n as u64);
    }
    ensure!(ValueType::KTypeDeletion.get_value() == 0 && ValueType::KTypeValue.get_value() == 1, "value type numbers changed");
    Ok(())
}

// ------------------------------------------------------------------ C18

struct Block {
    ptr: *const u8,
    len: usize,
    tag: u64,
}

fn pattern(tag: u64, i: usize) -> u8 {
    // tag is a mixed number
    (tag.rotate_left((i % 64) as u32) as u8) ^ (i as u8)
}

fn check_block(b: &Block) -> R {
    // the arena promises the memory until it is dropped
    let s = unsafe { std::slice::from_raw_parts(b.ptr, b.len) };
    for (i, x) in s.iter().enumerate() {
        ensure!(*x == pattern(b.tag, i), "byte {} of allocation {} ({} bytes) changed", i, b.tag, b.len);
    }
    Ok(())
}

fn c18_arena(c: &mut Ctx) -> R {
    let steps = c.rng.range(1, c.by(25, 150, 600));
    let base = live_bytes();
    let mut arena = Arena::default();
    ensure!(arena.memory_usage() == 0, "a new arena reports {} bytes", arena.memory_usage());
    let mut blocks: Vec<Block> = Vec::with_capacity(steps);
    let own = live_bytes() - base;
    let (mut requested, mut padded, mut usage) = (0usize, 0usize, 0usize);
    let style = c.rng.below(5);
    // what a block of 4 KiB has left, if all of them are
    let mut left = 4096usize;
    for step in 0..steps {
        let bytes = match if style == 4 { c.rng.below(8) } else { style * 2 + c.rng.below(2) } {
            0 => c.rng.range(0, 16),
            1 => c.rng.range(1, 200),
            2 => *c.rng.pick(&[8usize, 16, 24, 64, 128, 512]),
            3 => c.rng.range(1000, 1030),
            4 => *c.rng.pick(&[1023usize, 1024, 1025, 2048, 4095, 4096, 4097, 0]),
            5 => c.rng.range(1, 5000),
            6 => {
                // exactly what is left of a block, or a byte or so more or less
                match c.rng.below(4) {
                    0 | 1 => left,
                    2 => left.saturating_sub(c.rng.range(1, 3)),
                    _ => left + c.rng.range(1, 3),
                }
            }
            _ if left < 8 => c.rng.range(1, left + 3),
            _ => c.rng.range(1, 64),
        };
        let aligned = c.rng.chance(1, 2);
        let (bytes, align) = if aligned {
            let a = *c.rng.pick(&[1usize, 2, 4, 8, 8, 16, 32, 64, 256, 512, 1024, 4096, 8192, 16384]);
            if a >= 512 {
                c.ev("alignments of 512 and more", 1);
            }
            (if c.rng.chance(1, 5) { bytes } else { (bytes + a - 1) / a * a }, a)
        } else {
            (bytes, 1)
        };
        c.mix(bytes as u64 ^ (align as u64) << 40);
        let tag = mix64((c.case << 20) + step as u64);
        let s: &mut [u8] = if aligned { arena.allocate_align(bytes, align) } else { arena.allocate(bytes) };
        ensure!(s.len() == bytes, "asked for {} bytes, got {}", bytes, s.len());
        let p = s.as_ptr();
        for (i, x) in s.iter_mut().enumerate() {
            *x = pattern(tag, i);
        }
        if bytes == 0 {
            c.ev("empty allocations", 1);
            continue;
        }
        if align > 1 {
            c.ev("aligned allocations", 1);
            if bytes % align == 0 {
                ensure!(p as usize % align == 0, "{} bytes aligned to {} were placed at {:p}", bytes, align, p);
            }
        }
        if bytes > 1024 {
            c.ev("own-block allocations", 1);
        }
        let a = p as usize;
        for b in &blocks {
            let o = b.ptr as usize;
            ensure!(a + bytes <= o || o + b.len <= a, "allocation {} of {} bytes overlaps allocation {} of {} bytes", tag, bytes, b.tag, b.len);
        }
        blocks.push(Block { ptr: p, len: bytes, tag });
        requested += bytes;
        padded += bytes + align - 1;
        if bytes <= left {
            left -= bytes;
        } else if bytes <= 1024 {
            left = 4096 - bytes;
        }
        if left == 0 {
            c.ev("blocks exactly filled", 1);
        }
        let u = arena.memory_usage();
        ensure!(u >= usage, "memory_usage() fell from {} to {}", usage, u);
        ensure!(u >= requested, "memory_usage() is {} after {} bytes were handed out", u, requested);
        // a block is left behind only for a request of at most a quarter block
        ensure!(u <= padded * 2 + 8192, "memory_usage() is {} for {} requested bytes", u, requested);
        usage = u;
        if c.rng.chance(1, 10) {
            let i = c.rng.below(blocks.len());
            check_block(&blocks[i])?;
        }
    }
    for b in &blocks {
        check_block(b)?;
        c.ev("pattern checks", 1);
    }
    let held = live_bytes() - base - own;
    ensure!(held >= usage, "memory_usage() is {} but only {} bytes were taken", usage, held);
    ensure!(held <= usage + 1024 + 100 * blocks.len(), "memory_usage() is {} but {} bytes were taken for {} allocations", usage, held, blocks.len());
    c.nontrivial = usage > 4096;
    c.sample = format!("{} allocations, {} bytes, usage {}", blocks.len(), requested, usage);
    if c.case % 4 == 1 {
        drop_unwinding(arena);
    } else {
        drop(arena);
    }
    let now = live_bytes() - base - own;
    ensure!(now <= 1000, "{} of {} bytes stay allocated after the arena was dropped", now, held);
    Ok(())
}

/// The process that asks for what it cannot get. Says RETURNED if the arena hands something out for it.
pub fn arena_child(args: &[String]) {
    let n: Vec<usize> = args.iter().map(|a| a.parse().expect("number")).collect();
    let (before, bytes, align, refuse) = (n[0], n[1], n[2], n[3]);
    let mut arena = Arena::default();
    let mut blocks: Vec<Block> = vec![];
    for i in 0..before {
        let len = 1 + mix64(i as u64) as usize % 900;
        let s = arena.allocate(len);
        s.iter_mut().enumerate().for_each(|(j, x)| *x = pattern(i as u64, j));
        blocks.push(Block { ptr: s.as_ptr(), len, tag: i as u64 });
    }
    println!("READY");
    if refuse > 0 {
        REFUSED.store(bytes.clamp(1025, 4096), std::sync::atomic::Ordering::SeqCst);
    }
    // the memory in use may serve some requests, but not a MiB of them
    let mut left = if refuse > 0 { (1 << 20) / bytes + 1 } else { 1 };
    let r = loop {
        left -= 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let s = arena.allocate_align(bytes, align);
            (s.as_mut_ptr(), s.len())
        }));
        match r {
            // it managed with other memory: then that has to be memory
            Ok((p, len)) if refuse > 0 => {
                if p.is_null() || len != bytes || blocks.iter().any(|b| (b.ptr as usize) < p as usize + len && (p as usize) < b.ptr as usize + b.len) {
                    break r;
                }
                (0..len).for_each(|j| unsafe { p.add(j).write(pattern(99 + left as u64, j)) });
                blocks.push(Block { ptr: p, len, tag: 99 + left as u64 });
                if left == 0 {
                    break Err(Box::new(()));
                }
            }
            r => break r,
        }
    };
    REFUSED.store(usize::MAX, std::sync::atomic::Ordering::SeqCst);
    match r {
        Ok((p, n)) => println!("RETURNED {} bytes at {:p}", n, p),
        Err(_) => {
            // refused by a panic: what was there before is still there, and the arena goes on
            for b in &blocks {
                if let Err(e) = check_block(b) {
                    println!("DAMAGED {}", e);
                    return;
                }
            }
            for len in [1usize, 700, 900, 900, 900, 5000, 900] {
                let s = arena.allocate(len);
                let (lo, hi) = (s.as_ptr() as usize, s.as_ptr() as usize + len);
                s.fill(0x77);
                if s.len() != len || blocks.iter().any(|b| (b.ptr as usize) < hi && lo < b.ptr as usize + b.len) {
                    println!("DAMAGED later allocation of {} bytes", len);
                    return;
                }
            }
            for b in &blocks {
                if let Err(e) = check_block(b) {
                    println!("DAMAGED later: {}", e);
                    return;
                }
            }
            println!("REFUSED");
        }
    }
}

fn c18_refused(c: &mut Ctx) -> R {
    let before = c.rng.below(40);
    let align = 1usize << c.rng.below(13);
    let refuse = c.rng.chance(1, 2);
    let bytes = if refuse {
        let b = match c.rng.below(3) {
            0 => c.rng.range(8, 1024),
            1 => c.rng.range(1025, 5000),
            _ => c.rng.range(4000, 1 << 20),
        };
        c.ev("requests the allocator refused", 1);
        b
    } else {
        c.ev("requests beyond the address space", 1);
        match c.rng.below(5) {
            0 => usize::MAX - c.rng.below(5000),
            1 => (isize::MAX as usize).wrapping_add(c.rng.below(5)),
            2 => isize::MAX as usize - c.rng.below(5000),
            3 => (1usize << c.rng.range(48, 63)) + c.rng.below(2),
            _ => usize::MAX / c.rng.range(1, 7),
        }
    };
    // a multiple, so that the arena has to honour the alignment
    let bytes = if c.rng.chance(1, 2) { bytes.max(align) / align * align } else { bytes };
    c.mix(bytes as u64 ^ (align as u64) << 50 ^ before as u64);
    c.nontrivial = true;
    c.sample = format!("{} bytes aligned to {} after {} blocks{}", bytes, align, before, if refuse { ", refused by the allocator" } else { "" });
    let exe = std::env::current_exe().unwrap_or("/proc/self/exe".into());
    let out = std::process::Command::new(exe)
        .arg("arena-child")
        .args([before, bytes, align, refuse as usize].iter().map(|n| n.to_string()))
        .env("ASAN_OPTIONS", "allocator_may_return_null=1:detect_leaks=0")
        .env("RUST_BACKTRACE", "0")
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn();
    let mut child = match out {
        Ok(o) => o,
        Err(e) => { eprintln!("c18_refused: no child: {}", e); return Ok(()) }
    };
    WAITS_OUTSIDE.store(true, std::sync::atomic::Ordering::SeqCst);
    // it takes milliseconds
    let mut ended = false;
    for _ in 0..12_000 {
        if !matches!(child.try_wait(), Ok(None)) {
            ended = true;
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    if !ended {
        let _ = child.kill();
    }
    let out = child.wait_with_output();
    WAITS_OUTSIDE.store(false, std::sync::atomic::Ordering::SeqCst);
    let out = match out {
        Ok(o) => o,
        Err(e) => { eprintln!("c18_refused: {}", e); return Ok(()) }
    };
    let (said, err) = (String::from_utf8_lossy(&out.stdout).to_string(), String::from_utf8_lossy(&out.stderr).to_string());
    use std::os::unix::process::ExitStatusExt;
    let signal = out.status.signal().unwrap_or(0);
    ensure!(ended || !said.contains("READY"), "{}: no answer", c.sample);
    ensure!(said.contains("READY"), "the process that allocates {} ended early: {:?}: {}", c.sample, out.status, err);
    ensure!(!said.contains("RETURNED") && !said.contains("DAMAGED"), "{}: {}", c.sample, said.trim());
    ensure!(!err.contains("unsafe precondition") && !err.contains("AddressSanitizer:"), "{}: {}", c.sample, err.lines().take(4).collect::<Vec<_>>().join(" | "));
    ensure!(signal == 0 || signal == 6, "{}: ended by signal {}", c.sample, signal);
    c.ev("refusals by panic", said.contains("REFUSED") as u64);
    c.ev("refusals by abort", (signal == 6) as u64);
    Ok(())
}

fn c18_huge(c: &mut Ctx) -> R {
    let base = live_bytes();
    let mut arena = Arena::default();
    // a block of its own for each, so that nothing but what was asked for counts
    let exact = c.case % 4 == 3;
    let n = if exact { c.rng.range(c.by(2, 600, 1500), c.by(10, 1600, 4000)) } else { c.rng.range(1, c.by(20, 6000, 12000)) };
    let mut blocks: Vec<Block> = Vec::with_capacity(n);
    let own = live_bytes() - base;
    let mut requested = 0;
    let blocky = c.rng.chance(1, 3);
    if exact {
        c.ev("arenas of nothing but own blocks", 1);
    }
    if blocky && !exact && n > 1024 {
        c.ev("arenas of more than 1024 blocks", 1);
    }
    for i in 0..n {
        let bytes = match c.rng.below(200) {
            _ if exact => c.rng.range(4097, 4300),
            _ if blocky => c.rng.range(1024, 1100),
            0 => c.rng.range(1, c.by(20000, 1 << 20, 4 << 20)),
            1 => 1 << c.rng.range(10, c.by(14, 20, 22)),
            _ => c.rng.range(1, 40),
        };
        let align = *c.rng.pick(&[1usize, 1, 8]);
        let bytes = if align == 8 { (bytes + 7) / 8 * 8 } else { bytes };
        c.mix(bytes as u64);
        let tag = mix64((c.case << 20) + i as u64);
        let (live, usage) = (live_bytes(), arena.memory_usage());
        let s = arena.allocate_align(bytes, align);
        let grown = live_bytes().saturating_sub(live);
        ensure!(s.len() == bytes, "asked for {} bytes, got {}", bytes, s.len());
        for (i, x) in s.iter_mut().enumerate() {
            *x = pattern(tag, i);
        }
        let p = s.as_ptr();
        // memory taken from the allocator is counted when it is taken
        if grown >= bytes.max(1024) {
            let more = arena.memory_usage().saturating_sub(usage);
            ensure!(more >= bytes, "the arena took {} bytes for a request of {}, its {}th, and counts {}", grown, bytes, i + 1, more);
        }
        ensure!(p as usize % align == 0, "{} bytes aligned to {} were placed at {:p}", bytes, align, p);
        blocks.push(Block { ptr: p, len: bytes, tag });
        requested += bytes;
    }
    for b in &blocks {
        check_block(b)?;
    }
    // all disjoint
    let mut spans: Vec<(usize, usize)> = blocks.iter().map(|b| (b.ptr as usize, b.ptr as usize + b.len)).collect();
    spans.sort();
    for w in spans.windows(2) {
        ensure!(w[0].1 <= w[1].0, "two allocations overlap");
    }
    let peak = live_bytes() - base;
    let u = arena.memory_usage();
    ensure!(u >= requested && u <= requested * 2 + 16 * n + 8192, "memory_usage() is {} for {} requested bytes in {} allocations", u, requested, n);
    c.nontrivial = true;
    c.sample = format!("{} allocations, {} bytes", n, requested);
    drop(arena);
    drop(blocks);
    drop(spans);
    let now = live_bytes() - base;
    c.ev("bytes returned", (peak + base).saturating_sub(live_bytes()) as u64);
    ensure!(now <= 512, "{} bytes stay allocated after the arena was dropped (own {})", now, own);
    Ok(())
}

/// Requests of many MiB up to beyond 4 GiB among small ones. Only their ends are written.
fn c18_giant(c: &mut Ctx) -> R {
    let base = live_bytes();
    let mut arena = Arena::default();
    let n = c.rng.range(3, 12);
    let mut ends: Vec<(*const u8, usize, u64)> = vec![];
    let mut spans: Vec<(usize, usize)> = vec![];
    let mut requested = 0usize;
    let mut beyond = c.case % 3 == 0 && !cfg!(plain_alloc) && giant((1 << 32) + 100).is_some();
    for i in 0..n {
        let align = *c.rng.pick(&[1usize, 1, 8, 64, 4096, 4096, 1 << 16, 1 << 18, 1 << 20]);
        if align > 4096 {
            c.ev("alignments over 4096", 1);
        }
        let bytes = match c.rng.below(4) {
            _ if beyond && i + 1 == n => (1 << 32) + c.rng.below(100),
            0 => c.rng.range(1, 40),
            1 => (1 << c.rng.range(22, 28)) - 2 + c.rng.below(5),
            2 => c.rng.range(5 << 20, 40 << 20),
            _ => c.rng.range(4000, 300_000),
        };
        let bytes = (bytes + align - 1) / align * align;
        c.mix(bytes as u64);
        if bytes > 1 << 22 {
            c.ev("requests of more than 4 MiB", 1);
        }
        if bytes > 1 << 32 {
            c.ev("requests of more than 4 GiB", 1);
            beyond = false;
        }
        let s = arena.allocate_align(bytes, align);
        ensure!(s.len() == bytes, "asked for {} bytes, got {}", bytes, s.len());
        let p = s.as_mut_ptr();
        ensure!(p as usize % align == 0, "{} bytes aligned to {} were placed at {:p}", bytes, align, p);
        let tag = mix64((c.case << 20) + i as u64);
        let e = bytes.min(300);
        s[..e].iter_mut().enumerate().for_each(|(i, x)| *x = pattern(tag, i));
        let t = bytes - e;
        s[t..].iter_mut().enumerate().for_each(|(i, x)| *x = pattern(tag, i));
        if t >= e {
            ends.push((p, e, tag));
        }
        ends.push((unsafe { p.add(t) }, e, tag));
        spans.push((p as usize, p as usize + bytes));
        requested += bytes;
        let u = arena.memory_usage();
        ensure!(u >= requested && u <= requested * 2 + (i + 1) * 8192, "memory_usage() is {} for {} requested bytes in {} allocations, the last of {}", u, requested, i + 1, bytes);
    }
    for (ptr, len, tag) in &ends {
        check_block(&Block { ptr: *ptr, len: *len, tag: *tag })?;
    }
    spans.sort();
    for w in spans.windows(2) {
        ensure!(w[0].1 <= w[1].0, "two allocations overlap");
    }
    c.nontrivial = true;
    c.sample = format!("{} allocations, {} bytes", n, requested);
    drop(arena);
    drop(ends);
    drop(spans);
    let now = live_bytes() - base;
    ensure!(now <= 512, "{} bytes stay allocated after the arena was dropped", now);
    Ok(())
}

// ------------------------------------------------------------------ C19

/// a writer without room
struct Full;

impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.is_empty() { Ok(()) } else { Err(std::fmt::Error) }
    }
}

fn c19_large(c: &mut Ctx) -> R {
    let n = { let b = c.by(300, 1 << 25, 1 << 27); c.rng.edge_len(b) };
    let ar = arena();
    let v: Vec<u8> = (0..n).map(|i| b' ' + (i % 89) as u8).collect();
    c.fp = n as u64;
    c.nontrivial = n > 4096;
    c.sample = format!("{} bytes", n);
    if n > 1 << 23 {
        c.ev("views over 8 MiB", 1);
    }
    let us = st(UnsafeSlice::new_with_arena(&v, ar.clone()), "new_with_arena")?;
    check_view(&us, &v)?;
    for _ in 0..4 {
        let start = if c.rng.chance(1, 2) { c.rng.below(n + 1) } else { n - c.rng.below(n.min(20) + 1) };
        let len = if c.rng.chance(1, 2) { n - start } else { c.rng.below(n - start + 1) };
        let sub = unsafe { us.sub_slice(start, len) };
        ensure!(sub.len() == len && sub.as_ref() == &v[start..start + len], "sub_slice({}, {}) of {} bytes differs", start, len, n);
        c.ev("sub-slices", 1);
    }
    let dst = Slice::from_buf(&v).copy_with_arena(ar);
    let got: &[u8] = dst.as_ref();
    ensure!(got == &v[..], "a copy of {} bytes differs", n);
    Ok(())
}

fn c19_giant(c: &mut Ctx) -> R {
    let n = (1usize << 31) + c.rng.range(100, 5000);
    c.fp = n as u64;
    c.sample = format!("{} bytes", n);
    let Some(mut v) = giant(n) else {
        return Ok(());
    };
    let end = c.rng.bytes(50);
    v[n - 50..].copy_from_slice(&end);
    v[0] = 9;
    let ar = arena();
    let us = st(UnsafeSlice::new_with_arena(&v, ar.clone()), "new_with_arena")?;
    drop(v);
    c.nontrivial = true;
    c.ev("giant views", 1);
    ensure!(us.len() == n && us.as_ref().len() == n && us.as_ref()[n - 50..] == end[..] && us.as_ref()[0] == 9, "a view of {} bytes says {}", n, us.len());
    for k in [0, 1, 7, 50] {
        let sub = unsafe { us.sub_slice(n - k, k) };
        ensure!(sub.len() == k && sub.as_ref() == &end[50 - k..], "the last {} of {} bytes are {}", k, n, hex(sub.as_ref()));
        let s = sub.to_slice();
        ensure!(*s == end[50 - k..], "a copy of the last {} of {} bytes is {}", k, n, hex(&s));
        // a part of a part
        let most = unsafe { us.sub_slice(1, n - 1) };
        let sub = unsafe { most.sub_slice(n - 1 - k, k) };
        ensure!(most.len() == n - 1 && sub.as_ref() == &end[50 - k..], "the last {} of {} bytes are {}", k, n - 1, hex(sub.as_ref()));
        c.ev("sub-slices", 3);
    }
    for (start, len) in [(n + 1, 0), (n, 1), (n - 1, 2), (usize::MAX, 2), (1, n)] {
        ensure!(no_panic(|| unsafe { us.sub_slice(start, len) }.len()).is_err(), "sub_slice({}, {}) of {} bytes was not refused", start, len, n);
    }
    Ok(())
}

fn c19_views(c: &mut Ctx) -> R {
    let ar = arena();
    let steps = c.rng.range(4, c.by(25, 60, 200));
    let mut views: Vec<(UnsafeSlice, Vec<u8>, usize)> = vec![];
    let mut copies: Vec<(Slice, Vec<u8>)> = vec![];
    let max = c.by(60, 3000, 6000);
    c.fp = steps as u64;
    for _ in 0..steps {
        let op = c.rng.below(10);
        match op {
            0..=2 => {
                let len = match c.rng.below(4) {
                    0 => 0,
                    1 => c.rng.range(0, max),
                    _ => c.rng.range(1, 40),
                };
                let v = match c.rng.below(6) {
                    0 => c.rng.bytes(len),
                    4 => format!("{}{}{}", padding(&mut c.rng), "x".repeat(len / 2), padding(&mut c.rng)).into_bytes(),
                    5 => (0..len / 4).map(|_| padding(&mut c.rng)).collect::<String>().into_bytes(),
                    1 => "päivää✓".bytes().cycle().take(len / 12 * 12).collect(),
                    _ => (0..len).map(|i| b'a' + (i % 26) as u8).collect(),
                };
                if v.is_empty() {
                    c.ev("empty slices", 1);
                }
                c.mix(hash_bytes(&v));
                let text = String::from_utf8(v.clone());
                if text.is_err() {
                    c.ev("non-UTF-8 contents", 1);
                }
                let us = match (c.rng.below(3), text) {
                    (0, Ok(s)) => {
                        let r = s.try_into_unsafe_slice(ar.clone());
                        drop(s);
                        st(r, "String::try_into_unsafe_slice")?
                    }
                    (1, Ok(s)) => {
                        let r = s.as_str().try_into_unsafe_slice(ar.clone());
                        st(r, "str::try_into_unsafe_slice")?
                    }
                    _ => {
                        let mut src = v.clone();
                        let r = st(UnsafeSlice::new_with_arena(&src, ar.clone()), "new_with_arena")?;
                        src.iter_mut().for_each(|x| *x = !*x);
                        r
                    }
                };
                views.push((us, v, 0));
            }
            3..=5 if !views.is_empty() => {
                let i = c.rng.below(views.len());
                let (us, v, depth) = views[i].clone();
                let start = c.rng.below(v.len() + 1);
                let len = match c.rng.below(3) {
                    0 => v.len() - start,
                    1 => 0,
                    _ => c.rng.below(v.len() - start + 1),
                };
                c.mix((start << 20 | len) as u64);
                let sub = unsafe { us.sub_slice(start, len) };
                let want = v[start..start + len].to_vec();
                ensure!(sub.len() == len && sub.as_ref() == &want[..], "sub_slice({}, {}) of {} bytes is {}, expected {}", start, len, v.len(), hex(sub.as_ref()), hex(&want));
                c.ev("sub-slices", 1);
                if depth > 0 {
                    c.nontrivial = true;
                }
                views.push((sub, want, depth + 1));
            }
            6 if !views.is_empty() => {
                let i = c.rng.below(views.len());
                let (us, v, _) = views[i].clone();
                let (start, len) = match c.rng.below(4) {
                    0 => (beyond(&mut c.rng, v.len()), 0),
                    1 => (c.rng.below(v.len() + 1), beyond(&mut c.rng, v.len())),
                    2 => (beyond(&mut c.rng, v.len()), beyond(&mut c.rng, v.len())),
                    _ => (beyond(&mut c.rng, v.len()), c.rng.below(40)),
                };
                let got = no_panic(|| unsafe { us.sub_slice(start, len) }.len());
                ensure!(got.is_err(), "sub_slice({}, {}) of {} bytes was not refused", start, len, v.len());
                c.ev("refused sub-slices", 1);
            }
            7 if !views.is_empty() => {
                let i = c.rng.below(views.len());
                let s = views[i].0.to_slice();
                copies.push((s, views[i].1.clone()));
                c.ev("copies out", 1);
            }
            8 => {
                let len = c.rng.range(0, max);
                let v = c.rng.bytes(len);
                let src = Slice::from_buf(&v);
                let dst = src.copy_with_arena(ar.clone());
                drop(src);
                copies.push((dst, v));
                c.ev("arena copies", 1);
            }
            _ => {
                if !copies.is_empty() && c.rng.chance(1, 2) {
                    let i = c.rng.below(copies.len());
                    drop(copies.swap_remove(i));
                }
            }
        }
        if !views.is_empty() {
            let i = c.rng.below(views.len());
            check_view(&views[i].0, &views[i].1)?;
        }
    }
    for (us, v, _) in &views {
        check_view(us, v)?;
    }
    c.sample = format!("{} views, {} copies", views.len(), copies.len());
    drop(views);
    drop(ar);
    for (s, v) in &copies {
        let got: &[u8] = s.as_ref();
        ensure!(got == &v[..], "a copy of {} bytes is {}, expected {}", v.len(), hex(got), hex(v));
    }
    Ok(())
}

fn check_view(us: &UnsafeSlice, v: &[u8]) -> R {
    ensure!(us.len() == v.len(), "length is {}, expected {}", us.len(), v.len());
    ensure!(us.as_ref() == v, "bytes are {}, expected {}", hex(us.as_ref()), hex(v));
    let twin = *us;
    ensure!(twin.as_ref() == v, "a copy of the view differs");
    let s = us.to_slice();
    let got: &[u8] = s.as_ref();
    ensure!(got == v && s.size() == v.len(), "to_slice gives {}, expected {}", hex(got), hex(v));
    if let Ok(t) = std::str::from_utf8(v) {
        ensure!(us.as_str() == t, "as_str gives {:?}, expected {:?}", us.as_str(), t);
        ensure!(us.to_string() == t, "display gives {:?}, expected {:?}", us.to_string(), t);
        // into a writer that refuses: an error, and the view is as it was
        ensure!(write!(Full, "{}", us).is_err() || t.is_empty(), "displaying into a full writer succeeds");
        ensure!(us.as_ref() == v, "bytes are {} after a failed display, expected {}", hex(us.as_ref()), hex(v));
    } else {
        // bytes that are no text never come out as a str, which may be read beyond its end then
        if let Ok(b) = no_panic(|| us.as_str().as_bytes().to_vec()) {
            ensure!(std::str::from_utf8(&b).is_ok(), "as_str gives bytes that are no text: {}", hex(&b));
        }
        shown_as_text(&us.to_string(), v)?;
    }
    Ok(())
}

/// Whatever stands for the rest, the text parts of the bytes are shown, in their order.
fn shown_as_text(s: &str, v: &[u8]) -> R {
    ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "the text of {} is no text: {}", hex(v), hex(s.as_bytes()));
    let mut at = 0;
    for part in v.utf8_chunks() {
        match s[at..].find(part.valid()) {
            Some(j) => at += j + part.valid().len(),
            None => return Err(format!("{:?} is not part of the text {:?} of {}", part.valid(), s, hex(v))),
        }
    }
    Ok(())
}
