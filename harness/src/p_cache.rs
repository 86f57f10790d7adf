//! C10..C13: the sharded LRU cache.

use crate::kit::*;
use crate::refs;
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::slice::Slice;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C10", name: "c10_model", rule: "random insert/lookup/erase/prune histories over a small key pool with full hash collisions and bucket collisions, against a map, every answer and the total charge compared; non-trivial: at least one replaced or erased present key", run: c10_model, cases: (6, 500, 6000), must_see: &["inserts of a present key", "erases of a present key", "erases of an absent key", "prunes", "full hash collisions", "keys sharing hash and bytes", "lookups of an absent key"] },
        Suite { prop: "C10", name: "c10_types", rule: "caches of values of all shapes (without size, large, aligned, with heap parts) with few keys, often one, against a map; non-trivial: a present key was erased or replaced", run: c10_types, cases: (8, 400, 4000), must_see: &["erases of a present key", "inserts of a present key", "lookups of an absent key"] },
        Suite { prop: "C10", name: "c10_growth", rule: "hundreds to thousands of keys forced into one shard or spread over all, more than any table starts with, looked up, erased and re-inserted; non-trivial: all", run: c10_growth, cases: (1, 40, 400), must_see: &["lookups", "erases of present keys", "shards of more than 32768 entries"] },
        Suite { prop: "C11", name: "c11_evict", rule: "insert/lookup/erase histories on 1..3 shards with tight capacities; after every insert the retained keys are read back and compared with the eviction rule; non-trivial: something was evicted", run: c11_evict, cases: (4, 500, 6000), must_see: &["evictions", "oversized entries", "several evicted by one insert", "lookups before eviction", "inserts of a present key", "shares above 4 GiB"] },
        Suite { prop: "C11", name: "c11_mass", rule: "one insert into a shard of up to thousands of small entries; non-trivial: every case", run: c11_mass, cases: (0, 30, 60), must_see: &["evictions by one insert", "more than 512 evicted by one insert"] },
        Suite { prop: "C11", name: "c11_capacity", rule: "capacities from 0 to usize::MAX with charges around each share; non-trivial: all", run: c11_capacity, cases: (6, 200, 2000), must_see: &["capacities near the maximum", "zero capacities"] },
        Suite { prop: "C12", name: "c12_lifetime", rule: "histories with tracked values (drop counters, patterned heap payloads), some held by the caller across replace, erase, eviction, prune and drop of the cache; after every operation the live values must be exactly the cached and the held ones; non-trivial: something was held across its removal", run: c12_lifetime, cases: (10, 400, 5000), must_see: &["values held across replacement", "values held across erase", "values held across eviction", "values held across prune", "values held across drop", "drops", "empty keys", "values held many times"] },
        Suite { prop: "C12", name: "c12_types", rule: "counted values of all sizes from none to kilobytes with few keys, often one, held by callers; non-trivial: a value was held across its removal", run: c12_types, cases: (8, 400, 4000), must_see: &["erases of a present key", "values held across removal", "drops"] },
        Suite { prop: "C12", name: "c12_memory", rule: "fill, churn and drop caches of all shapes, live heap bytes compared before and after; non-trivial: all", run: c12_memory, cases: (4, 120, 1200), must_see: &["bytes returned"] },
        Suite { prop: "C12", name: "c12_churn", rule: "a small population is replaced, erased, evicted and pruned over and over; live heap bytes after many rounds are compared with those after a few; non-trivial: all", run: c12_churn, cases: (1, 15, 60), must_see: &["inserts", "rounds by erasing", "rounds by evicting", "rounds by replacing", "rounds by pruning"] },
        Suite { prop: "C13", name: "c13_history", rule: "2..8 threads on 1..4 keys (also with equal hashes), every call logged with call and return stamps, each key's history checked for linearizability; non-trivial: two threads overlapped on one key", run: c13_history, cases: (2, 250, 4000), must_see: &["operations", "overlapping operations on one key", "lookups that saw another thread's value"] },
        Suite { prop: "C13", name: "c13_evict", rule: "the same with tight capacity and growing tables: no stale or foreign value, charge within capacity at every observed moment, every value dropped once; non-trivial: something was evicted while threads ran", run: c13_evict, cases: (2, 120, 2000), must_see: &["operations", "evictions", "charge observations"] },
        Suite { prop: "C13", name: "c13_stress", rule: "threads run without logging (no synchronisation but the cache's own), values carry their key and checksum; non-trivial: all", run: c13_stress, cases: (2, 60, 800), must_see: &["operations"] },
    ]
}

// ------------------------------------------------------------------ keys with chosen hashes

const M: u32 = 0xc6a4_a793;

fn inv(m: u32) -> u32 {
    let mut x = m; // Newton
    for _ in 0..5 {
        x = x.wrapping_mul(2u32.wrapping_sub(m.wrapping_mul(x)));
    }
    x
}

/// an 8-byte key with the given hash under seed 0; `salt` picks one of 2^32 of them
fn key_with_hash(hash: u32, salt: u32) -> Vec<u8> {
    let mut h = 8u32.wrapping_mul(M).wrapping_add(salt).wrapping_mul(M);
    h ^= h >> 16;
    let x = (hash ^ (hash >> 16)).wrapping_mul(inv(M));
    let w2 = x.wrapping_sub(h);
    let mut k = salt.to_le_bytes().to_vec();
    k.extend(w2.to_le_bytes());
    debug_assert_eq!(refs::ldb_hash(&k, 0), hash);
    k
}

/// appends the word that takes the hash of `head` (whole words) plus `tail` words to `hash`, in a key
/// of `head.len() + 4 + tail.len()` bytes
fn word_to_hash(head: &[u8], tail: &[u8], hash: u32) -> Vec<u8> {
    assert!(head.len() % 4 == 0 && tail.len() % 4 == 0);
    let total = (head.len() + 4 + tail.len()) as u32;
    let mut h = total.wrapping_mul(M);
    for w in head.chunks(4) {
        h = h.wrapping_add(u32::from_le_bytes([w[0], w[1], w[2], w[3]])).wrapping_mul(M);
        h ^= h >> 16;
    }
    // backwards from the hash to the state before the tail and to the word
    let mut t = hash;
    for w in tail.chunks(4).rev() {
        t = (t ^ (t >> 16)).wrapping_mul(inv(M)).wrapping_sub(u32::from_le_bytes([w[0], w[1], w[2], w[3]]));
    }
    let w = (t ^ (t >> 16)).wrapping_mul(inv(M)).wrapping_sub(h);
    let mut k = head.to_vec();
    k.extend(w.to_le_bytes());
    k.extend(tail);
    debug_assert_eq!(refs::ldb_hash(&k, 0), hash);
    k
}

/// a key of the given hash that shares what it can with another such key
fn twin(c: &mut Ctx, old: &[u8], hash: u32) -> Vec<u8> {
    match c.rng.below(3) {
        // the other key is its beginning
        0 if old.len() % 4 == 0 => word_to_hash(old, b"", hash),
        // same length and beginning
        1 if old.len() % 4 == 0 && old.len() >= 8 => {
            let mut head = old[..old.len() - 4].to_vec();
            let n = head.len();
            head[n - 1] ^= 1 + c.rng.below(255) as u8;
            word_to_hash(&head, b"", hash)
        }
        // same length and end
        2 if old.len() % 4 == 0 && old.len() >= 12 => {
            let mut head = old[..4].to_vec();
            head[c.rng.below(4)] ^= 1 + c.rng.below(255) as u8;
            word_to_hash(&head, &old[8..], hash)
        }
        _ => {
            let n = if c.rng.chance(1, 4) { 4 * c.rng.edge_len(c.by(20, 300, 20_000)) } else { 4 * c.rng.range(0, 12) };
            let head = c.rng.bytes(n);
            let n = 4 * c.rng.range(0, 3);
            let tail = c.rng.bytes(n);
            word_to_hash(&head, &tail, hash)
        }
    }
}

fn shard_of(key: &[u8]) -> usize {
    (refs::ldb_hash(key, 0) >> 27) as usize
}

fn err<T>(r: level_db_rust::util::Result<T>, what: &str) -> Result<T, String> {
    r.map_err(|s| format!("{} returned an error: {}", what, s.to_string()))
}

fn pool(c: &mut Ctx, n: usize) -> Vec<Vec<u8>> {
    // at times the hash that the empty key has
    let h0 = if c.rng.chance(1, 6) { refs::ldb_hash(b"", 0) } else { c.rng.u32() };
    let mut v: Vec<Vec<u8>> = vec![];
    if h0 == refs::ldb_hash(b"", 0) && n > 1 {
        v.push(vec![]);
    }
    let mut seen: BTreeSet<Vec<u8>> = v.iter().cloned().collect();
    let mut same: Vec<Vec<u8>> = vec![];
    while v.len() < n {
        let k = match c.rng.below(5) {
            // equal 32-bit hashes
            0 => key_with_hash(h0, c.rng.u32()),
            // the same with common beginnings, ends or whole keys
            4 => {
                let old = if same.is_empty() { vec![] } else { same[c.rng.below(same.len())].clone() };
                c.ev("keys sharing hash and bytes", !old.is_empty() as u64);
                twin(c, &old, h0)
            }
            // equal bucket in a small table, other hash
            1 => {
                let h = h0 ^ ((c.rng.next() as u32 & 0x00ff_ff00) & !0xff);
                key_with_hash(h, c.rng.u32())
            }
            2 => c.rng.key(20),
            _ => format!("key{}", c.rng.below(1000)).into_bytes(),
        };
        if seen.insert(k.clone()) {
            if k.len() >= 4 && refs::ldb_hash(&k, 0) == h0 {
                same.push(k.clone());
            }
            v.push(k);
        }
    }
    let mut by: HashMap<u32, u64> = HashMap::new();
    for k in &v {
        *by.entry(refs::ldb_hash(k, 0)).or_default() += 1;
    }
    c.ev("full hash collisions", by.values().map(|x| x - 1).sum());
    v
}

fn big_cache<T>(c: &mut Ctx, capacity: usize) -> ShardLRUCache<T> {
    let mut len = *c.rng.pick(&[0usize, 1, 16, 100, 512, 513, 1000]);
    if c.scale > 0 && c.rng.chance(1, 60) {
        len = *c.rng.pick(&[5000usize, 1 << 14, 70_000]);
    }
    ShardLRUCache::new_with_capacity(capacity, len)
}

// ------------------------------------------------------------------ C10

fn c10_model(c: &mut Ctx) -> R {
    let n = c.rng.range(1, c.by(6, 14, 30));
    let keys = pool(c, n);
    let cap = *c.rng.pick(&[usize::MAX, 1usize << 50, usize::MAX / 2, (1 << 50) + 31]);
    let mut cache: ShardLRUCache<u64> = big_cache(c, cap);
    let mut model: BTreeMap<usize, (u64, usize)> = BTreeMap::new();
    let steps = c.rng.range(5, c.by(40, 120, 400));
    c.fp = keys.iter().fold(steps as u64, |a, k| a.rotate_left(7) ^ hash_bytes(k));
    c.sample = format!("{} keys, {} operations", keys.len(), steps);
    let mut next = 0u64;
    ensure!(cache.capacity() == cap, "capacity() is {}, was created with {}", cache.capacity(), cap);
    for step in 0..steps {
        let i = c.rng.below(keys.len());
        let k = Slice::from_buf(&keys[i]);
        let op = c.rng.below(20);
        c.mix(op as u64 ^ (i as u64) << 8);
        match op {
            0..=8 => {
                next += 1;
                let charge = match c.rng.below(5) {
                    0 => 0,
                    1 => 1 << c.rng.below(40),
                    _ => c.rng.below(1000),
                };
                if model.contains_key(&i) {
                    c.ev("inserts of a present key", 1);
                    c.nontrivial = true;
                }
                err(cache.insert(&k, next, charge), "insert")?;
                model.insert(i, (next, charge));
            }
            9..=13 => {
                if model.remove(&i).is_some() {
                    c.ev("erases of a present key", 1);
                    c.nontrivial = true;
                } else {
                    c.ev("erases of an absent key", 1);
                }
                err(cache.erase(&k), "erase")?;
            }
            14 if c.rng.chance(1, 4) => {
                err(cache.prune(), "prune")?;
                model.clear();
                c.ev("prunes", 1);
            }
            _ => {}
        }
        let all = step % 8 == 7 || step + 1 == steps;
        for (j, key) in keys.iter().enumerate() {
            if !all && j != i && c.rng.chance(2, 3) {
                continue;
            }
            let got = err(cache.lookup(&Slice::from_buf(key)), "lookup")?.map(|v| *v);
            let want = model.get(&j).map(|v| v.0);
            if want.is_none() {
                c.ev("lookups of an absent key", 1);
            }
            ensure!(got == want, "after operation {} (number {}) lookup of key {} gave {:?}, expected {:?}", op, step, hex(key), got, want);
            c.ev("lookups", 1);
        }
        let (t, w) = (err(cache.total_charge(), "total_charge")?, model.values().map(|v| v.1).sum::<usize>());
        ensure!(t == w, "after operation {} (number {}) the total charge is {}, expected {}", op, step, t, w);
    }
    Ok(())
}

fn c10_types(c: &mut Ctx) -> R {
    #[derive(Clone, PartialEq, Debug)]
    #[repr(align(64))]
    struct Aligned(u8, u64);
    let kind = c.rng.below(9);
    c.mix(kind as u64);
    match kind {
        0 | 1 => c10_of(c, "()", |_| ()),
        2 => c10_of(c, "u8", |x| x as u8),
        3 => c10_of(c, "[u8; 100]", |x| [x as u8; 100]),
        4 => c10_of(c, "[u64; 600]", |x| [x; 600]),
        5 => c10_of(c, "String", |x| format!("element {}", x)),
        6 => c10_of(c, "an aligned struct", |x| Aligned(x as u8, !x)),
        7 => c10_of(c, "Box<[u64]>", |x| vec![x; (x % 50) as usize].into_boxed_slice()),
        _ => c10_of(c, "Option<Box<u64>>", |x| if x % 3 == 0 { None } else { Some(Box::new(x)) }),
    }
}

fn c10_of<T: PartialEq + std::fmt::Debug>(c: &mut Ctx, name: &str, make: impl Fn(u64) -> T) -> R {
    let n = if c.rng.chance(1, 2) { 1 } else { c.rng.range(1, 6) };
    // in one shard, or wherever
    let top = c.rng.u32() & 0xf800_0000;
    let one_shard = c.rng.chance(1, 2);
    let keys: Vec<Vec<u8>> = (0..n).map(|i| if one_shard { key_with_hash(top | (i as u32 * 0x11), 5 + i as u32) } else { format!("key {}", i).into_bytes() }).collect();
    let mut cache: ShardLRUCache<T> = big_cache(c, 1 << 50);
    let mut model: BTreeMap<usize, (u64, usize)> = BTreeMap::new();
    let free = c.rng.chance(1, 3);
    let steps = c.rng.range(3, c.by(20, 60, 120));
    c.sample = format!("{} keys, {} operations on values of type {}", n, steps, name);
    for step in 0..steps {
        let i = c.rng.below(n);
        let k = Slice::from_buf(&keys[i]);
        let op = c.rng.below(10);
        c.mix(op as u64 ^ (i as u64) << 8);
        match op {
            0..=4 => {
                let charge = if free { 0 } else { c.rng.below(50) };
                let x = c.rng.next();
                err(cache.insert(&k, make(x), charge), "insert")?;
                if model.insert(i, (x, charge)).is_some() {
                    c.ev("inserts of a present key", 1);
                    c.nontrivial = true;
                }
            }
            5..=8 => {
                err(cache.erase(&k), "erase")?;
                if model.remove(&i).is_some() {
                    c.ev("erases of a present key", 1);
                    c.nontrivial = true;
                }
            }
            _ if c.rng.chance(1, 6) => {
                err(cache.prune(), "prune")?;
                model.clear();
            }
            _ => {}
        }
        for (j, key) in keys.iter().enumerate() {
            let got = err(cache.lookup(&Slice::from_buf(key)), "lookup")?;
            match model.get(&j) {
                None => {
                    c.ev("lookups of an absent key", 1);
                    ensure!(got.is_none(), "operation {} (number {}): key {} holds {:?} ({}), expected nothing", op, step, hex(key), got, name);
                }
                Some((x, _)) => {
                    let want = make(*x);
                    ensure!(got.as_deref() == Some(&want), "operation {} (number {}): key {} holds {:?} ({}), expected {:?}", op, step, hex(key), got, name, want);
                }
            }
        }
        let (t, w) = (err(cache.total_charge(), "total_charge")?, model.values().map(|v| v.1).sum::<usize>());
        ensure!(t == w, "after operation {} (number {}) the total charge is {}, expected {}", op, step, t, w);
    }
    Ok(())
}

fn c10_growth(c: &mut Ctx) -> R {
    let huge = c.scale > 0 && c.case % 25 == 7;
    let n = if huge && c.case % 50 == 7 { 130_000 } else if huge { 45_000 } else { c.rng.range(c.by(20, 100, 300), c.by(60, 1500, 8000)) };
    let one_shard = huge || c.rng.chance(1, 2);
    c.ev("shards of more than 32768 entries", huge as u64);
    let top = c.rng.u32() & 0xf800_0000;
    let mut keys: Vec<Vec<u8>> = vec![];
    let mut seen = BTreeSet::new();
    while keys.len() < n {
        let k = if one_shard {
            let h = top | (c.rng.u32() & if c.rng.chance(1, 4) { 0x0000_0fff } else { 0x07ff_ffff });
            key_with_hash(h, c.rng.u32())
        } else {
            c.rng.bytes(9)
        };
        if seen.insert(k.clone()) {
            keys.push(k);
        }
    }
    let mut cache: ShardLRUCache<u64> = big_cache(c, 1 << 60);
    c.fp = c.rng.clone().next();
    c.sample = format!("{} keys in {}", n, if one_shard { "one shard" } else { "all shards" });
    c.nontrivial = true;
    let mut present: HashMap<usize, u64> = HashMap::new();
    for (i, k) in keys.iter().enumerate() {
        err(cache.insert(&Slice::from_buf(k), i as u64, 1), "insert")?;
        present.insert(i, i as u64);
        if i % 16 == 0 {
            let j = c.rng.below(i + 1);
            let got = err(cache.lookup(&Slice::from_buf(&keys[j])), "lookup")?.map(|v| *v);
            ensure!(got == present.get(&j).copied(), "after {} inserts key {} gives {:?}, expected {:?}", i + 1, hex(&keys[j]), got, present.get(&j));
        }
        if i % 5 == 4 {
            let j = c.rng.below(i + 1);
            err(cache.erase(&Slice::from_buf(&keys[j])), "erase")?;
            present.remove(&j);
        }
    }
    let verify = |c: &mut Ctx, cache: &ShardLRUCache<u64>, present: &HashMap<usize, u64>| -> R {
        for (j, k) in keys.iter().enumerate() {
            let got = err(cache.lookup(&Slice::from_buf(k)), "lookup")?.map(|v| *v);
            ensure!(got == present.get(&j).copied(), "key {} of {} gives {:?}, expected {:?}", hex(k), n, got, present.get(&j));
            c.ev("lookups", 1);
        }
        let t = err(cache.total_charge(), "total_charge")?;
        ensure!(t == present.len(), "total charge {} for {} entries of charge 1", t, present.len());
        Ok(())
    };
    verify(c, &cache, &present)?;
    // erase in random order, half of the table
    let mut order: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut order);
    for &j in order.iter().take(n / 2) {
        err(cache.erase(&Slice::from_buf(&keys[j])), "erase")?;
        c.ev("erases of present keys", present.remove(&j).is_some() as u64);
    }
    verify(c, &cache, &present)?;
    for &j in order.iter().take(n / 4) {
        err(cache.insert(&Slice::from_buf(&keys[j]), 7_000_000 + j as u64, 1), "insert")?;
        present.insert(j, 7_000_000 + j as u64);
    }
    verify(c, &cache, &present)?;
    if c.rng.chance(1, 2) {
        err(cache.prune(), "prune")?;
        present.clear();
        verify(c, &cache, &present)?;
        for &j in order.iter().take(n / 2) {
            err(cache.insert(&Slice::from_buf(&keys[j]), j as u64, 1), "insert")?;
            present.insert(j, j as u64);
        }
        verify(c, &cache, &present)?;
    }
    if c.rng.chance(1, 2) {
        // to the last entry, and up to where it was and beyond
        c.rng.shuffle(&mut order);
        for &j in &order {
            err(cache.erase(&Slice::from_buf(&keys[j])), "erase")?;
            present.remove(&j);
        }
        ensure!(present.is_empty() && err(cache.total_charge(), "total_charge")? == 0, "every key was erased, the total charge is {}", err(cache.total_charge(), "total_charge")?);
        c.ev("caches emptied key by key", 1);
        c.rng.shuffle(&mut order);
        for &j in &order {
            err(cache.insert(&Slice::from_buf(&keys[j]), 9_000_000 + j as u64, 1), "insert")?;
            present.insert(j, 9_000_000 + j as u64);
        }
        verify(c, &cache, &present)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C11

fn share(capacity: usize) -> u128 {
    (capacity as u128 + 31) / 32
}

fn c11_evict(c: &mut Ctx) -> R {
    let shards = c.rng.range(1, 3);
    let tops: Vec<u32> = (0..shards).map(|_| c.rng.u32() & 0xf800_0000).collect();
    let per = c.rng.range(3, c.by(6, 12, 24));
    let mut keys: Vec<Vec<u8>> = vec![];
    for t in &tops {
        for _ in 0..per {
            let low = if c.rng.chance(1, 3) { 0x12 } else { c.rng.u32() & 0x07ff_ffff };
            let k = key_with_hash(t | low, c.rng.u32());
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
    }
    // charges are bytes to the caller: shares of 4 GiB and more happen
    let unit = if c.rng.chance(1, 5) { 1usize << c.rng.range(20, 50) } else { 1 };
    let cap_share = c.rng.range(1, 200) * unit;
    if cap_share > u32::MAX as usize {
        c.ev("shares above 4 GiB", 1);
    }
    let capacity = cap_share * 32 - c.rng.below(32);
    let cap = share(capacity);
    let mut cache: ShardLRUCache<u64> = big_cache(c, capacity);
    // per shard: insertion order, oldest first: (key, value, charge)
    let mut model: HashMap<usize, Vec<(usize, u64, usize)>> = HashMap::new();
    let steps = c.rng.range(10, c.by(40, 100, 300));
    c.fp = c.rng.clone().next();
    c.sample = format!("{} keys in {} shards, capacity {}, {} operations", keys.len(), shards, capacity, steps);
    let mut value = 0u64;
    for step in 0..steps {
        let i = c.rng.below(keys.len());
        let sh = shard_of(&keys[i]);
        let k = Slice::from_buf(&keys[i]);
        match c.rng.below(10) {
            0 => {
                err(cache.erase(&k), "erase")?;
                model.entry(sh).or_default().retain(|e| e.0 != i);
            }
            1 | 2 => {
                // a hit must not change what is evicted next
                c.ev("lookups before eviction", 1);
                for _ in 0..c.rng.range(1, 3) {
                    let got = err(cache.lookup(&k), "lookup")?.map(|v| *v);
                    let want = model.get(&sh).and_then(|l| l.iter().find(|e| e.0 == i)).map(|e| e.1);
                    ensure!(got == want, "lookup of key {} gave {:?}, expected {:?}", hex(&keys[i]), got, want);
                }
            }
            _ => {
                let charge = match c.rng.below(12) {
                    0 => cap as usize,
                    1 => cap as usize + c.rng.below(300 * unit),
                    2 => (cap as usize).saturating_sub(1),
                    3 => 0,
                    _ => c.rng.range(1, 1 + cap as usize / 3),
                };
                if charge as u128 > cap {
                    c.ev("oversized entries", 1);
                }
                value += 1;
                err(cache.insert(&k, value, charge), "insert")?;
                let list = model.entry(sh).or_default();
                if list.iter().any(|e| e.0 == i) {
                    c.ev("inserts of a present key", 1);
                }
                list.retain(|e| e.0 != i);
                list.push((i, value, charge));
                // read back what is retained
                let mut kept: Vec<bool> = vec![];
                for e in list.iter() {
                    let got = err(cache.lookup(&Slice::from_buf(&keys[e.0])), "lookup")?.map(|v| *v);
                    ensure!(got.is_none() || got == Some(e.1), "key {} gives {:?}, inserted was {}", hex(&keys[e.0]), got, e.1);
                    kept.push(got.is_some());
                }
                let first = kept.iter().position(|x| *x).unwrap_or(kept.len());
                ensure!(kept[first..].iter().all(|x| *x), "after insert number {} of charge {} the retained entries are not the newest ones: {:?} (oldest first, charges {:?}, share {})", step, charge, kept, list.iter().map(|e| e.2).collect::<Vec<_>>(), cap);
                let sum: u128 = list[first..].iter().map(|e| e.2 as u128).sum();
                ensure!(sum <= cap, "after insert number {} the shard retains charge {}, its share is {}", step, sum, cap);
                if first > 0 {
                    let e = list[first - 1];
                    ensure!(sum + e.2 as u128 >= cap, "an entry of charge {} was evicted although {} + {} is below the share {}", e.2, sum, e.2, cap);
                    c.ev("evictions", first as u64);
                    if first > 1 {
                        c.ev("several evicted by one insert", 1);
                    }
                    c.nontrivial = true;
                }
                list.drain(..first);
            }
        }
        let (t, w) = (err(cache.total_charge(), "total_charge")?, model.values().flatten().map(|e| e.2).sum::<usize>());
        ensure!(t == w, "the total charge is {}, the retained entries have {}", t, w);
        ensure!(t as u128 <= 32 * cap, "the total charge {} exceeds the capacity {}", t, capacity);
    }
    // other shards and everything retained still answer
    for (j, k) in keys.iter().enumerate() {
        let want = model.get(&shard_of(k)).and_then(|l| l.iter().find(|e| e.0 == j)).map(|e| e.1);
        let got = err(cache.lookup(&Slice::from_buf(k)), "lookup")?.map(|v| *v);
        ensure!(got == want, "key {} gives {:?} at the end, expected {:?}", hex(k), got, want);
    }
    Ok(())
}

/// one insert may have to make room by evicting thousands
fn c11_mass(c: &mut Ctx) -> R {
    let n = c.rng.range(c.by(20, 700, 3000), c.by(60, 5000, 40_000));
    let top = c.rng.u32() & 0xf800_0000;
    let keys: Vec<Slice> = (0..n).map(|i| Slice::from_buf(&key_with_hash(top | (c.rng.u32() & 0x07ff_ffff), i as u32))).collect();
    let unit = *c.rng.pick(&[1usize, 1, 10]);
    let cap = n * unit + c.rng.range(1, 9);
    let mut cache: ShardLRUCache<u64> = big_cache(c, cap * 32);
    let heavy = Slice::from_buf(&key_with_hash(top | (c.rng.u32() & 0x07ff_ffff), n as u32));
    let free = c.rng.chance(1, 3);
    c.fp = c.rng.clone().next();
    c.nontrivial = true;
    c.sample = format!("{} entries of charge {} in one shard, share {}", n, unit, cap);
    for round in 0..3u64 {
        // oldest first
        let mut list: Vec<(&Slice, u64, usize)> = vec![];
        for (i, k) in keys.iter().enumerate() {
            let charge = if free && i % 3 == 0 { 0 } else { unit };
            err(cache.insert(k, i as u64 + round, charge), "insert")?;
            list.push((k, i as u64 + round, charge));
        }
        let charge = match c.rng.below(4) {
            0 => cap + c.rng.below(5),
            1 => cap - 1,
            2 => cap / 2,
            _ => c.rng.range(1, cap),
        };
        let present = list.iter().filter(|e| matches!(cache.lookup(e.0), Ok(Some(_)))).count();
        // the heavy entry of the round before may still be there
        ensure!(round > 0 || present == n, "{} of {} entries are there, though together they are below the share", present, n);
        err(cache.insert(&heavy, 1 << 40 | round, charge), "insert")?;
        list.push((&heavy, 1 << 40 | round, charge));
        let mut kept = vec![];
        for e in &list {
            let got = err(cache.lookup(e.0), "lookup")?.map(|v| *v);
            ensure!(got.is_none() || got == Some(e.1), "an entry gives {:?}, inserted was {}", got, e.1);
            kept.push(got.is_some());
        }
        let first = kept.iter().position(|x| *x).unwrap_or(kept.len());
        ensure!(kept[first..].iter().all(|x| *x), "after an insert of charge {} the retained entries are not the newest ones (share {})", charge, cap);
        let sum: usize = list[first..].iter().map(|e| e.2).sum();
        ensure!(sum <= cap, "after an insert of charge {} the shard retains charge {}, its share is {}", charge, sum, cap);
        ensure!(first == 0 || sum + list[first - 1].2 >= cap, "an entry of charge {} was evicted although {} + {} is below the share {}", list[first - 1].2, sum, list[first - 1].2, cap);
        let t = err(cache.total_charge(), "total_charge")?;
        ensure!(t == sum, "the total charge is {}, the retained entries have {}", t, sum);
        c.ev("evictions by one insert", (present + 1).saturating_sub(list.len() - first) as u64);
        if first > 512 {
            c.ev("more than 512 evicted by one insert", 1);
        }
        if c.rng.chance(1, 2) {
            err(cache.erase(&heavy), "erase")?;
        }
    }
    Ok(())
}

fn c11_capacity(c: &mut Ctx) -> R {
    let capacity = match c.rng.below(7) {
        0 => 0,
        1 => c.rng.below(40),
        2 => usize::MAX - c.rng.below(40),
        3 => (usize::MAX / 2) + c.rng.below(40) - 20,
        4 => 1usize << c.rng.range(5, 63),
        _ => c.rng.below(100_000),
    };
    if capacity > usize::MAX - 64 {
        c.ev("capacities near the maximum", 1);
    }
    if capacity == 0 {
        c.ev("zero capacities", 1);
    }
    let cap = share(capacity);
    c.fp = capacity as u64;
    c.nontrivial = true;
    let len = *c.rng.pick(&[0usize, 1, 100, 512, 1024]);
    c.sample = format!("capacity {}, table length {}", capacity, len);
    let (owned, shared);
    let cache: &ShardLRUCache<u64> = if c.rng.chance(1, 2) {
        owned = ShardLRUCache::new_with_capacity(capacity, len);
        &owned
    } else {
        shared = ShardLRUCache::new_arc_with_capacity(capacity, len);
        &*shared
    };
    ensure!(cache.capacity() == capacity, "capacity() is {}, was created with {}", cache.capacity(), capacity);
    for round in 0..12 {
        let k = c.rng.bytes(8);
        let ks = Slice::from_buf(&k);
        let below: u128 = err(cache.total_charge(), "total_charge")? as u128;
        let charge = match round % 4 {
            0 => (cap.saturating_sub(1)).min(1 << 40),
            1 => 1,
            2 => cap.min(1 << 40),
            _ => (cap + 1).min(1 << 40),
        } as usize;
        err(cache.insert(&ks, round, charge), "insert")?;
        let there = err(cache.lookup(&ks), "lookup")?.map(|v| *v);
        if capacity == 0 {
            ensure!(there.is_none(), "a cache without capacity retains an entry of charge {}", charge);
        }
        if charge as u128 > cap {
            ensure!(there.is_none(), "an entry of charge {} is retained with a share of {}", charge, cap);
        } else if (charge as u128) < cap {
            ensure!(there == Some(round), "a fresh entry of charge {} is not retained with a share of {} (charge before: {})", charge, cap, below);
        }
        let t = err(cache.total_charge(), "total_charge")? as u128;
        ensure!(t <= 32 * cap, "total charge {} over the capacity {}", t, capacity);
    }
    Ok(())
}

// ------------------------------------------------------------------ C12

struct Tracker {
    live: AtomicI64,
    made: AtomicU64,
    drops: AtomicU64,
    twice: AtomicBool,
}

impl Tracker {
    fn new() -> Arc<Tracker> {
        Arc::new(Tracker { live: AtomicI64::new(0), made: AtomicU64::new(0), drops: AtomicU64::new(0), twice: AtomicBool::new(false) })
    }
}

/// A value with a patterned heap payload; a use after release reads another pattern.
struct Tracked {
    id: u64,
    seal: u64,
    body: Vec<u64>,
    home: Arc<Tracker>,
}

impl Tracked {
    fn new(id: u64, home: &Arc<Tracker>) -> Tracked {
        home.live.fetch_add(1, Ordering::SeqCst);
        home.made.fetch_add(1, Ordering::SeqCst);
        Tracked { id, seal: mix64(id), body: vec![id ^ 0x5555; (id % 7) as usize + 1], home: home.clone() }
    }
    fn sound(&self) -> bool {
        self.seal == mix64(self.id) && self.body.len() == (self.id % 7) as usize + 1 && self.body.iter().all(|x| *x == self.id ^ 0x5555)
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        if !self.sound() {
            self.home.twice.store(true, Ordering::SeqCst);
        }
        self.seal = 0;
        self.home.live.fetch_sub(1, Ordering::SeqCst);
        self.home.drops.fetch_add(1, Ordering::SeqCst);
    }
}

fn c12_lifetime(c: &mut Ctx) -> R {
    let n = c.rng.range(2, c.by(6, 10, 16));
    let top = c.rng.u32() & 0xf800_0000;
    let keys: Vec<Vec<u8>> = (0..n)
        .map(|i| if c.rng.chance(2, 3) { key_with_hash(top | (c.rng.next() as u32 & 0x0000_0110), 77 + i as u32) } else { format!("k{}", i).into_bytes() })
        .collect();
    let mut keys = keys;
    // not under Miri, which refuses to compare no bytes at the pointer of an empty Vec (see c20_ops)
    if c.scale > 0 && c.rng.chance(1, 2) {
        keys[0] = vec![];
        c.ev("empty keys", 1);
    }
    let keys = keys;
    let home = Tracker::new();
    let tight = c.rng.chance(1, 2);
    let capacity = if tight { 32 * c.rng.range(2, 60) } else { 1 << 50 };
    let mut cache: ShardLRUCache<Tracked> = big_cache(c, capacity);
    let mut held: Vec<(Arc<Tracked>, u64)> = vec![];
    let steps = c.rng.range(10, c.by(60, 120, 300));
    c.fp = c.rng.clone().next();
    c.sample = format!("{} keys, {} operations, {} capacity", n, steps, if tight { "tight" } else { "ample" });
    let mut id = 0;
    // what the cache is known to hold, from the last read-back: key -> id
    let mut inside: BTreeMap<usize, u64> = BTreeMap::new();
    let read_back = |cache: &ShardLRUCache<Tracked>| -> Result<BTreeMap<usize, u64>, String> {
        let mut m = BTreeMap::new();
        for (j, k) in keys.iter().enumerate() {
            if let Some(v) = err(cache.lookup(&Slice::from_buf(k)), "lookup")? {
                ensure_sound(&v)?;
                m.insert(j, v.id);
            }
        }
        Ok(m)
    };
    for _ in 0..steps {
        let i = c.rng.below(n);
        let k = Slice::from_buf(&keys[i]);
        let before = inside.clone();
        let op = c.rng.below(12);
        match op {
            0..=5 => {
                id += 1;
                let charge = if tight { c.rng.below(30) } else { c.rng.below(1000) };
                err(cache.insert(&k, Tracked::new(id, &home), charge), "insert")?;
            }
            6 | 7 => {
                if let Some(v) = err(cache.lookup(&k), "lookup")? {
                    ensure_sound(&v)?;
                    let vid = v.id;
                    if c.rng.chance(1, 12) {
                        for _ in 0..c.rng.range(2, 80) {
                            match err(cache.lookup(&k), "lookup")? {
                                Some(w) => held.push((w, vid)),
                                None => return Err("a key just found is gone".into()),
                            }
                        }
                        c.ev("values held many times", 1);
                    }
                    if c.rng.chance(3, 4) {
                        held.push((v, vid));
                    }
                }
            }
            8 => err(cache.erase(&k), "erase")?,
            9 if !held.is_empty() => {
                for _ in 0..c.rng.range(1, held.len()) {
                    let x = c.rng.below(held.len());
                    held.swap_remove(x);
                }
            }
            10 if c.rng.chance(1, 8) => err(cache.prune(), "prune")?,
            _ => {}
        }
        inside = read_back(&cache)?;
        for (key, vid) in &before {
            if inside.get(key) != Some(vid) && held.iter().any(|h| h.1 == *vid) {
                c.nontrivial = true;
                c.ev(
                    match op {
                        0..=5 if *key == i => "values held across replacement",
                        0..=5 => "values held across eviction",
                        8 => "values held across erase",
                        _ => "values held across prune",
                    },
                    1,
                );
            }
        }
        let mut alive: BTreeSet<u64> = inside.values().copied().collect();
        for (v, vid) in &held {
            ensure_sound(v)?;
            ensure!(v.id == *vid, "a held value changed from {} to {}", vid, v.id);
            alive.insert(*vid);
        }
        ensure!(!home.twice.load(Ordering::SeqCst), "a value was dropped twice or after being overwritten");
        let live = home.live.load(Ordering::SeqCst);
        ensure!(live == alive.len() as i64, "{} values are alive, {} are cached or held", live, alive.len());
    }
    // the cache goes first, or the callers go first
    if c.rng.chance(1, 2) {
        drop(cache);
        if !held.is_empty() {
            c.ev("values held across drop", 1);
        }
        let alive: BTreeSet<u64> = held.iter().map(|h| h.1).collect();
        for (v, _) in &held {
            ensure_sound(v)?;
        }
        let live = home.live.load(Ordering::SeqCst);
        ensure!(live == alive.len() as i64, "{} values are alive after the cache was dropped, {} are held", live, alive.len());
        drop(held);
    } else {
        drop(held);
        let live = home.live.load(Ordering::SeqCst);
        ensure!(live == inside.len() as i64, "{} values are alive, {} are cached and none is held", live, inside.len());
        if c.case % 3 == 1 {
            drop_unwinding(cache);
        } else {
            drop(cache);
        }
    }
    let (live, made, drops) = (home.live.load(Ordering::SeqCst), home.made.load(Ordering::SeqCst), home.drops.load(Ordering::SeqCst));
    c.ev("drops", drops);
    ensure!(!home.twice.load(Ordering::SeqCst), "a value was dropped twice or after being overwritten");
    ensure!(live == 0 && made == drops, "{} values made, {} dropped, {} still alive at the end", made, drops, live);
    Ok(())
}

thread_local! {
    static ALIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

/// A counted value of some size; the count is outside so that the value itself may have none.
struct Sized_<const N: usize>([u64; N]);

impl<const N: usize> Sized_<N> {
    fn new(x: u64) -> Self {
        ALIVE.with(|a| a.set(a.get() + 1));
        Sized_([x; N])
    }
    fn is(&self, x: u64) -> bool {
        self.0.iter().all(|v| *v == x)
    }
}

impl<const N: usize> Drop for Sized_<N> {
    fn drop(&mut self) {
        self.0 = [0xdead; N];
        ALIVE.with(|a| a.set(a.get() - 1));
    }
}

fn c12_types(c: &mut Ctx) -> R {
    match c.rng.below(6) {
        0 => c12_of::<0>(c),
        1 => c12_of::<1>(c),
        2 => c12_of::<8>(c),
        3 => c12_of::<9>(c),
        4 => c12_of::<40>(c),
        _ => c12_of::<700>(c),
    }
}

fn c12_of<const N: usize>(c: &mut Ctx) -> R {
    let alive = || ALIVE.with(|a| a.get());
    let start = alive();
    let n = if c.rng.chance(1, 2) { 1 } else { c.rng.range(1, 6) };
    let top = c.rng.u32() & 0xf800_0000;
    let keys: Vec<Vec<u8>> = (0..n).map(|i| key_with_hash(top | (i as u32 * 0x11), 5 + i as u32)).collect();
    let mut cache: ShardLRUCache<Sized_<N>> = big_cache(c, 1 << 50);
    let mut model: BTreeMap<usize, u64> = BTreeMap::new();
    let mut held: Vec<(Arc<Sized_<N>>, u64, bool)> = vec![];
    let steps = c.rng.range(3, c.by(20, 60, 120));
    c.mix(N as u64);
    c.sample = format!("{} keys, {} operations on values of {} bytes", n, steps, 8 * N);
    let mut made = 0i64;
    let mut gone = 0i64;
    for step in 0..steps {
        let i = c.rng.below(n);
        let k = Slice::from_buf(&keys[i]);
        let op = c.rng.below(12);
        c.mix(op as u64 ^ (i as u64) << 8);
        let old = model.get(&i).copied();
        match op {
            0..=4 => {
                made += 1;
                let charge = if c.rng.chance(1, 3) { 0 } else { c.rng.below(50) };
                err(cache.insert(&k, Sized_::new(made as u64), charge), "insert")?;
                model.insert(i, made as u64);
            }
            5..=7 => {
                err(cache.erase(&k), "erase")?;
                c.ev("erases of a present key", model.remove(&i).is_some() as u64);
            }
            8 if c.rng.chance(1, 4) => {
                err(cache.prune(), "prune")?;
                model.clear();
            }
            9 if !held.is_empty() => {
                let x = c.rng.below(held.len());
                held.swap_remove(x);
            }
            _ => match (err(cache.lookup(&k), "lookup")?, old) {
                (Some(v), Some(x)) => {
                    ensure!(v.is(x), "key {} holds another value of {} bytes", i, 8 * N);
                    held.push((v, x, false));
                }
                (None, None) => {}
                (g, w) => return Err(format!("operation {} (number {}): a value of {} bytes was found: {}, expected: {}", op, step, 8 * N, g.is_some(), w.is_some())),
            },
        }
        let mut want: BTreeSet<u64> = model.values().copied().collect();
        for (v, x, seen) in held.iter_mut() {
            ensure!(v.is(*x), "a held value of {} bytes was released or overwritten", 8 * N);
            if want.insert(*x) && !*seen {
                *seen = true;
                c.nontrivial = true;
                c.ev("values held across removal", 1);
            }
        }
        ensure!(alive() - start == want.len() as i64, "after operation {} (number {}) {} values of {} bytes are alive, {} are cached or held", op, step, alive() - start, 8 * N, want.len());
        gone = made - want.len() as i64;
    }
    c.ev("drops", gone as u64);
    if c.rng.chance(1, 2) {
        drop(cache);
        let want: BTreeSet<u64> = held.iter().map(|h| h.1).collect();
        ensure!(alive() - start == want.len() as i64, "{} values of {} bytes are alive after the cache was dropped, {} are held", alive() - start, 8 * N, want.len());
        ensure!(held.iter().all(|h| h.0.is(h.1)), "a held value of {} bytes was overwritten when the cache was dropped", 8 * N);
        drop(held);
    } else {
        drop(held);
        drop(cache);
    }
    ensure!(alive() == start, "{} values of {} bytes are alive at the end", alive() - start, 8 * N);
    Ok(())
}

fn ensure_sound(v: &Tracked) -> R {
    ensure!(v.sound(), "a value handed out by the cache was released or overwritten (id reads {})", v.id);
    Ok(())
}

fn c12_memory(c: &mut Ctx) -> R {
    let n = c.rng.range(1, c.by(30, 600, 4000));
    let base = live_bytes();
    let peak;
    {
        let capacity = if c.rng.chance(1, 2) { 32 * c.rng.range(1, 200) } else { 1 << 50 };
        let mut cache: ShardLRUCache<Vec<u8>> = if c.scale > 0 && c.rng.chance(1, 4) {
            c.ev("tables of more than 8192 slots", 1);
            ShardLRUCache::new_with_capacity(capacity, 1 << c.rng.range(19, 20))
        } else {
            big_cache(c, capacity)
        };
        for i in 0..n {
            let len = c.rng.below(40);
            let k = Slice::from_buf(format!("{}", c.rng.below(n)).as_bytes());
            err(cache.insert(&k, vec![1; len], len), "insert")?;
            if i % 9 == 0 {
                err(cache.erase(&Slice::from_buf(format!("{}", c.rng.below(n)).as_bytes())), "erase")?;
            }
            if i % 97 == 96 && c.rng.chance(1, 2) {
                err(cache.prune(), "prune")?;
            }
        }
        peak = live_bytes();
    }
    let now = live_bytes();
    c.fp = n as u64 ^ (peak as u64) << 20;
    c.nontrivial = true;
    c.sample = format!("{} inserts, {} bytes at the end", n, peak - base);
    c.ev("bytes returned", peak.saturating_sub(now) as u64);
    ensure!(now <= base + 2048, "{} of {} bytes are still allocated after the cache was dropped", now - base, peak - base);
    Ok(())
}

/// However long a cache is used, its memory is bounded by what it retains at its fullest.
fn c12_churn(c: &mut Ctx) -> R {
    let way = ["erasing", "evicting", "replacing", "pruning", "all of them"][c.case as usize % 5];
    let one_shard = c.rng.chance(1, 2);
    let people = c.rng.range(1, if one_shard { 200 } else { 20 });
    let early = c.by(300, 4000, 8000);
    let late = early * c.by(2, 25, 100);
    let top = c.rng.u32() & 0xf800_0000;
    // charge 1 each: the share is what bounds the population when entries are evicted
    let capacity = if way == "evicting" || way == "all of them" { 32 * people } else { 1 << 40 };
    let mut cache: ShardLRUCache<u64> = big_cache(c, capacity);
    c.fp = c.rng.clone().next();
    c.nontrivial = true;
    c.sample = format!("{} inserts by {} at a population of {}", late, way, people);
    let base = live_bytes();
    let mut at_early = 0;
    let mut fresh: Vec<Vec<u8>> = vec![];
    for i in 0..late {
        let n = (c.rng.u32() as u64) << 20 | i as u64;
        let way = if way == "all of them" { ["erasing", "evicting", "replacing", "pruning"][i / 500 % 4] } else { way };
        let key = if way == "replacing" {
            key_with_hash(top | (i % people) as u32, 7)
        } else if one_shard {
            key_with_hash(top | (n as u32 & 0x07ff_ffff), (n >> 20) as u32)
        } else {
            n.to_le_bytes().to_vec()
        };
        err(cache.insert(&Slice::from_buf(&key), n, 1), "insert")?;
        c.ev("inserts", 1);
        match way {
            "erasing" => {
                fresh.push(key);
                if fresh.len() >= people {
                    for k in fresh.drain(..) {
                        err(cache.erase(&Slice::from_buf(&k)), "erase")?;
                    }
                    c.ev("rounds by erasing", 1);
                }
            }
            "pruning" => {
                if i % people == people - 1 {
                    err(cache.prune(), "prune")?;
                    c.ev("rounds by pruning", 1);
                }
            }
            "evicting" => c.ev("rounds by evicting", (i % people == 0) as u64),
            _ => c.ev("rounds by replacing", (i % people == 0) as u64),
        }
        if i + 1 == early {
            at_early = live_bytes();
        }
    }
    let end = live_bytes();
    // room for one more doubling of every table
    let slack = (at_early - base) + 32768;
    ensure!(end <= at_early + slack, "{} bytes were in use after {} inserts, {} after {}, though never more than a few of {} entries were retained at a time (by {})", at_early - base, early, end - base, late, people, way);
    Ok(())
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug)]
struct Event {
    key: usize,
    call: u64,
    ret: u64,
    thread: usize,
    /// true: insert of `value`; false: lookup that saw it (0 = nothing)
    write: bool,
    value: u64,
}

/// Linearizability of one register with distinct written values (Gibbons and Korach): clusters of a
/// write and its reads, as zones on the time line. Value 0 is the initial state.
fn register_ok(events: &[Event]) -> R {
    struct Zone {
        value: u64,
        min_ret: u64,
        max_call: u64,
    }
    let mut by: BTreeMap<u64, Vec<&Event>> = BTreeMap::new();
    for e in events {
        by.entry(e.value).or_default().push(e);
    }
    let mut fwd: Vec<Zone> = vec![];
    let mut bwd: Vec<Zone> = vec![];
    for (value, ops) in &by {
        let write = ops.iter().find(|e| e.write);
        let (mut min_ret, mut max_call) = (u64::MAX, 0);
        if *value == 0 {
            min_ret = 0; // the initial state was written before everything
        }
        for e in ops {
            min_ret = min_ret.min(e.ret);
            max_call = max_call.max(e.call);
        }
        if *value != 0 {
            let w = match write {
                Some(w) => w,
                None => return Err(format!("a lookup saw value {} that was never inserted under its key: {:?}", value, ops[0])),
            };
            for e in ops.iter().filter(|e| !e.write) {
                ensure!(e.ret > w.call, "a lookup saw value {} before its insert was called: {:?}, insert {:?}", value, e, w);
            }
        }
        let z = Zone { value: *value, min_ret, max_call };
        if min_ret < max_call {
            fwd.push(z)
        } else {
            bwd.push(z)
        }
    }
    let history = |a: u64, b: u64| -> String {
        events.iter().filter(|e| e.value == a || e.value == b).take(30).map(|e| format!("[t{} {} {} {}..{}]", e.thread, if e.write { "insert" } else { "lookup" }, e.value, e.call, e.ret)).collect::<Vec<_>>().join(" ")
    };
    fwd.sort_by_key(|z| z.min_ret);
    for w in fwd.windows(2) {
        ensure!(w[0].max_call < w[1].min_ret, "no order explains the history: values {} and {} are each seen around the other: {}", w[0].value, w[1].value, history(w[0].value, w[1].value));
    }
    for b in &bwd {
        // the last forward zone that starts before it
        let i = fwd.partition_point(|z| z.min_ret < b.max_call);
        if i > 0 {
            let z = &fwd[i - 1];
            ensure!(b.min_ret > z.max_call, "no order explains the history: value {} lies inside the time value {} is known to be current: {}", b.value, z.value, history(b.value, z.value));
        }
    }
    Ok(())
}

/// what holds with eviction: no value from the future, none that was already overwritten
fn no_stale(events: &[Event]) -> R {
    let writes: HashMap<u64, &Event> = events.iter().filter(|e| e.write).map(|e| (e.value, e)).collect();
    // latest call among writes that returned by a time: sort by return
    let mut done: Vec<(u64, u64)> = writes.values().map(|w| (w.ret, w.call)).collect();
    done.sort();
    let mut best = 0;
    let prefix: Vec<(u64, u64)> = done
        .iter()
        .map(|(r, c)| {
            best = best.max(*c);
            (*r, best)
        })
        .collect();
    for e in events.iter().filter(|e| !e.write && e.value != 0) {
        let w = match writes.get(&e.value) {
            Some(w) => w,
            None => return Err(format!("a lookup saw value {} that was never inserted under its key: {:?}", e.value, e)),
        };
        ensure!(e.ret > w.call, "a lookup saw value {} before its insert was called", e.value);
        let i = prefix.partition_point(|p| p.0 < e.call);
        if i > 0 {
            ensure!(prefix[i - 1].1 <= w.ret, "a lookup saw value {} although a later insert had already replaced it: {:?}, insert {:?}", e.value, e, w);
        }
    }
    Ok(())
}

fn join_all(hs: Vec<std::thread::JoinHandle<Result<Vec<Event>, String>>>) -> Result<Vec<Event>, String> {
    let mut all = vec![];
    let mut first = None;
    for h in hs {
        match h.join() {
            Ok(Ok(v)) => all.extend(v),
            Ok(Err(m)) => first = first.or(Some(m)),
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    match first {
        Some(m) => Err(m),
        None => Ok(all),
    }
}

struct Shared {
    cache: ShardLRUCache<Tracked>,
    keys: Vec<Slice>,
    clock: AtomicU64,
    start: Barrier,
    stop: AtomicBool,
}

fn concurrent_keys(c: &mut Ctx, n: usize) -> Vec<Slice> {
    let h = c.rng.u32();
    (0..n)
        .map(|i| {
            let hash = match c.rng.below(3) {
                0 => h,
                1 => h ^ 0x100,
                _ => c.rng.u32(),
            };
            Slice::from_buf(&key_with_hash(hash, 1000 + i as u32))
        })
        .collect()
}

fn worker(sh: Arc<Shared>, home: Arc<Tracker>, t: usize, ops: usize, mut rng: Rng, writes: usize, charge: usize) -> std::thread::JoinHandle<Result<Vec<Event>, String>> {
    std::thread::spawn(move || {
        let mut log = Vec::with_capacity(ops);
        sh.start.wait();
        for i in 0..ops {
            let key = rng.below(sh.keys.len());
            if rng.chance(1, 40) {
                std::thread::yield_now();
            }
            if rng.below(100) < writes {
                let value = ((t as u64 + 1) << 32) | (i as u64 + 1);
                let v = Tracked::new(value, &home);
                let call = sh.clock.fetch_add(1, Ordering::SeqCst);
                let r = sh.cache.insert(&sh.keys[key], v, charge);
                let ret = sh.clock.fetch_add(1, Ordering::SeqCst);
                err(r, "insert")?;
                log.push(Event { key, call, ret, thread: t, write: true, value });
            } else {
                let call = sh.clock.fetch_add(1, Ordering::SeqCst);
                let r = sh.cache.lookup(&sh.keys[key]);
                let ret = sh.clock.fetch_add(1, Ordering::SeqCst);
                let value = match err(r, "lookup")? {
                    Some(v) => {
                        ensure_sound(&v)?;
                        v.id
                    }
                    None => 0,
                };
                log.push(Event { key, call, ret, thread: t, write: false, value });
            }
        }
        Ok(log)
    })
}

/// total_charge is watched while the workers run
fn watcher(sh: Arc<Shared>, limit: u128, exact: Option<usize>) -> std::thread::JoinHandle<Result<Vec<Event>, String>> {
    std::thread::spawn(move || {
        let mut n = 0u64;
        let mut seen_full = false;
        let mut slots = err(sh.cache.slots(), "slots")?;
        sh.start.wait();
        while !sh.stop.load(Ordering::SeqCst) {
            let t = err(sh.cache.total_charge(), "total_charge")?;
            n += 1;
            ensure!(t as u128 <= limit, "a concurrent total_charge is {}, over the limit {}", t, limit);
            if let Some(x) = exact {
                // one key of constant charge: once present it never leaves
                ensure!(t == x || (t == 0 && !seen_full), "a concurrent total_charge is {} while the only key has charge {}", t, x);
                seen_full |= t == x;
                // nothing is taken out, and tables do not shrink
                let now = err(sh.cache.slots(), "slots")?;
                ensure!(now >= slots, "a concurrent slots() is {} after {}, and nothing was taken out of the cache", now, slots);
                slots = now;
            }
            if n % 64 == 0 {
                std::thread::yield_now();
            }
        }
        Ok(vec![Event { key: usize::MAX, call: n, ret: n, thread: 0, write: false, value: 0 }])
    })
}

fn overlap_stats(c: &mut Ctx, events: &[Event]) {
    let mut sorted: Vec<&Event> = events.iter().collect();
    sorted.sort_by_key(|e| e.call);
    let mut end: HashMap<usize, (u64, usize)> = HashMap::new();
    let mut over = 0;
    let mut print = 0u64;
    for e in &sorted {
        if let Some((r, t)) = end.get(&e.key) {
            if *r > e.call && *t != e.thread {
                over += 1;
                print = mix64(print ^ (e.thread as u64) ^ (e.value << 8));
            }
        }
        let x = end.entry(e.key).or_insert((0, 0));
        if e.ret > x.0 {
            *x = (e.ret, e.thread);
        }
    }
    let foreign = events.iter().filter(|e| !e.write && e.value != 0 && (e.value >> 32) as usize != e.thread + 1).count();
    c.ev("overlapping operations on one key", over);
    c.ev("lookups that saw another thread's value", foreign as u64);
    c.ev("operations", events.len() as u64);
    if over > 0 {
        c.nontrivial = true;
    }
    c.mix(print);
}

fn c13_history(c: &mut Ctx) -> R {
    let threads = c.rng.range(2, c.by(3, 8, 8));
    let nkeys = c.rng.range(1, 4);
    let ops = c.by(20, 300, 500);
    let home = Tracker::new();
    let charge = c.rng.range(1, 50);
    let keys = concurrent_keys(c, nkeys);
    let sh = Arc::new(Shared { cache: big_cache(c, 1 << 50), keys, clock: AtomicU64::new(1), start: Barrier::new(threads + 1), stop: AtomicBool::new(false) });
    let writes = *c.rng.pick(&[10usize, 30, 50, 80]);
    c.sample = format!("{} threads, {} keys, {}% inserts", threads, nkeys, writes);
    let hs: Vec<_> = (0..threads).map(|t| worker(sh.clone(), home.clone(), t, ops, Rng::new(c.rng.next()), writes, charge)).collect();
    let w = watcher(sh.clone(), (nkeys * charge) as u128, if nkeys == 1 { Some(charge) } else { None });
    let events = join_all(hs);
    sh.stop.store(true, Ordering::SeqCst);
    let watched = join_all(vec![w])?;
    c.ev("charge observations", watched.iter().map(|e| e.call).sum());
    let mut events = events?;
    overlap_stats(c, &events);
    // quiescent reads end every key's history
    for (j, k) in sh.keys.iter().enumerate() {
        let call = sh.clock.fetch_add(1, Ordering::SeqCst);
        let v = err(sh.cache.lookup(k), "lookup")?;
        let ret = sh.clock.fetch_add(1, Ordering::SeqCst);
        events.push(Event { key: j, call, ret, thread: 99, write: false, value: v.map(|v| v.id).unwrap_or(0) });
    }
    let mut present = 0;
    for j in 0..nkeys {
        let h: Vec<Event> = events.iter().filter(|e| e.key == j).cloned().collect();
        register_ok(&h)?;
        present += h.iter().any(|e| e.write) as usize;
    }
    let t = err(sh.cache.total_charge(), "total_charge")?;
    ensure!(t == present * charge, "total charge {} after the threads ended, {} keys of charge {} are present", t, present, charge);
    let live = home.live.load(Ordering::SeqCst);
    ensure!(live == present as i64, "{} values are alive after the threads ended, {} are cached", live, present);
    drop(sh);
    let (made, drops) = (home.made.load(Ordering::SeqCst), home.drops.load(Ordering::SeqCst));
    ensure!(made == drops && !home.twice.load(Ordering::SeqCst), "{} values made, {} dropped", made, drops);
    Ok(())
}

fn c13_evict(c: &mut Ctx) -> R {
    let threads = c.rng.range(2, c.by(3, 8, 8));
    let nkeys = c.rng.range(4, c.by(12, 120, 200));
    let ops = c.by(20, 300, 600);
    let home = Tracker::new();
    let per = c.rng.range(2, 10);
    let capacity = 32 * per;
    let top = c.rng.u32() & 0xf800_0000;
    let one = c.rng.chance(1, 2);
    let keys: Vec<Slice> = (0..nkeys)
        .map(|i| {
            let h = if one { top | (c.rng.u32() & 0x07ff_ffff) } else { c.rng.u32() };
            Slice::from_buf(&key_with_hash(h, i as u32))
        })
        .collect();
    let sh = Arc::new(Shared { cache: big_cache(c, capacity), keys, clock: AtomicU64::new(1), start: Barrier::new(threads + 1), stop: AtomicBool::new(false) });
    c.sample = format!("{} threads, {} keys, capacity {}", threads, nkeys, capacity);
    let hs: Vec<_> = (0..threads).map(|t| worker(sh.clone(), home.clone(), t, ops, Rng::new(c.rng.next()), 60, 1)).collect();
    let w = watcher(sh.clone(), 32 * share(capacity), None);
    let events = join_all(hs);
    sh.stop.store(true, Ordering::SeqCst);
    let watched = join_all(vec![w])?;
    c.ev("charge observations", watched.iter().map(|e| e.call).sum());
    let events = events?;
    overlap_stats(c, &events);
    let mut present = 0;
    let mut written = 0;
    for (j, k) in sh.keys.iter().enumerate() {
        let mut h: Vec<Event> = events.iter().filter(|e| e.key == j).cloned().collect();
        written += h.iter().any(|e| e.write) as usize;
        let call = sh.clock.fetch_add(1, Ordering::SeqCst);
        let v = err(sh.cache.lookup(k), "lookup")?;
        let ret = sh.clock.fetch_add(1, Ordering::SeqCst);
        if let Some(v) = v {
            present += 1;
            h.push(Event { key: j, call, ret, thread: 99, write: false, value: v.id });
        }
        no_stale(&h)?;
    }
    c.ev("evictions", (written - present) as u64);
    c.nontrivial = written > present;
    let t = err(sh.cache.total_charge(), "total_charge")?;
    ensure!(t == present, "total charge {} after the threads ended, {} keys of charge 1 are present", t, present);
    let live = home.live.load(Ordering::SeqCst);
    ensure!(live == present as i64, "{} values are alive after the threads ended, {} are cached", live, present);
    drop(sh);
    let (made, drops) = (home.made.load(Ordering::SeqCst), home.drops.load(Ordering::SeqCst));
    ensure!(made == drops && !home.twice.load(Ordering::SeqCst), "{} values made, {} dropped", made, drops);
    Ok(())
}

struct Plain {
    key: u64,
    tag: u64,
    sum: u64,
}

fn c13_stress(c: &mut Ctx) -> R {
    let threads = c.rng.range(3, c.by(3, 8, 8));
    let nkeys = c.rng.range(1, 60);
    let ops = c.by(30, 2000, 6000);
    let capacity = *c.rng.pick(&[32usize * 3, 32 * 40, 1 << 40]);
    let cache: Arc<ShardLRUCache<Plain>> = ShardLRUCache::new_arc_with_capacity(capacity, 1);
    let base = c.rng.u32();
    let narrow = c.rng.chance(1, 2);
    let keys: Arc<Vec<Slice>> = Arc::new((0..nkeys).map(|i| Slice::from_buf(&key_with_hash(if narrow { base ^ (i as u32 % 3) } else { base.wrapping_mul(i as u32 + 1) }, i as u32))).collect());
    c.fp = c.rng.clone().next();
    c.nontrivial = true;
    c.sample = format!("{} threads, {} keys, {} operations each", threads, nkeys, ops);
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (cache, keys, mut rng) = (cache.clone(), keys.clone(), Rng::new(c.rng.next()));
            std::thread::spawn(move || -> Result<Vec<Event>, String> {
                // per key the newest of this thread's own tags it has seen or written
                let mut own: Vec<u64> = vec![0; keys.len()];
                let mut seen: HashMap<(usize, u64), u64> = HashMap::new();
                let mut last: Option<Arc<Plain>> = None;
                for i in 0..ops {
                    let j = rng.below(keys.len());
                    match rng.below(8) {
                        0..=2 => {
                            let tag = ((t as u64 + 1) << 32) | (i as u64 + 1);
                            err(cache.insert(&keys[j], Plain { key: j as u64, tag, sum: mix64(j as u64 ^ tag) }, 1), "insert")?;
                            own[j] = tag;
                        }
                        3 => {
                            err(cache.total_charge(), "total_charge")?;
                            err(cache.slots(), "slots")?;
                        }
                        _ => {
                            if let Some(v) = err(cache.lookup(&keys[j]), "lookup")? {
                                ensure!(v.key == j as u64 && v.sum == mix64(v.key ^ v.tag), "lookup of key {} gave a foreign or torn value {}/{}", j, v.key, v.tag);
                                let writer = v.tag >> 32;
                                if writer == t as u64 + 1 {
                                    ensure!(v.tag == own[j], "thread {} reads its own older value {} of key {} after writing {}", t, v.tag & 0xffff_ffff, j, own[j] & 0xffff_ffff);
                                }
                                // one writer's values of a key become visible in order
                                let e = seen.entry((j, writer)).or_insert(0);
                                ensure!(v.tag >= *e, "key {}: value {:x} is seen after {:x} of the same writer", j, v.tag, *e);
                                *e = v.tag;
                                last = Some(v);
                            }
                        }
                    }
                }
                if let Some(v) = last {
                    ensure!(v.sum == mix64(v.key ^ v.tag), "a held value was overwritten");
                }
                Ok(vec![])
            })
        })
        .collect();
    join_all(hs)?;
    c.ev("operations", (threads * ops) as u64);
    Ok(())
}
