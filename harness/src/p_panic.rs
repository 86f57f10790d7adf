//! C36: panics inside the code the library calls (destructors of values, comparators).

use crate::kit::*;
use crate::refs;
use level_db_rust::db::skip_list::SkipList;
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::traits::DataIterator;
use level_db_rust::util::arena::Arena;
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use std::cell::Cell;
use std::cmp::Ordering as Ord3;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C36", name: "c36_cache", rule: "cache histories in which the destructors of some values panic under the call that removes them, on the caller's or another thread; afterwards every answer is a refusal or the right one, other shards are untouched, and no value dies twice up to the end of the cache; non-trivial: a destructor panicked", run: c36_cache, cases: (12, 800, 10000), must_see: &["panics in erase", "panics in a replacing insert", "panics in an evicting insert", "panics in prune", "panics in the drop of the cache", "answers after a panic", "panics on other threads"] },
        Suite { prop: "C36", name: "c36_list", rule: "skip list inserts and lookups under a comparator that panics at some comparison, the list compared with its model after each; non-trivial: an insert was interrupted", run: c36_list, cases: (8, 500, 6000), must_see: &["interrupted inserts", "interrupted lookups", "inserts repeated after a panic"] },
        Suite { prop: "C36", name: "c36_linked", rule: "linked lists whose elements panic when dropped or read through a closure of the caller; non-trivial: an element panicked", run: c36_linked, cases: (8, 300, 3000), must_see: &["panicking elements"] },
    ]
}

struct Fuse {
    /// numbers of the values that panic when they are dropped
    armed: Mutex<BTreeSet<usize>>,
    /// how often each value was dropped
    drops: Vec<AtomicU32>,
    went_off: AtomicUsize,
}

struct Bomb {
    id: usize,
    body: Vec<u8>,
    fuse: Arc<Fuse>,
}

fn body(id: usize) -> Vec<u8> {
    (0..id % 40 + 1).map(|i| (id * 31 + i * 7) as u8).collect()
}

impl Drop for Bomb {
    fn drop(&mut self) {
        // a value destroyed twice has no body left to compare: count first
        self.fuse.drops[self.id].fetch_add(1, Ordering::SeqCst);
        if !std::thread::panicking() && self.fuse.armed.lock().map_or(false, |mut a| a.remove(&self.id)) {
            self.fuse.went_off.fetch_add(1, Ordering::SeqCst);
            panic!("destructor of value {}", self.id);
        }
    }
}

fn fuse(n: usize, armed: BTreeSet<usize>) -> Arc<Fuse> {
    Arc::new(Fuse { armed: Mutex::new(armed), drops: (0..n).map(|_| AtomicU32::new(0)).collect(), went_off: AtomicUsize::new(0) })
}

impl Fuse {
    fn check(&self) -> R {
        for (i, d) in self.drops.iter().enumerate() {
            let d = d.load(Ordering::SeqCst);
            ensure!(d <= 1, "value {} was destroyed {} times", i, d);
        }
        Ok(())
    }
}

fn c36_cache(c: &mut Ctx) -> R {
    let keys: Vec<Slice> = {
        // a few shards, several keys in each
        let shards = c.rng.range(1, 4);
        let mut v: BTreeMap<u32, Vec<Vec<u8>>> = BTreeMap::new();
        let base = c.rng.u32();
        let mut i = 0u32;
        while v.values().map(|x| x.len()).sum::<usize>() < shards * 3 {
            let k = format!("k{}", base.wrapping_add(i));
            i += 1;
            let s = refs::ldb_hash(k.as_bytes(), 0) >> 27;
            let n = v.len();
            match v.get_mut(&s) {
                Some(l) if l.len() < 3 => l.push(k.into_bytes()),
                None if n < shards => {
                    v.insert(s, vec![k.into_bytes()]);
                }
                _ => {}
            }
        }
        v.into_values().flatten().map(|k| Slice::from_vec(k)).collect()
    };
    let shard = |k: &Slice| refs::ldb_hash(k.as_ref(), 0) >> 27;
    let steps = c.rng.range(3, c.by(14, 60, 150));
    let armed: BTreeSet<usize> = (0..c.rng.range(1, 4)).map(|_| c.rng.below(steps)).collect();
    let f = fuse(steps, armed.clone());
    // three entries of charge 10 fit into a share, or all
    let tight = c.rng.chance(1, 2);
    let mut cache: ShardLRUCache<Bomb> = ShardLRUCache::new_with_capacity(if tight { 32 * 25 } else { 1 << 20 }, 512);
    let mut last: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut erased: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut hurt: BTreeSet<u32> = BTreeSet::new();
    let mut held: Vec<(usize, Arc<Bomb>)> = vec![];
    let mut trace = vec![];
    let mut pruned_halfway = false;
    for id in 0..steps {
        let k = keys[c.rng.below(keys.len())].clone();
        let kb: Vec<u8> = { let b: &[u8] = k.as_ref(); b.to_vec() };
        let rare = if c.rng.chance(1, 4) { 3 } else { 2 };
        let op = *c.rng.pick(&[0u8, 0, 0, 0, 1, 1, 2, 2, 2, rare]);
        c.mix(op as u64 ^ hash_bytes(&kb));
        let away = c.rng.chance(1, 3) && !cfg!(miri);
        let before = f.went_off.load(Ordering::SeqCst);
        let had = last.contains_key(&kb);
        let mut value = (op == 0).then(|| Bomb { id, body: body(id), fuse: f.clone() });
        let cr = &mut cache;
        let kr = &k;
        let run = move || -> Result<level_db_rust::util::Result<Option<Arc<Bomb>>>, String> {
            no_panic(move || match op {
                0 => cr.insert(kr, value.take().expect("a value"), 10).map(|_| None),
                1 => cr.erase(kr).map(|_| None),
                2 => cr.lookup(kr),
                _ => cr.prune().map(|_| None),
            })
        };
        let r = if away {
            std::thread::scope(|s| s.spawn(run).join().expect("panics are caught inside"))
        } else {
            run()
        };
        let off = f.went_off.load(Ordering::SeqCst) > before;
        trace.push(format!("{}{}{}", ["insert ", "erase ", "lookup ", "prune "][op as usize], String::from_utf8_lossy(&kb), if off { " (panicked)" } else { "" }));
        let t = || trace.join(", ");
        f.check().map_err(|e| format!("{} after {}", e, t()))?;
        let s = shard(&k);
        let was_hurt = hurt.contains(&s);
        let r = match r {
            Err(m) => {
                ensure!(off, "a call panicked by itself: {} after {}", m, t());
                if away {
                    c.ev("panics on other threads", 1);
                }
                match op {
                    0 if had && !tight => c.ev("panics in a replacing insert", 1),
                    0 => c.ev("panics in an evicting insert", 1),
                    1 => c.ev("panics in erase", 1),
                    _ => c.ev("panics in prune", 1),
                }
                // what the interrupted call was to do may be done or not
                match op {
                    0 => {
                        last.insert(kb.clone(), id);
                        erased.insert(kb);
                        hurt.insert(s);
                    }
                    1 => {
                        erased.insert(kb);
                        hurt.insert(s);
                    }
                    _ => {
                        pruned_halfway = true;
                        // the shard it stopped in is that of the value; without its key all have to count
                        hurt.extend(keys.iter().map(|k| shard(k)));
                    }
                }
                continue;
            }
            Ok(r) => r,
        };
        match r {
            Err(e) => {
                let hit = if op == 3 { !hurt.is_empty() } else { was_hurt };
                ensure!(hit, "{} is refused although no destructor panicked in its shard: {} after {}", ["insert", "erase", "lookup", "prune"][op as usize], e.to_string(), t());
                c.ev("refused calls", 1);
                if op == 3 {
                    pruned_halfway = true;
                }
            }
            Ok(v) => {
                if was_hurt {
                    c.ev("answers after a panic", 1);
                } else if !hurt.is_empty() {
                    c.ev("answers after a panic", 1);
                }
                match op {
                    0 => {
                        last.insert(kb.clone(), id);
                        erased.remove(&kb);
                    }
                    1 => {
                        last.remove(&kb);
                    }
                    2 => match v {
                        Some(b) => {
                            let want = last.get(&kb).copied();
                            ensure!(want == Some(b.id), "lookup gives value {}, expected {:?} after {}", b.id, want, t());
                            ensure!(b.body == body(b.id), "value {} is damaged after {}", b.id, t());
                            ensure!(f.drops[b.id].load(Ordering::SeqCst) == 0, "lookup gives value {}, which was destroyed, after {}", b.id, t());
                            if c.rng.chance(1, 6) {
                                held.push((b.id, b));
                            } else {
                                let _ = no_panic(move || drop(b));
                            }
                        }
                        None => {
                            let may = tight || was_hurt || pruned_halfway || erased.contains(&kb) || !last.contains_key(&kb);
                            ensure!(may, "lookup gives nothing, expected value {} after {}", last[&kb], t());
                        }
                    },
                    _ => last.clear(),
                }
            }
        }
        for (id, b) in &held {
            ensure!(b.body == body(*id) && f.drops[*id].load(Ordering::SeqCst) == 0, "value {}, held by the caller, was destroyed after {}", id, t());
        }
        f.check()?;
    }
    let n = f.went_off.load(Ordering::SeqCst);
    c.nontrivial = n > 0;
    // the end of the cache, and of what the caller still holds
    let r = no_panic(move || drop(cache));
    if r.is_err() {
        c.ev("panics in the drop of the cache", 1);
        ensure!(f.went_off.load(Ordering::SeqCst) > n, "dropping the cache panicked by itself: {:?}", r);
    }
    c.sample = format!("{} values, panicking {:?}: {}", steps, armed, trace.iter().take(12).cloned().collect::<Vec<_>>().join(", "));
    for (id, b) in &held {
        ensure!(b.body == body(*id) && f.drops[*id].load(Ordering::SeqCst) == 0, "value {}, held by the caller, died with the cache", id);
    }
    for (_, b) in held {
        let _ = no_panic(move || drop(b));
    }
    f.check().map_err(|e| format!("{} by the end of the cache, after {}", e, trace.join(", ")))
}

/// bytewise, but it panics when its count runs out
struct Breaks {
    left: Cell<u64>,
}

impl Comparator for Breaks {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ord3> {
        let n = self.left.get();
        if n == 0 {
            self.left.set(u64::MAX);
            panic!("the comparator gives up");
        }
        self.left.set(n - 1);
        Some(a.cmp(b))
    }
    fn get_name(&self) -> String {
        "verif.breaks".into()
    }
    fn find_shortest_separator(&self, start: &String, _limit: &Slice) -> String {
        start.clone()
    }
    fn find_short_successor(&self, key: &String) -> String {
        key.clone()
    }
}

fn c36_list(c: &mut Ctx) -> R {
    let n = c.rng.range(2, c.by(12, 60, 150));
    let cmp = Arc::new(Breaks { left: Cell::new(u64::MAX) });
    let arena = Arc::new(Mutex::new(Arena::default()));
    let mut list = SkipList::create(cmp.clone(), arena.clone());
    let mut model: BTreeSet<Vec<u8>> = BTreeSet::new();
    let pool = n as u64 * 2;
    for _ in 0..n {
        let k = format!("key{:03}", c.rng.next() % pool).into_bytes();
        c.mix(hash_bytes(&k));
        let us = UnsafeSlice::new_with_arena(&k, arena.clone()).map_err(|e| format!("new_with_arena: {}", e.to_string()))?;
        if c.rng.chance(1, 2) {
            cmp.left.set(c.rng.below(8 + model.len() * 2) as u64);
        }
        let r = no_panic(|| list.insert(us));
        cmp.left.set(u64::MAX);
        match r {
            Ok(r) => {
                r.map_err(|e| format!("insert: {}", e.to_string()))?;
                model.insert(k.clone());
            }
            Err(m) => {
                ensure!(m.contains("gives up"), "insert panicked by itself: {}", m);
                c.ev("interrupted inserts", 1);
                c.nontrivial = true;
                let there = list.contains(&k);
                if there {
                    model.insert(k.clone());
                }
                if c.rng.chance(1, 3) {
                    c.ev("inserts repeated after a panic", 1);
                    let us = UnsafeSlice::new_with_arena(&k, arena.clone()).map_err(|e| format!("new_with_arena: {}", e.to_string()))?;
                    list.insert(us).map_err(|e| format!("insert: {}", e.to_string()))?;
                    model.insert(k.clone());
                }
            }
        }
        if c.rng.chance(1, 4) {
            cmp.left.set(c.rng.below(6) as u64);
            let want = model.contains(&k);
            match no_panic(|| list.contains(&k)) {
                Ok(got) => ensure!(got == want, "contains({}) is {}", hex(&k), got),
                Err(m) => {
                    ensure!(m.contains("gives up"), "contains panicked by itself: {}", m);
                    c.ev("interrupted lookups", 1);
                }
            }
            cmp.left.set(u64::MAX);
        }
        ensure!(list.len() == model.len(), "len() is {} with {} keys in the list after an interrupted call", list.len(), model.len());
        let mut it = list.iter();
        it.seek_to_first();
        let mut got: Vec<Vec<u8>> = vec![];
        while it.valid() {
            let k = it.key();
            got.push(k.as_ref().to_vec());
            ensure!(got.len() <= model.len(), "the list of {} keys goes on after {}", model.len(), hex(k.as_ref()));
            DataIterator::next(&mut it);
        }
        let want: Vec<Vec<u8>> = model.iter().cloned().collect();
        ensure!(got == want, "the list holds {} keys, expected {}, after an interrupted call", got.len(), want.len());
        for k in &model {
            ensure!(list.contains(k), "contains({}) is false after an interrupted call", hex(k));
        }
    }
    c.sample = format!("{} inserts, {} keys", n, model.len());
    Ok(())
}

fn c36_linked(c: &mut Ctx) -> R {
    let n = c.rng.range(1, c.by(8, 30, 100));
    let armed: BTreeSet<usize> = (0..c.rng.below(3)).map(|_| c.rng.below(n)).collect();
    let f = fuse(n, armed.clone());
    c.fp = mix64(n as u64) ^ armed.iter().fold(0, |a, i| mix64(a ^ *i as u64));
    let mut l: LinkedList<Bomb> = LinkedList::new();
    for id in 0..n {
        let b = Bomb { id, body: body(id), fuse: f.clone() };
        if c.rng.chance(1, 2) {
            l.push(b);
        } else {
            l.add_last(b);
        }
    }
    for i in 0..n {
        match l.get(i) {
            Ok(Some(b)) => ensure!(b.body == body(b.id), "element {} is damaged", b.id),
            _ => return Err(format!("element {} of {} is missing", i, n)),
        }
    }
    let r = no_panic(move || drop(l));
    let off = f.went_off.load(Ordering::SeqCst);
    ensure!(r.is_err() == (off > 0), "dropping the list: {:?} with {} panicking elements", r, off);
    c.ev("panicking elements", off as u64);
    c.nontrivial = off > 0;
    c.sample = format!("{} elements, panicking {:?}", n, armed);
    f.check()?;
    if off == 0 {
        ensure!(f.drops.iter().all(|d| d.load(Ordering::SeqCst) == 1), "an element was not dropped with its list");
    }
    Ok(())
}
