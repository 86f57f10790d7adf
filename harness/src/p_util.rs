//! C07 CRC, C08/C09 coding, C20 slices, C21/C22 comparator, C23 hash, C24/C25 bloom filter.

use crate::kit::*;
use crate::refs;
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::traits::filter_policy_trait::FilterPolicy;
use level_db_rust::util::coding::{varint_length, Decoder, Encoder};
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::crc::{AsCrc, ToMask, CRC};
use level_db_rust::util::filter_policy::{AsBloomHash, FromPolicy};
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::hash::{Hash, ToHash};
use level_db_rust::util::slice::Slice;
use std::cmp::Ordering;
use std::collections::HashSet;
use std::mem::size_of;

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C07", name: "c07_any", rule: "random data of edge and random lengths at every alignment, extended whole, from any initial value and over random splits, against a bit-at-a-time CRC; non-trivial: 4 bytes or more", run: c07_any, cases: (40, 4000, 40000), must_see: &["splits", "unaligned starts", "tails of 4 to 15 bytes"] },
        Suite { prop: "C07", name: "c07_grid", rule: "every length 0..=100 at every alignment 0..=15 with fresh contents; non-trivial: 4 bytes or more", run: c07_grid, cases: (40, 101, 101), must_see: &["checksums"] },
        Suite { prop: "C07", name: "c07_large", rule: "data of up to some MiB, whole and in parts, at every alignment; one release case beyond 2^32 bytes; non-trivial: all", run: c07_large, cases: (0, 12, 120), must_see: &["checksums", "data over 4 MiB"] },
        Suite { prop: "C07", name: "c07_mask", rule: "windows of consecutive 32-bit values at random starts and around every overflow of the mask arithmetic; non-trivial: all", run: c07_mask, cases: (6, 300, 6000), must_see: &["values masked", "windows at an overflow"] },
        Suite { prop: "C07", name: "c07_types", rule: "the same bytes as slice, vector, typed slice, str, String and library slice; non-trivial: 4 bytes or more", run: c07_types, cases: (20, 500, 5000), must_see: &["checksums", "element types", "padded texts"] },
        Suite { prop: "C08", name: "c08_sequence", rule: "random sequences of checked and unchecked puts of edge values into a vector (with earlier contents), buffer or library slice of tight or random room, then decoded through every kind of decoder; non-trivial: two or more values", run: c08_sequence, cases: (60, 3000, 60000), must_see: &["values put", "puts refused", "refused slices whose length alone fits", "a byte short of a slice", "vector targets", "buffer targets", "slice targets", "exact fits", "values decoded", "long slices decoded"] },
        Suite { prop: "C08", name: "c08_values", rule: "every length boundary of both varints and random 32/64-bit values, one value at every offset 0..=16; non-trivial: all", run: c08_values, cases: (20, 600, 10000), must_see: &["values put"] },
        Suite { prop: "C08", name: "c08_far", rule: "values put behind some MiB of data, in one case behind 2^32 bytes, and length-prefixed slices of up to 2^28 bytes; non-trivial: all", run: c08_far, cases: (0, 40, 400), must_see: &["values put behind 64 KiB"] },
        Suite { prop: "C09", name: "c09_far", rule: "hostile bytes decoded at the end of buffers of up to some MiB, in some cases behind 2^31 or 2^32 bytes; non-trivial: all", run: c09_far, cases: (2, 300, 3000), must_see: &["operations behind 64 KiB", "refusals"] },
        Suite { prop: "C09", name: "c09_hostile", rule: "random, truncated and mutated encodings decoded by random operation sequences with random and huge lengths, through all decoder kinds; non-trivial: at least one refusal and one success", run: c09_hostile, cases: (120, 6000, 120000), must_see: &["refusals", "values decoded", "truncated varints", "overlong varints", "huge lengths", "length prefixes beyond the end"] },
        Suite { prop: "C09", name: "c09_truncate", rule: "a valid encoding cut at every byte, then decoded by its own schema; non-trivial: all", run: c09_truncate, cases: (10, 300, 5000), must_see: &["cuts"] },
        Suite { prop: "C20", name: "c20_ops", rule: "every slice operation on random byte strings (shared prefixes, empty, non-UTF-8) against the plain vector; non-trivial: non-empty operands", run: c20_ops, cases: (60, 4000, 60000), must_see: &["comparisons", "proper prefixes", "prefix longer than the slice", "ranges", "writes through ranges", "merges", "non-UTF-8 displays"] },
        Suite { prop: "C20", name: "c20_large", rule: "slices of up to some MiB next to powers of two, differing late or not at all: comparison, prefix, parts, clone, merge, write, inverted ranges; non-trivial: all", run: c20_large, cases: (2, 150, 1000), must_see: &["late differences", "slices over 1 MiB", "inverted ranges", "cuts next to 2^16"] },
        Suite { prop: "C20", name: "c20_giant", rule: "slices next to 2^31 and 2^32 bytes: size, comparison and prefix against short ones, parts and writes at their end; non-trivial: the memory was there", run: c20_giant, cases: (0, 4, 20), must_see: &[] },
        Suite { prop: "C20", name: "c20_history", rule: "random histories of mutating operations on a pool of slices mirrored by plain vectors; non-trivial: three or more operations", run: c20_history, cases: (15, 800, 10000), must_see: &["operations"] },
        Suite { prop: "C21", name: "c21_order", rule: "pairs and triples of random and mutated byte strings; non-trivial: both non-empty and different", run: c21_order, cases: (40, 4000, 60000), must_see: &["comparisons", "triples", "prefix pairs", "bytes above 0x7f", "prefix pairs around 256", "common prefixes of 256 or more", "comparisons within one key"] },
        Suite { prop: "C21", name: "c21_giant", rule: "operands next to 2^31 and 2^32 bytes against short ones; non-trivial: the memory was there", run: c21_giant, cases: (0, 4, 20), must_see: &[] },
        Suite { prop: "C22", name: "c22_separator", rule: "key pairs with shared prefixes, adjacent and distant differing bytes, 0xff runs and prefix relation; non-trivial: start < limit and both non-empty", run: c22_separator, cases: (40, 6000, 100000), must_see: &["separators", "shortened separators", "prefix pairs", "adjacent bytes"] },
        Suite { prop: "C22", name: "c22_exhaustive", rule: "all pairs of keys of up to 2 bytes (quick) or 3 bytes (thorough) over the alphabet 00 01 02 61 62 63 7f 80 fe ff; non-trivial: all", run: c22_exhaustive, cases: (1, 111, 1111), must_see: &["separators"] },
        Suite { prop: "C22", name: "c22_successor", rule: "random keys with 0xff runs; non-trivial: non-empty", run: c22_successor, cases: (20, 3000, 30000), must_see: &["successors", "keys of 0xff only"] },
        Suite { prop: "C23", name: "c23_any", rule: "random data of every length class at every alignment under random seeds, as every hashable type; non-trivial: 4 bytes or more", run: c23_any, cases: (40, 4000, 40000), must_see: &["hashes", "element types", "high bytes in the tail"] },
        Suite { prop: "C23", name: "c23_large", rule: "data of up to some MiB next to powers of two, one release case beyond 2^32 bytes; non-trivial: all", run: c23_large, cases: (0, 24, 240), must_see: &["hashes", "data over 1 MiB"] },
        Suite { prop: "C24", name: "c24_giant", rule: "filters of about 2^32 bits and of millions of bits with few or many keys, members asked; non-trivial: the memory was there", run: c24_giant, cases: (0, 8, 40), must_see: &["members queried", "filters of more than 2^24 bits"] },
        Suite { prop: "C25", name: "c25_giant", rule: "the bits set in filters of millions of bits and of about 2^32 bits against the reference positions; non-trivial: all", run: c25_giant, cases: (0, 8, 40), must_see: &["filters compared", "filters of more than 2^24 bits"] },
        Suite { prop: "C24", name: "c24_many", rule: "sets of thousands to tens of thousands of keys in filters of up to millions of bits, members asked; non-trivial: all", run: c24_many, cases: (0, 12, 80), must_see: &["members queried", "filters of more than 2^20 bits"] },
        Suite { prop: "C24", name: "c24_members", rule: "random key sets (0 to thousands, duplicates, empty and long keys) at random bits per key; every member queried; non-trivial: at least one key", run: c24_members, cases: (6, 400, 4000), must_see: &["capacities below the key count", "members queried", "empty keys", "sets of 1000 or more"] },
        Suite { prop: "C25", name: "c25_format", rule: "filter bytes compared with a reference at the stored probe count, non-members compared with the reference match; non-trivial: at least one key", run: c25_format, cases: (6, 400, 4000), must_see: &["filters compared", "non-members queried"] },
        Suite { prop: "C25", name: "c25_foreign", rule: "arbitrary bytes and filters with other probe counts as filter; non-trivial: two or more filter bytes", run: c25_foreign, cases: (20, 2000, 20000), must_see: &["foreign filters", "reserved probe counts", "too short filters"] },
        Suite { prop: "C25", name: "c25_rate", rule: "false matches among fresh keys for large random sets at 8..=20 bits per key; non-trivial: all", run: c25_rate, cases: (0, 12, 60), must_see: &["non-members queried"] },
    ]
}

fn len_class(r: &mut Rng, big: usize) -> usize {
    match r.below(12) {
        0..=3 => r.below(40),
        4..=6 => r.below(200),
        7..=8 => r.below(3000.min(big)),
        9..=10 => r.edge_len(big),
        _ => r.below(big),
    }
}

// ------------------------------------------------------------------ C07

/// The whole elements of type T in the bytes (T must take any bit pattern and have no padding).
fn elements<T: Copy>(data: &[u8]) -> Vec<T> {
    data.chunks_exact(size_of::<T>()).map(|b| unsafe { std::ptr::read_unaligned(b.as_ptr() as *const T) }).collect()
}

fn c07_any(c: &mut Ctx) -> R {
    let n = { let b = c.by(300, 40_000, 300_000); len_class(&mut c.rng, b) };
    let data = c.rng.bytes(n);
    let align = c.rng.below(16);
    let (buf, off) = at_align(&data, align);
    let d = &buf[off..off + n];
    c.fp = hash_bytes(&data);
    c.nontrivial = n >= 4;
    c.sample = format!("{} bytes at address = {} mod 16", n, align);
    let want = refs::crc32c_bitwise(0, &data);
    let got = CRC::value(d);
    ensure!(got == want, "crc of {} bytes at alignment {} is {:08x}, expected {:08x}: {}", n, align, got, want, hex(d));
    c.ev("checksums", 1);
    if align % 4 != 0 {
        c.ev("unaligned starts", 1);
    }
    if n % 16 >= 4 {
        c.ev("tails of 4 to 15 bytes", 1);
    }
    let init = c.rng.u32();
    let (g, w) = (CRC::extend(init, d), refs::crc32c(init, d));
    ensure!(g == w, "crc of {} bytes at alignment {} extending {:08x} is {:08x}, expected {:08x}", n, align, init, g, w);
    // any split
    for _ in 0..4 {
        let parts = c.rng.range(2, 5);
        let mut cuts: Vec<usize> = (1..parts).map(|_| c.rng.below(n + 1)).collect();
        cuts.push(n);
        cuts.sort();
        let (mut v, mut from) = (0u32, 0);
        for &to in &cuts {
            v = if from == 0 { CRC::value(&d[..to]) } else { CRC::extend(v, &d[from..to]) };
            from = to;
        }
        ensure!(v == want, "crc of {} bytes extended over the splits {:?} is {:08x}, expected {:08x}", n, cuts, v, want);
        c.ev("splits", 1);
    }
    Ok(())
}

fn c07_grid(c: &mut Ctx) -> R {
    let n = c.case as usize;
    c.fp = n as u64;
    c.nontrivial = n >= 4;
    c.sample = format!("{} bytes at 16 alignments", n);
    for align in 0..16 {
        let data = if align == 3 { vec![0xff; n] } else if align == 5 { vec![0; n] } else { c.rng.bytes(n) };
        let (buf, off) = at_align(&data, align);
        let (g, w) = (CRC::value(&buf[off..off + n]), refs::crc32c_bitwise(0, &data));
        ensure!(g == w, "crc of {} bytes at alignment {} is {:08x}, expected {:08x}: {}", n, align, g, w, hex(&data));
        c.ev("checksums", 1);
    }
    Ok(())
}

/// Data of many sizes up to MiB, and once beyond 4 GiB: zeros with something at the end.
fn c07_large(c: &mut Ctx) -> R {
    if c.case == 5 && !cfg!(debug_assertions) {
        let n = (1usize << 32) + 3 + c.rng.below(40);
        if let Some(mut v) = giant(n) {
            let tail = c.rng.bytes(70);
            v[n - 70..].copy_from_slice(&tail);
            let init = c.rng.u32();
            c.fp = n as u64;
            c.nontrivial = true;
            c.sample = format!("{} bytes", n);
            let want = refs::crc32c(refs::crc32c_zeros(init, n - 70), &tail);
            let got = CRC::extend(init, &v);
            ensure!(got == want, "crc of {} bytes extending {:08x} is {:08x}, expected {:08x}", n, init, got, want);
            c.ev("checksums", 1);
            c.ev("data over 4 GiB", 1);
            return Ok(());
        }
    }
    let n = if c.case % 2 == 0 { (1usize << (19 + c.case / 2 % 6)) - 20 + c.rng.below(41) } else { c.rng.range(1, 6 << 20) };
    let align = c.rng.below(16);
    let mut buf = c.rng.bytes(n + align + 32);
    let off = (align + 16 - buf.as_ptr() as usize % 16) % 16;
    if c.rng.chance(1, 4) {
        buf.iter_mut().for_each(|b| *b = 0);
    }
    let d = &buf[off..off + n];
    let init = c.rng.edgy32();
    c.mix(n as u64 ^ (init as u64) << 32);
    c.nontrivial = true;
    c.sample = format!("{} bytes at alignment {}", n, align);
    let want = refs::crc32c(init, d);
    let got = CRC::extend(init, d);
    ensure!(got == want, "crc of {} bytes at alignment {} extending {:08x} is {:08x}, expected {:08x}", n, align, init, got, want);
    let cut = c.rng.below(n + 1);
    let got = CRC::extend(CRC::extend(init, &d[..cut]), &d[cut..]);
    ensure!(got == want, "crc of {} bytes in parts of {} and {} is {:08x}, expected {:08x}", n, cut, n - cut, got, want);
    c.ev("checksums", 3);
    c.ev("data over 4 MiB", (n > 1 << 22) as u64);
    Ok(())
}

fn c07_mask(c: &mut Ctx) -> R {
    let width = c.by(64u32, 4096, 16384);
    // the addition inside the mask overflows where ror15(x) crosses 2^32 - delta
    let start = if c.case % 3 == 0 {
        c.ev("windows at an overflow", 1);
        let edge = 0u32.wrapping_sub(0xa282_ead8);
        match c.case % 4 {
            0 => edge.rotate_left(15).wrapping_sub(width / 2),
            1 => 0u32.wrapping_sub(width / 2),
            2 => 0xa282_ead8u32.wrapping_sub(width / 2),
            _ => (edge.wrapping_add(c.rng.below(65536) as u32)).rotate_left(15).wrapping_sub(width / 2),
        }
    } else {
        c.rng.u32()
    };
    c.fp = start as u64;
    c.nontrivial = true;
    c.sample = format!("{} values from {:08x}", width, start);
    for i in 0..width {
        let x = start.wrapping_add(i);
        let m = CRC::mask(x);
        ensure!(m == refs::mask(x), "mask({:08x}) = {:08x}, expected {:08x}", x, m, refs::mask(x));
        ensure!(CRC::unmask(m) == x, "unmask(mask({:08x})) = {:08x}", x, CRC::unmask(m));
        ensure!(CRC::mask(CRC::unmask(x)) == x, "mask(unmask({:08x})) = {:08x}", x, CRC::mask(CRC::unmask(x)));
        ensure!(x.to_mask() == m && m.unmask() == x, "the u32 methods disagree with CRC::mask at {:08x}", x);
    }
    c.ev("values masked", width as u64);
    Ok(())
}

fn c07_types(c: &mut Ctx) -> R {
    let n = { let b = c.by(100, 2000, 5000); len_class(&mut c.rng, b) };
    let ascii: Vec<u8> = (0..n).map(|_| b' ' + c.rng.below(95) as u8).collect();
    c.fp = hash_bytes(&ascii);
    c.nontrivial = n >= 4;
    c.sample = format!("{} bytes as every type", n);
    let init = c.rng.u32();
    let raw = c.rng.bytes(n);
    let (w0, w1) = (refs::crc32c(0, &raw), refs::crc32c(init, &raw));
    let by: &[u8] = &raw;
    let sl = Slice::from_buf(&raw);
    ensure!(by.as_crc() == w0 && by.as_crc_extend(init) == w1, "checksum of a byte slice of {} bytes differs", n);
    ensure!((&by).as_crc() == w0 && AsCrc::as_crc_extend(&by, init) == w1, "checksum of a &[u8] of {} bytes differs", n);
    ensure!(raw.as_crc() == w0 && raw.as_crc_extend(init) == w1, "checksum of a Vec<u8> of {} bytes differs", n);
    ensure!(AsCrc::as_crc(&sl) == w0 && AsCrc::as_crc_extend(&sl, init) == w1, "checksum of a Slice of {} bytes differs", n);
    let words: Vec<u32> = raw.chunks_exact(4).map(|w| u32::from_ne_bytes([w[0], w[1], w[2], w[3]])).collect();
    let ww = refs::crc32c(init, &raw[..words.len() * 4]);
    ensure!(words.as_crc_extend(init) == ww && AsCrc::as_crc_extend(&&words[..], init) == ww, "checksum of {} u32 words is not that of their bytes", words.len());
    let quads: Vec<u64> = raw.chunks_exact(8).map(|w| u64::from_ne_bytes(w.try_into().unwrap())).collect();
    let wq = refs::crc32c(0, &raw[..quads.len() * 8]);
    ensure!(quads.as_crc() == wq, "checksum of {} u64 words is not that of their bytes", quads.len());
    macro_rules! of {
        ($($t:ty),*) => {$(
            let v: Vec<$t> = elements(&raw);
            let w = refs::crc32c(init, &raw[..v.len() * size_of::<$t>()]);
            ensure!(v.as_crc_extend(init) == w && AsCrc::as_crc_extend(&&v[..], init) == w, "checksum of {} elements of type {} is not that of their bytes", v.len(), stringify!($t));
            c.ev("element types", 1);
        )*}
    }
    of!(i8, u16, i64, u128, f64, [u8; 2], [u8; 3], [u8; 7], [u8; 12], [u16; 5], [u32; 9]);
    let s = String::from_utf8(ascii.clone()).unwrap();
    let (a0, a1) = (refs::crc32c(0, &ascii), refs::crc32c(init, &ascii));
    ensure!(s.as_crc() == a0 && s.as_crc_extend(init) == a1, "checksum of a String of {} bytes differs", n);
    ensure!(AsCrc::as_crc(&s.as_str()) == a0 && AsCrc::as_crc_extend(&s.as_str(), init) == a1, "checksum of a str of {} bytes differs", n);
    // text that begins or ends with characters somebody might take for padding
    let t = format!("{}{}{}", padding(&mut c.rng), s, padding(&mut c.rng));
    let (p0, p1) = (refs::crc32c(0, t.as_bytes()), refs::crc32c(init, t.as_bytes()));
    ensure!(t.as_crc() == p0 && t.as_crc_extend(init) == p1 && AsCrc::as_crc(&t.as_str()) == p0 && AsCrc::as_crc_extend(&t.as_str(), init) == p1, "checksum of the text {:?} is not that of its bytes", t);
    let bare = padding(&mut c.rng);
    ensure!(bare.as_crc_extend(init) == refs::crc32c(init, bare.as_bytes()) && AsCrc::as_crc(&bare.as_str()) == refs::crc32c(0, bare.as_bytes()), "checksum of the text {:?} is not that of its bytes", bare);
    c.ev("padded texts", 2);
    c.ev("checksums", 20);
    Ok(())
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, PartialEq)]
enum Val {
    F32(u32),
    F64(u64),
    V32(u32),
    V64(u64),
    Buf(Vec<u8>),
    Lp(Vec<u8>),
}

fn enc(v: &Val) -> Vec<u8> {
    let mut o = vec![];
    match v {
        Val::F32(x) => o.extend_from_slice(&x.to_le_bytes()),
        Val::F64(x) => o.extend_from_slice(&x.to_le_bytes()),
        Val::V32(x) => refs::put_varint(&mut o, *x as u64),
        Val::V64(x) => refs::put_varint(&mut o, *x),
        Val::Buf(b) => o.extend_from_slice(b),
        Val::Lp(b) => {
            refs::put_varint(&mut o, b.len() as u64);
            o.extend_from_slice(b);
        }
    }
    o
}

fn gen_val(r: &mut Rng, big: usize) -> Val {
    let blob = |r: &mut Rng| {
        let n = match r.below(8) {
            0 => 0,
            1 => *r.pick(&[126, 127, 128, 128, 128, 129]),
            2 => big.min(r.range(16382, 16386)),
            3 if big >= 20000 && r.chance(1, 30) => match r.below(4) {
                // lengths at the two, three and four byte edges
                0 => r.range((1 << 21) - 2, (1 << 21) + 2),
                1 => (r.range(1, 4) << 16) + r.below(5) - 2,
                _ => r.range(65538, 200_000),
            },
            _ => r.below(20),
        };
        if r.chance(1, 5) { r.special(64.min(big)) } else { r.bytes(n) }
    };
    match r.below(6) {
        0 => Val::F32(r.edgy32()),
        1 => Val::F64(r.edgy64()),
        2 => Val::V32(r.edgy32()),
        3 => Val::V64(r.edgy64()),
        4 => Val::Buf(blob(r)),
        _ => Val::Lp(blob(r)),
    }
}

fn put(e: &mut Encoder, v: &Val, unchecked: bool) -> Result<(), String> {
    if unchecked {
        unsafe {
            match v {
                Val::F32(x) => e.uncheck_put_fixed32(*x),
                Val::F64(x) => e.uncheck_put_fixed64(*x),
                Val::V32(x) => e.uncheck_put_varint32(*x),
                Val::V64(x) => e.uncheck_put_varint64(*x),
                Val::Buf(b) => e.uncheck_put_buf(b),
                Val::Lp(b) => e.uncheck_put_length_prefixed_slice(&Slice::from_buf(b)),
            }
        }
        return Ok(());
    }
    match v {
        Val::F32(x) => e.put_fixed32(*x),
        Val::F64(x) => e.put_fixed64(*x),
        Val::V32(x) => e.put_varint32(*x),
        Val::V64(x) => e.put_varint64(*x),
        Val::Buf(b) => e.put_buf(b),
        Val::Lp(b) => e.put_length_prefixed_slice(&Slice::from_buf(b)),
    }
    .map_err(|s| s.to_string())
}

fn get(d: &mut Decoder, v: &Val, unchecked: bool) -> Result<Val, String> {
    if unchecked {
        return Ok(unsafe {
            match v {
                Val::F32(_) => Val::F32(d.uncheck_get_fixed32()),
                Val::F64(_) => Val::F64(d.uncheck_get_fixed64()),
                Val::V32(_) => Val::V32(d.uncheck_get_varint32()),
                Val::V64(_) => Val::V64(d.uncheck_get_varint64()),
                Val::Buf(b) => Val::Buf(d.uncheck_get_buf(b.len()).to_vec()),
                Val::Lp(_) => Val::Lp(d.uncheck_get_length_prefixed_slice().to_vec()),
            }
        });
    }
    Ok(match v {
        Val::F32(_) => Val::F32(d.get_fixed32().map_err(|s| s.to_string())?),
        Val::F64(_) => Val::F64(d.get_fixed64().map_err(|s| s.to_string())?),
        Val::V32(_) => Val::V32(d.get_varint32().map_err(|s| s.to_string())?),
        Val::V64(_) => Val::V64(d.get_varint64().map_err(|s| s.to_string())?),
        Val::Buf(b) => Val::Buf(d.get_buf(b.len()).map_err(|s| s.to_string())?.to_vec()),
        Val::Lp(_) => Val::Lp(d.get_length_prefixed_slice().map_err(|s| s.to_string())?.to_vec()),
    })
}

/// decodes `vals` from the bytes through `d`, checking values, positions and the end
fn decode_all(c: &mut Ctx, d: &mut Decoder, vals: &[Val], start: usize, total: usize, how: &str) -> R {
    ensure!(d.offset() == start && d.limit() == total, "{}: fresh decoder at {} of {}, expected {} of {}", how, d.offset(), d.limit(), start, total);
    let mut pos = start;
    for (i, v) in vals.iter().enumerate() {
        let unchecked = c.rng.chance(1, 5);
        if c.rng.chance(1, 8) {
            // a skip stands for the value
            let n = enc(v).len();
            let r = if unchecked { Ok(unsafe { d.uncheck_skip(n) }) } else { d.skip(n) };
            pos += n;
            ensure!(d.offset() == pos, "{}: after skipping {} bytes from {} the decoder stands at {}", how, n, pos - n, d.offset());
            ensure!(matches!(r, Ok(p) if p == pos), "{}: skip({}) over value {} at {} gave {:?}", how, n, i, pos - n, r.map_err(|s| s.to_string()));
            continue;
        }
        ensure!(d.can_get() == (pos < total), "{}: can_get() = {} at {} of {}", how, d.can_get(), pos, total);
        if let Val::Lp(b) = v {
            c.ev("long slices decoded", (b.len() > 65535) as u64);
        }
        let got = get(d, v, unchecked).map_err(|e| format!("{}: value {} = {:?} at {} of {} was refused: {}", how, i, v, pos, total, e))?;
        ensure!(got == *v, "{}: value {} at {} decoded as {:?}, was {:?}", how, i, pos, got, v);
        pos += enc(v).len();
        ensure!(d.offset() == pos, "{}: after value {} the decoder stands at {}, expected {}", how, i, d.offset(), pos);
        c.ev("values decoded", 1);
    }
    Ok(())
}

fn c08_sequence(c: &mut Ctx) -> R {
    let count = c.rng.range(1, c.by(8, 24, 40));
    let big = c.by(300, 20000, 20000);
    let vals: Vec<Val> = (0..count).map(|_| gen_val(&mut c.rng, big)).collect();
    let all: Vec<u8> = vals.iter().flat_map(|v| enc(v)).collect();
    c.fp = hash_bytes(&all);
    c.nontrivial = count >= 2;
    c.sample = format!("{} values, {} bytes", count, all.len());
    let kind = c.case % 3;
    if kind == 0 {
        // a vector grows; earlier contents behind the position stay
        let n = if c.rng.chance(1, 2) { 0 } else { c.rng.below(all.len() + 30) };
        let old = c.rng.bytes(n);
        let mut vec = old.clone();
        if c.rng.chance(1, 3) {
            vec.reserve(c.rng.below(64));
        }
        let mut model = old.clone();
        let mut pos = 0;
        {
            let mut e = Encoder::with_vec(&mut vec);
            for v in &vals {
                let b = enc(v);
                let unchecked = c.rng.chance(1, 4);
                put(&mut e, v, unchecked).map_err(|m| format!("put of {:?} into a vector was refused: {}", v, m))?;
                if model.len() < pos + b.len() {
                    model.resize(pos + b.len(), 0);
                }
                model[pos..pos + b.len()].copy_from_slice(&b);
                pos += b.len();
                ensure!(e.offset() == pos && e.len() == model.len(), "after {:?} the encoder stands at {} of {}, expected {} of {}", v, e.offset(), e.len(), pos, model.len());
                c.ev("values put", 1);
            }
            let mut d = e.create_decoder();
            decode_all(c, &mut d, &vals, 0, model.len(), "decoder of the encoder")?;
        }
        ensure!(vec == model, "vector holds {} expected {}", hex(&vec), hex(&model));
        let mut d = Decoder::with_vec(&vec);
        decode_all(c, &mut d, &vals, 0, model.len(), "vector decoder")?;
        c.ev("vector targets", 1);
        return Ok(());
    }
    // fixed room: exact, short, or generous, at any alignment
    let room = match c.rng.below(4) {
        0 => all.len(),
        1 => c.rng.below(all.len() + 1),
        3 => {
            // one byte short of the end of some value, of a length-prefixed slice where there is one
            let lp: Vec<usize> = (0..count).filter(|&i| matches!(vals[i], Val::Lp(_))).collect();
            let i = if lp.is_empty() { c.rng.below(count) } else { *c.rng.pick(&lp) };
            let end: usize = vals[..=i].iter().map(|v| enc(v).len()).sum();
            c.ev("a byte short of a slice", !lp.is_empty() as u64);
            end.saturating_sub(1)
        }
        _ => all.len() + c.rng.below(20),
    };
    let fill = c.rng.next() as u8;
    let guard = 24;
    let align = c.rng.below(8);
    let mut backing = vec![fill; room + 2 * guard + align];
    let lo = guard + align;
    let mut slice_target = Slice::from_buf(&vec![fill; room]);
    let mut model = vec![fill; room];
    let mut pos = 0;
    let mut accepted: Vec<Val> = vec![];
    {
        let mut e = if kind == 1 {
            c.ev("buffer targets", 1);
            Encoder::with_buf(&mut backing[lo..lo + room])
        } else {
            c.ev("slice targets", 1);
            Encoder::with_slice(&mut slice_target)
        };
        ensure!(e.len() == room && e.offset() == 0, "fresh encoder over {} bytes says {} of {}", room, e.offset(), e.len());
        for v in &vals {
            let b = enc(v);
            if pos + b.len() <= room {
                let unchecked = c.rng.chance(1, 5);
                put(&mut e, v, unchecked).map_err(|m| format!("put of {:?} at {} of {} was refused: {}", v, pos, room, m))?;
                model[pos..pos + b.len()].copy_from_slice(&b);
                pos += b.len();
                if pos == room {
                    c.ev("exact fits", 1);
                }
                accepted.push(v.clone());
                c.ev("values put", 1);
                ensure!(e.offset() == pos && e.len() == room, "after {:?} the encoder stands at {} of {}, expected {} of {}", v, e.offset(), e.len(), pos, room);
            } else {
                let r = put(&mut e, v, false);
                ensure!(r.is_err(), "put of {:?} ({} bytes) at {} of {} was accepted", v, b.len(), pos, room);
                ensure!(e.offset() == pos && e.len() == room, "a refused put moved the encoder from {} to {}", pos, e.offset());
                c.ev("puts refused", 1);
                if let Val::Lp(b) = v {
                    let room_for_length = pos + varint_length(b.len() as u64) <= room;
                    c.ev("refused slices whose length alone fits", room_for_length as u64);
                }
            }
        }
        let mut d = e.create_decoder();
        decode_all(c, &mut d, &accepted, 0, room, "decoder of the encoder")?;
    }
    if kind == 1 {
        ensure!(backing[lo..lo + room] == model[..], "buffer holds {} expected {}", hex(&backing[lo..lo + room]), hex(&model));
        ensure!(backing[..lo].iter().chain(&backing[lo + room..]).all(|b| *b == fill), "bytes outside the buffer changed");
        let mut d = Decoder::with_buf(&backing[lo..lo + room]);
        decode_all(c, &mut d, &accepted, 0, room, "buffer decoder")?;
    } else {
        ensure!(*slice_target == model[..], "slice holds {} expected {}", hex(&slice_target), hex(&model));
        let mut d = Decoder::with_slice(&slice_target);
        decode_all(c, &mut d, &accepted, 0, room, "slice decoder")?;
    }
    Ok(())
}

fn c08_values(c: &mut Ctx) -> R {
    let v = if c.case < 140 {
        let s = 7 * (c.case as u32 / 14);
        if s >= 64 { u64::MAX } else { (1u64 << s).wrapping_add(c.case % 14).wrapping_sub(7) }
    } else {
        c.rng.edgy64()
    };
    c.fp = v;
    c.nontrivial = true;
    c.sample = format!("value {:#x}", v);
    ensure!(varint_length(v) == refs::varint_len(v), "varint_length({:#x}) = {}, expected {}", v, varint_length(v), refs::varint_len(v));
    for off in 0..=16usize {
        for val in [Val::F32(v as u32), Val::F64(v), Val::V32(v as u32), Val::V64(v)] {
            let b = enc(&val);
            let pre = c.rng.bytes(off);
            for target in 0..2 {
                let mut vec = vec![0u8; off + b.len()];
                let mut grown: Vec<u8> = vec![];
                {
                    let mut e = if target == 0 { Encoder::with_vec(&mut grown) } else { Encoder::with_buf(&mut vec) };
                    e.put_buf(&pre).map_err(|s| format!("prefix of {} bytes refused: {}", off, s.to_string()))?;
                    put(&mut e, &val, false).map_err(|m| format!("{:?} refused at offset {} with exact room: {}", val, off, m))?;
                }
                let got = if target == 0 { &grown } else { &vec };
                ensure!(got.len() == off + b.len() && got[..off] == pre[..] && got[off..] == b[..], "{:?} at offset {} is encoded as {}, expected {}", val, off, hex(got), hex(&b));
                let mut d = Decoder::with_buf(got);
                ensure!(d.skip(off).is_ok(), "skip({}) of {} refused", off, got.len());
                let back = get(&mut d, &val, false).map_err(|m| format!("{:?} refused by the decoder: {}", val, m))?;
                ensure!(back == val && d.offset() == got.len(), "{:?} at offset {} decodes as {:?}", val, off, back);
                c.ev("values put", 1);
            }
        }
    }
    Ok(())
}

/// Values behind much data.
fn c08_far(c: &mut Ctx) -> R {
    let vals: Vec<Val> = (0..c.rng.range(2, 8)).map(|_| gen_val(&mut c.rng, 300)).collect();
    let all: Vec<u8> = vals.iter().flat_map(|v| enc(v)).collect();
    c.fp = hash_bytes(&all);
    c.nontrivial = true;
    if c.case % 8 == 1 {
        // one long slice behind its length
        let n = match c.case / 8 % 5 {
            0 => c.rng.range((1 << 28) - 2, (1 << 28) + 2),
            1 => c.rng.range((1 << 24) + 1, 1 << 25),
            2 => c.rng.range((1 << 27) - 2, (1 << 27) + 2),
            _ => (1 << c.rng.range(20, 25)) + c.rng.below(3),
        };
        let Some(mut big) = giant(n) else {
            return Ok(());
        };
        big[n - 1] = 7;
        c.sample = format!("a slice of {} bytes", n);
        let s = Slice::from_vec(big);
        let mut out: Vec<u8> = vec![];
        {
            let mut e = Encoder::with_vec(&mut out);
            e.put_length_prefixed_slice(&s).map_err(|m| format!("a slice of {} bytes was refused by a vector: {}", n, m.to_string()))?;
            ensure!(e.offset() == n + refs::varint_len(n as u64), "a slice of {} bytes moved the encoder to {}", n, e.offset());
            for v in &vals {
                put(&mut e, v, false).map_err(|m| format!("{:?} behind {} bytes was refused: {}", v, n, m))?;
            }
        }
        let mut head = vec![];
        refs::put_varint(&mut head, n as u64);
        let at = head.len() + n;
        ensure!(out.len() == at + all.len() && out.starts_with(&head) && out[at..] == all[..] && out[at - 1] == 7 && out[head.len()..at - 1].iter().all(|b| *b == 0), "a slice of {} bytes was not written behind its length", n);
        let mut d = Decoder::with_vec(&out);
        let back = d.get_length_prefixed_slice().map_err(|m| format!("a slice of {} bytes was refused by the decoder: {}", n, m.to_string()))?;
        ensure!(*back == *s && d.offset() == at, "a slice of {} bytes came back with {} bytes, the decoder stands at {}", n, back.size(), d.offset());
        drop(back);
        c.ev("prefixed slices over 16 MiB", (n > 1 << 24) as u64);
        return decode_rest(c, &mut d, &vals, at);
    }
    let far = if c.case == 2 { (1usize << 32) - c.rng.below(all.len() + 3) } else { c.rng.range(c.by(100, 30_000, 60_000), c.by(200, 3 << 20, 16 << 20)) };
    c.sample = format!("{} values behind {} bytes", vals.len(), far);
    let Some(mut room) = (if far > 1 << 30 { giant(far + all.len()) } else { Some(vec![0; far + all.len()]) }) else {
        return Ok(());
    };
    let step = vec![0; far.min(1 << 24)];
    for target in 0..if far > 1 << 30 { 1 } else { 2 } {
        let mut grown: Vec<u8> = vec![];
        {
            let mut e = if target == 0 { Encoder::with_buf(&mut room) } else { Encoder::with_vec(&mut grown) };
            let mut at = 0;
            while at < far {
                let n = step.len().min(far - at);
                e.put_buf(&step[..n]).map_err(|m| format!("{} bytes at {} were refused: {}", n, at, m.to_string()))?;
                at += n;
                ensure!(e.offset() == at, "{} bytes put move the encoder to {}", at, e.offset());
            }
            for v in &vals {
                put(&mut e, v, false).map_err(|m| format!("{:?} at {} with exact room was refused: {}", v, at, m))?;
                at += enc(v).len();
                ensure!(e.offset() == at, "after {:?} the encoder stands at {} instead of {}", v, e.offset(), at);
                c.ev("values put", 1);
                c.ev("values put behind 64 KiB", (at > 1 << 16) as u64);
            }
            if target == 0 {
                ensure!(e.put_fixed32(1).is_err() && e.put_varint32(1).is_err() && e.put_buf(b"x").is_err() && e.offset() == at, "a put behind the end of {} bytes was accepted", at);
            }
        }
        let got = if target == 0 { &room } else { &grown };
        ensure!(got.len() == far + all.len() && got[far..] == all[..] && got[far - 20..far] == [0; 20], "values behind {} bytes are encoded as {}, expected {}", far, hex(&got[far..]), hex(&all));
        let mut d = Decoder::with_vec(got);
        ensure!(d.skip(far).is_ok() && d.offset() == far, "skip({}) failed", far);
        decode_rest(c, &mut d, &vals, far)?;
    }
    Ok(())
}

fn decode_rest(c: &mut Ctx, d: &mut Decoder, vals: &[Val], mut at: usize) -> R {
    for v in vals {
        let got = get(d, v, false).map_err(|m| format!("{:?} at {} was refused by the decoder: {}", v, at, m))?;
        at += enc(v).len();
        ensure!(got == *v && d.offset() == at, "{:?} behind much data decodes as {:?}, the decoder stands at {}", v, got, d.offset());
        c.ev("values decoded", 1);
    }
    ensure!(!d.can_get() && d.offset() == d.limit(), "the decoder stands at {} of {}", d.offset(), d.limit());
    Ok(())
}

// ------------------------------------------------------------------ C09

#[derive(Debug, Clone)]
enum Op {
    F32,
    F64,
    V32,
    V64,
    Buf(usize),
    Lp,
    Skip(usize),
}

/// What the encoding rules say: Ok(value, new position), with `lax` when the varint carried bits
/// beyond the type, which may also be refused.
fn expect(data: &[u8], pos: usize, op: &Op) -> (Result<(Val, usize), ()>, bool) {
    let rest = &data[pos..];
    match op {
        Op::F32 => {
            if rest.len() < 4 { return (Err(()), false) }
            (Ok((Val::F32(u32::from_le_bytes(rest[..4].try_into().unwrap())), pos + 4)), false)
        }
        Op::F64 => {
            if rest.len() < 8 { return (Err(()), false) }
            (Ok((Val::F64(u64::from_le_bytes(rest[..8].try_into().unwrap())), pos + 8)), false)
        }
        Op::V32 => match refs::get_varint(rest, 32) {
            Some((v, n, exact)) => (Ok((Val::V32(v as u32), pos + n)), !exact),
            None => (Err(()), false),
        },
        Op::V64 => match refs::get_varint(rest, 64) {
            Some((v, n, exact)) => (Ok((Val::V64(v), pos + n)), !exact),
            None => (Err(()), false),
        },
        Op::Buf(n) => {
            if *n > rest.len() { return (Err(()), false) }
            (Ok((Val::Buf(rest[..*n].to_vec()), pos + n)), false)
        }
        Op::Skip(n) => {
            if *n > rest.len() { return (Err(()), false) }
            (Ok((Val::Buf(vec![]), pos + n)), false)
        }
        Op::Lp => match refs::get_varint(rest, 32) {
            Some((v, n, exact)) => {
                let v = v as usize;
                if v > rest.len() - n { return (Err(()), false) }
                (Ok((Val::Lp(rest[n..n + v].to_vec()), pos + n + v)), !exact)
            }
            None => (Err(()), false),
        },
    }
}

fn apply(d: &mut Decoder, op: &Op) -> Result<Val, String> {
    Ok(match op {
        Op::F32 => Val::F32(d.get_fixed32().map_err(|s| s.to_string())?),
        Op::F64 => Val::F64(d.get_fixed64().map_err(|s| s.to_string())?),
        Op::V32 => Val::V32(d.get_varint32().map_err(|s| s.to_string())?),
        Op::V64 => Val::V64(d.get_varint64().map_err(|s| s.to_string())?),
        Op::Buf(n) => Val::Buf(d.get_buf(*n).map_err(|s| s.to_string())?.to_vec()),
        Op::Lp => Val::Lp(d.get_length_prefixed_slice().map_err(|s| s.to_string())?.to_vec()),
        Op::Skip(n) => {
            let p = d.skip(*n).map_err(|s| s.to_string())?;
            if p != d.offset() {
                return Ok(Val::F64(p as u64));
            }
            Val::Buf(vec![])
        }
    })
}

fn hostile_bytes(c: &mut Ctx) -> Vec<u8> {
    let r = &mut c.rng;
    let n = match r.below(5) {
        0 => r.below(6),
        1 => r.below(14),
        _ => r.below(80),
    };
    let mut d = match r.below(4) {
        0 => r.bytes(n),
        // runs of continuation bytes
        1 => (0..n).map(|_| if r.chance(4, 5) { 0x80 | r.next() as u8 } else { r.next() as u8 & 0x7f }).collect(),
        2 => {
            let mut v: Vec<u8> = vec![];
            while v.len() < n {
                let x = gen_val(r, 40);
                v.extend(enc(&x));
            }
            let cut = r.below(v.len() + 1);
            if r.chance(1, 2) {
                v.truncate(cut);
            }
            v
        }
        _ => vec![*r.pick(&[0u8, 0x7f, 0x80, 0xff]); n],
    };
    if !d.is_empty() && c.rng.chance(1, 2) {
        for _ in 0..c.rng.range(1, 3) {
            let i = c.rng.below(d.len());
            d[i] = c.rng.next() as u8;
        }
    }
    d
}

fn c09_hostile(c: &mut Ctx) -> R {
    let data = hostile_bytes(c);
    // exactly sized heap block: an out-of-bounds read is one past a red zone
    let vec: Vec<u8> = data.clone().into_boxed_slice().into_vec();
    let slice = Slice::from_vec(data.clone().into_boxed_slice().into_vec());
    let boxed: Box<[u8]> = data.clone().into_boxed_slice();
    c.fp = hash_bytes(&data);
    c.sample = format!("{} bytes {}", data.len(), hex(&data));
    let mut d = match c.case % 3 {
        0 => Decoder::with_vec(&vec),
        1 => Decoder::with_slice(&slice),
        _ => Decoder::with_buf(&boxed),
    };
    ensure!(d.limit() == data.len() && d.offset() == 0, "fresh decoder over {} bytes: {} of {}", data.len(), d.offset(), d.limit());
    let mut pos = 0;
    let (mut ok, mut bad) = (0, 0);
    for _ in 0..c.rng.range(4, 24) {
        let rest = data.len() - pos;
        let len = match c.rng.below(8) {
            7 => (1usize << *c.rng.pick(&[8, 16, 31, 32, 33, 40, 48, 62, 63])) + c.rng.below(rest + 2),
            0 => rest,
            1 => rest + 1,
            2 => usize::MAX - c.rng.below(data.len() + 2),
            3 => (u32::MAX as usize).wrapping_sub(c.rng.below(3)),
            4 => isize::MAX as usize - c.rng.below(2),
            _ => c.rng.below(6),
        };
        let op = match c.rng.below(9) {
            0 => Op::F32,
            1 => Op::F64,
            2 | 3 => Op::V32,
            4 | 5 => Op::V64,
            6 => Op::Buf(len),
            7 => Op::Lp,
            _ => Op::Skip(len),
        };
        if let Op::Buf(n) | Op::Skip(n) = op {
            if n > 1 << 30 {
                c.ev("huge lengths", 1);
            }
        }
        let (want, lax) = expect(&data, pos, &op);
        ensure!(d.can_get() == (pos < data.len()), "can_get() = {} at {} of {}", d.can_get(), pos, data.len());
        let got = apply(&mut d, &op);
        match (&got, &want) {
            (Err(_), Err(())) => {
                bad += 1;
                match op {
                    Op::V32 | Op::V64 if rest > 0 => {
                        let k = data[pos..].iter().take_while(|b| **b >= 0x80).count();
                        if k == rest {
                            c.ev("truncated varints", 1);
                        }
                        if k >= if matches!(op, Op::V32) { 5 } else { 10 } {
                            c.ev("overlong varints", 1);
                        }
                    }
                    Op::Lp if refs::get_varint(&data[pos..], 32).is_some() => c.ev("length prefixes beyond the end", 1),
                    _ => {}
                }
                ensure!(d.offset() == pos, "{:?} was refused but moved the decoder from {} to {}", op, pos, d.offset());
            }
            (Ok(g), Ok((w, np))) => {
                ok += 1;
                ensure!(g == w, "{:?} at {} of {} gave {:?}, expected {:?}", op, pos, hex(&data), g, w);
                ensure!(d.offset() == *np, "{:?} at {} moved to {}, expected {}", op, pos, d.offset(), np);
                pos = *np;
            }
            (Err(_), Ok(_)) if lax => {
                bad += 1;
                ensure!(d.offset() == pos, "{:?} was refused but moved the decoder from {} to {}", op, pos, d.offset());
            }
            _ => return Err(format!("{:?} at {} of {} gave {:?}, expected {:?}", op, pos, hex(&data), got, want)),
        }
    }
    c.ev("refusals", bad);
    c.ev("values decoded", ok);
    c.nontrivial = ok > 0 && bad > 0;
    Ok(())
}

/// Hostile bytes at the end of a long buffer.
fn c09_far(c: &mut Ctx) -> R {
    let tail = hostile_bytes(c);
    let far = match c.case % 150 {
        3 => (1usize << 31) - c.rng.below(tail.len() + 2),
        4..=6 => (1usize << 32) + 2 - c.rng.below(tail.len() + 4),
        _ => c.rng.range(c.by(10, 30_000, 60_000), c.by(20, 300_000, 2 << 20)),
    };
    c.fp = hash_bytes(&tail) ^ far as u64;
    c.sample = format!("{} bytes {} behind {}", tail.len(), hex(&tail), far);
    let data = if far > 1 << 30 { giant(far + tail.len()) } else { Some(vec![0; far + tail.len()]) };
    let Some(mut data) = data else {
        return Ok(());
    };
    c.nontrivial = true;
    data[far..].copy_from_slice(&tail);
    let mut d = if c.case % 2 == 0 { Decoder::with_vec(&data) } else { Decoder::with_buf(&data) };
    ensure!(matches!(d.skip(far), Ok(p) if p == far) && d.offset() == far, "skip({}) of {} failed", far, data.len());
    let mut pos = 0;
    for _ in 0..c.rng.range(4, 16) {
        let len = match c.rng.below(6) {
            5 => (1usize << *c.rng.pick(&[8, 16, 31, 32, 33, 40, 48, 62, 63])) + c.rng.below(tail.len() - pos + 2),
            0 => tail.len() - pos,
            1 => tail.len() - pos + 1,
            2 => usize::MAX - c.rng.below(far + pos + 2),
            _ => c.rng.below(6),
        };
        let op = match c.rng.below(9) {
            0 => Op::F32,
            1 => Op::F64,
            2 | 3 => Op::V32,
            4 | 5 => Op::V64,
            6 => Op::Buf(len),
            7 => Op::Lp,
            _ => Op::Skip(len),
        };
        let (want, lax) = expect(&tail, pos, &op);
        ensure!(d.can_get() == (pos < tail.len()), "can_get() = {} at {} + {} of {}", d.can_get(), far, pos, data.len());
        // `apply` compares the value of a skip with the position itself
        let got = apply(&mut d, &op);
        c.ev("operations behind 64 KiB", (far > 1 << 16) as u64);
        match (&got, &want) {
            (Ok(g), Ok((w, np))) => {
                ensure!(g == w && d.offset() == far + np, "{:?} at {} + {} of {} gave {:?} and moved to {}, expected {:?} and {}", op, far, pos, hex(&tail), g, d.offset(), w, far + np);
                pos = *np;
                c.ev("values decoded", 1);
            }
            (Err(_), w) if w.is_err() || lax => {
                ensure!(d.offset() == far + pos, "{:?} was refused but moved the decoder from {} to {}", op, far + pos, d.offset());
                c.ev("refusals", 1);
            }
            _ => return Err(format!("{:?} at {} + {} of {} gave {:?}, expected {:?}", op, far, pos, hex(&tail), got, want)),
        }
    }
    // and byte by byte to the end
    while pos < tail.len() {
        ensure!(d.can_get(), "nothing to get at {} + {} of {}", far, pos, data.len());
        ensure!(matches!(d.skip(1), Ok(p) if p == far + pos + 1), "skip(1) at {} + {} of {} failed", far, pos, data.len());
        pos += 1;
    }
    ensure!(!d.can_get() && d.offset() == d.limit(), "the decoder stands at {} of {} and has more", d.offset(), d.limit());
    Ok(())
}

fn c09_truncate(c: &mut Ctx) -> R {
    let count = c.rng.range(1, 5);
    let vals: Vec<Val> = (0..count).map(|_| gen_val(&mut c.rng, 40)).collect();
    let all: Vec<u8> = vals.iter().flat_map(|v| enc(v)).collect();
    c.fp = hash_bytes(&all);
    c.nontrivial = true;
    c.sample = format!("{:?} cut at {} places", vals, all.len());
    let step = if all.len() > 400 { all.len() / 200 } else { 1 };
    for cut in (0..=all.len()).step_by(step) {
        let data: Box<[u8]> = all[..cut].to_vec().into_boxed_slice();
        let mut d = Decoder::with_buf(&data);
        let mut pos = 0;
        for v in &vals {
            let n = enc(v).len();
            match get(&mut d, v, false) {
                Ok(g) => {
                    ensure!(pos + n <= cut, "{:?} at {} was decoded as {:?} from data that ends at {}", v, pos, g, cut);
                    ensure!(g == *v && d.offset() == pos + n, "{:?} at {} decoded as {:?}", v, pos, g);
                    pos += n;
                }
                Err(e) => {
                    ensure!(pos + n > cut, "{:?} at {} of {} was refused: {}", v, pos, cut, e);
                    ensure!(d.offset() == pos, "a refusal moved the decoder from {} to {}", pos, d.offset());
                    break;
                }
            }
        }
        c.ev("cuts", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ C20

/// A long common prefix, then nothing, more bytes on one side, or a difference.
fn long_pair(r: &mut Rng, big: usize) -> (Vec<u8>, Vec<u8>) {
    let n = r.edge_len(big);
    let filler = *r.pick(&[0u8, b'k', 0xff]);
    let (mut a, mut b) = if r.chance(1, 2) { (vec![filler; n], vec![filler; n]) } else { let x = r.bytes(n); (x.clone(), x) };
    match r.below(4) {
        0 => {
            let m = if r.chance(1, 2) { r.range(1, 700) } else { r.edge_len(big) };
            b.extend(r.bytes(m));
        }
        1 => b.truncate(r.below(n + 1)),
        _ if n > 0 => {
            let from_end = *r.pick(&[1, 4, 9, 4096, usize::MAX]);
            let i = n - 1 - r.below(n.min(from_end));
            b[i] = b[i].wrapping_add(*r.pick(&[1u8, 0xff, 0x80, 2]));
            if r.chance(1, 3) {
                let j = r.below(n);
                a[j] = a[j].wrapping_add(1);
            }
            let (m, k) = (r.below(4), r.below(4));
            a.extend(r.bytes(m));
            b.extend(r.bytes(k));
        }
        _ => {}
    }
    if r.chance(1, 2) { (a, b) } else { (b, a) }
}

fn pair(r: &mut Rng, big: usize) -> (Vec<u8>, Vec<u8>) {
    if big > 0 && r.chance(1, 8) {
        return long_pair(r, big);
    }
    let a = r.key(40);
    let b = match r.below(6) {
        0 => a.clone(),
        1 => a[..r.below(a.len() + 1)].to_vec(),
        2 => {
            let mut b = a.clone();
            b.extend(r.key(6));
            b
        }
        3 if !a.is_empty() => {
            let mut b = a.clone();
            let i = r.below(b.len());
            b[i] = b[i].wrapping_add(*r.pick(&[1u8, 0xff, 0x80, 2]));
            b
        }
        _ => r.key(40),
    };
    if r.chance(1, 2) { (a, b) } else { (b, a) }
}

fn c20_ops(c: &mut Ctx) -> R {
    let big = c.by(600, 70_000, 300_000);
    let (a, b) = pair(&mut c.rng, big);
    c.fp = hash_bytes(&a) ^ hash_bytes(&b).rotate_left(9);
    c.nontrivial = !a.is_empty() && !b.is_empty();
    c.sample = format!("{} and {}", hex(&a), hex(&b));
    let (sa, sb) = (Slice::from_buf(&a), Slice::from_vec(b.clone()));
    let show = || format!("a={} b={}", hex(&a), hex(&b));
    ensure!(sa.size() == a.len() && sa.empty() == a.is_empty() && sa.len() == a.len(), "size/empty of {}", hex(&a));
    ensure!(*sa == a[..] && sa.as_ref() as &[u8] == &a[..] && sa.to_vec() == a, "bytes of {}", hex(&a));
    // order and equality; Miri refuses a memcmp of no bytes at the pointer of an empty Vec, which Rust
    // itself relies on and every libc accepts, so it is not shown comparisons with an empty slice
    if c.scale > 0 || c.nontrivial {
        ensure!((sa == sb) == (a == b) && (sa != sb) == (a != b), "equality says {} for {}", sa == sb, show());
        ensure!(sa.partial_cmp(&sb) == Some(a.cmp(&b)), "order says {:?} for {}", sa.partial_cmp(&sb), show());
        ensure!((sa < sb) == (a < b) && (sa <= sb) == (a <= b) && (sa > sb) == (a > b) && (sa >= sb) == (a >= b), "operators disagree with bytes for {}", show());
        c.ev("comparisons", 1);
        ensure!(sa.starts_with(&sb) == a.starts_with(&b), "starts_with says {} for {}", sa.starts_with(&sb), show());
        if b.len() > a.len() {
            c.ev("prefix longer than the slice", 1);
        }
        if a.starts_with(&b) && b.len() < a.len() && !b.is_empty() {
            c.ev("proper prefixes", 1);
        }
    }
    // parts
    let i = c.rng.below(a.len() + 1);
    let j = c.rng.range(i, a.len());
    ensure!(*sa.remove_prefix(i) == a[i..], "remove_prefix({}) of {}", i, hex(&a));
    ensure!(*sa == a[..], "remove_prefix changed its source");
    ensure!(sa.as_sub_ref(i, j - i) == &a[i..j], "as_sub_ref({}, {}) of {}", i, j - i, hex(&a));
    ensure!(&sa[i..j] == &a[i..j] && &sa[i..] == &a[i..] && &sa[..j] == &a[..j], "ranges {}..{} of {}", i, j, hex(&a));
    if i < a.len() {
        ensure!(sa[i] == a[i], "index {} of {}", i, hex(&a));
    }
    c.ev("ranges", 4);
    // out of range is refused, never read
    let n = a.len();
    let s2 = sa.clone();
    ensure!(no_panic(|| sa[n]).is_err(), "index {} of {} bytes was accepted", n, n);
    ensure!(no_panic(|| sa[i..n + 1].len()).is_err(), "range {}..{} of {} bytes was accepted", i, n + 1, n);
    ensure!(no_panic(|| sa[..n + 1].len()).is_err(), "range ..{} of {} bytes was accepted", n + 1, n);
    ensure!(no_panic(|| sa[n + 1..].len()).is_err(), "range {}.. of {} bytes was accepted", n + 1, n);
    ensure!(no_panic(|| sa.as_sub_ref(i, n + 1 - i).len()).is_err(), "as_sub_ref({}, {}) of {} bytes was accepted", i, n + 1 - i, n);
    ensure!(no_panic(|| sa.remove_prefix(n + 1).size()).is_err(), "remove_prefix({}) of {} bytes was accepted", n + 1, n);
    let (x, y) = (beyond(&mut c.rng, n), beyond(&mut c.rng, n));
    ensure!(no_panic(|| sa[x]).is_err(), "index {} of {} bytes was accepted", x, n);
    ensure!(no_panic(|| sa[i..x].len()).is_err() && no_panic(|| sa[..x].len()).is_err() && no_panic(|| sa[x..].len()).is_err(), "a range from or to {} of {} bytes was accepted", x, n);
    ensure!(no_panic(|| sa.as_sub_ref(i, x).len()).is_err() && no_panic(|| sa.as_sub_ref(x, 0).len()).is_err() && no_panic(|| sa.as_sub_ref(x, y).len()).is_err(), "as_sub_ref with {} or {} of {} bytes was accepted", x, y, n);
    ensure!(no_panic(|| sa.remove_prefix(x).size()).is_err(), "remove_prefix({}) of {} bytes was accepted", x, n);
    ensure!(*s2 == a[..] && *sa == a[..], "clone or source changed");
    // writes
    let mut m = a.clone();
    let mut sm = s2;
    for style in 0..4 {
        let fill = c.rng.bytes(j - i);
        match style {
            0 => sm[i..j].copy_from_slice(&fill),
            1 => {
                let f: Vec<u8> = c.rng.bytes(n - i);
                sm[i..].copy_from_slice(&f);
                m[i..].copy_from_slice(&f);
            }
            2 => {
                let f: Vec<u8> = c.rng.bytes(j);
                sm[..j].copy_from_slice(&f);
                m[..j].copy_from_slice(&f);
            }
            _ => {
                for x in sm.iter_mut() {
                    *x ^= 0x55;
                }
                m.iter_mut().for_each(|x| *x ^= 0x55);
            }
        }
        if style == 0 {
            m[i..j].copy_from_slice(&fill);
        }
        ensure!(*sm == m[..], "write style {} at {}..{} of {} gave {}, expected {}", style, i, j, hex(&a), hex(&sm), hex(&m));
        c.ev("writes through ranges", 1);
    }
    ensure!(no_panic(|| sm[i..n + 1].fill(0)).is_err() && no_panic(|| sm[..n + 1].fill(0)).is_err(), "a write range past {} bytes was accepted", n);
    ensure!(*sm == m[..], "a refused write changed the slice");
    ensure!(*sa == a[..], "writing to a clone changed its source");
    // merge
    let joiner = match c.rng.below(3) {
        0 => None,
        1 => Some(String::new()),
        _ => Some(", ".to_string()),
    };
    let mut sx = Slice::from_buf(&a);
    sx.merge(Slice::from_buf(&b), joiner.clone());
    let mut want = a.clone();
    if !b.is_empty() {
        want.extend(joiner.clone().unwrap_or_default().as_bytes());
        want.extend(&b);
    }
    ensure!(*sx == want[..], "merge of {} with joiner {:?} gave {}", show(), joiner, hex(&sx));
    c.ev("merges", 1);
    // conversions
    let v: Vec<u8> = Slice::from_buf(&a).into();
    ensure!(v == a, "into Vec of {} gave {}", hex(&a), hex(&v));
    let st: String = Slice::from_buf(&a).into();
    ensure!(st.as_bytes() == &a[..], "into String of {} gave {}", hex(&a), hex(st.as_bytes()));
    let lossy = String::from_utf8_lossy(&a).to_string();
    let shown = format!("{}", sa);
    match std::str::from_utf8(&a) {
        Ok(t) => {
            ensure!(shown == t && sa.to_string() == t, "display of {:?} is {:?}", t, shown);
            ensure!(sa.as_str() == t, "as_str of {:?} is {:?}", t, sa.as_str());
            ensure!(sa.borrow_data().as_bytes() == t.as_bytes(), "borrow_data of {:?}", t);
            ensure!(*Slice::from(t) == a[..] && *Slice::from(t.to_string()) == a[..], "from {:?}", t);
        }
        Err(_) => {
            // any text will do, as long as valid parts are kept and nothing panics
            c.ev("non-UTF-8 displays", 1);
            ensure!(std::str::from_utf8(shown.as_bytes()).is_ok(), "display of {} is not text", hex(&a));
            ensure!(shown.is_empty() == lossy.is_empty(), "display of {} is {:?}", hex(&a), shown);
            ensure!(no_panic(|| sa.as_str().len()).is_err(), "as_str accepted {}", hex(&a));
        }
    }
    let t = format!("{}{}{}", padding(&mut c.rng), String::from_utf8_lossy(&a[..a.len().min(40)]), padding(&mut c.rng));
    let st = Slice::from(t.as_str());
    ensure!(*st == t.as_bytes()[..] && *Slice::from(t.clone()) == t.as_bytes()[..] && st.as_str() == t && format!("{}", st) == t && st.borrow_data().as_str() == t, "the text {:?} is not kept: {}", t, hex(&st));
    let st: String = st.into();
    ensure!(st == t, "the text {:?} became {:?}", t, st);
    let d = Slice::default();
    ensure!(d.empty() && d.size() == 0 && *d == [][..], "default slice is not empty");
    // ownership of raw memory
    let boxed: Box<[u8]> = a.clone().into_boxed_slice();
    let len = boxed.len();
    let raw = Box::into_raw(boxed) as *mut u8;
    let owned = unsafe { Slice::from_raw_parts(raw, len) };
    ensure!(*owned == a[..], "from_raw_parts of {} gave {}", hex(&a), hex(&owned));
    Ok(())
}

fn c20_large(c: &mut Ctx) -> R {
    let big = c.by(2000, 3 << 20, 12 << 20);
    let n = match c.rng.below(4) {
        0 => c.rng.range(1, c.by(900, 20_000, 20_000)),
        1 => c.rng.range(1, big),
        2 if c.scale > 0 => 65_530 + c.rng.below(12),
        _ => c.rng.edge_len(big).max(1),
    };
    if n > 1 << 20 {
        c.ev("slices over 1 MiB", 1);
    }
    let a: Vec<u8> = if c.rng.chance(1, 2) { c.rng.bytes(n) } else { vec![c.rng.next() as u8; n] };
    let s = Slice::from_buf(&a);
    c.mix(n as u64 ^ hash_bytes(&a[..n.min(64)]));
    c.nontrivial = true;
    c.sample = format!("{} bytes", n);
    // a late difference, in both directions, and none
    let at = match c.rng.below(3) {
        0 => n - 1,
        1 => n - 1 - c.rng.below(n.min(9)),
        _ => c.rng.below(n),
    };
    let mut b = a.clone();
    b[at] = b[at].wrapping_add(1 + c.rng.below(255) as u8);
    let sb = Slice::from_vec(b.clone());
    c.ev("late differences", (at > 4096) as u64);
    ensure!(s != sb && !(s == sb), "slices of {} bytes that differ at {} are called equal", n, at);
    ensure!(s.partial_cmp(&sb) == Some(a.cmp(&b)) && sb.partial_cmp(&s) == Some(b.cmp(&a)), "slices of {} bytes that differ at {} compare {:?}", n, at, s.partial_cmp(&sb));
    let same = s.clone();
    ensure!(same.size() == n && *same == a[..], "the clone of {} bytes differs", n);
    ensure!(s == same && s.partial_cmp(&same) == Some(std::cmp::Ordering::Equal), "a slice of {} bytes does not equal its clone", n);
    // prefixes
    let k = match c.rng.below(4) {
        0 if n > 65_540 => { c.ev("cuts next to 2^16", 1); 65_533 + c.rng.below(6) }
        1 => n - c.rng.below(n.min(5)),
        _ => c.rng.below(n + 1),
    };
    let head = Slice::from_buf(&a[..k]);
    ensure!(s.starts_with(&head) && (k == n || !head.starts_with(&s)), "{} bytes and their first {}: starts_with is wrong", n, k);
    if k > 0 {
        let mut h = a[..k].to_vec();
        let i = if c.rng.chance(1, 2) { k - 1 } else { c.rng.below(k) };
        h[i] ^= 1 << c.rng.below(8);
        ensure!(!s.starts_with(&Slice::from_buf(&h)), "{} bytes are said to start with {} bytes that differ at {}", n, k, i);
    }
    if k < n && (c.scale > 0 || k > 0) {
        ensure!(head.partial_cmp(&s) == Some(std::cmp::Ordering::Less) && s > head && s != head, "{} bytes and their first {}: order is wrong", n, k);
    }
    ensure!(*s.remove_prefix(k) == a[k..], "remove_prefix({}) of {} bytes", k, n);
    ensure!(&s[k..] == &a[k..] && &s[..k] == &a[..k] && s.as_sub_ref(k, n - k) == &a[k..], "parts of {} bytes at {}", n, k);
    // inverted ranges are refused like those of a vector
    if n > 1 {
        let hi = c.rng.range(1, n);
        let lo = c.rng.below(hi);
        let mut w = s.clone();
        ensure!(no_panic(|| s[hi..lo].len()).is_err(), "the range {}..{} of {} bytes was accepted", hi, lo, n);
        ensure!(no_panic(|| w[hi..lo].fill(1)).is_err(), "the write range {}..{} of {} bytes was accepted", hi, lo, n);
        ensure!(no_panic(|| w[n + 1..].fill(1)).is_err(), "the write range {}.. of {} bytes was accepted", n + 1, n);
        ensure!(*w == a[..], "a refused write changed the slice");
        c.ev("inverted ranges", 1);
    }
    // writes through the whole and a part
    let mut w = s.clone();
    let mut m = a.clone();
    for _ in 0..3 {
        let i = c.rng.below(n);
        w.iter_mut().skip(i).take(3).for_each(|x| *x = !*x);
        m.iter_mut().skip(i).take(3).for_each(|x| *x = !*x);
        w[k..].reverse();
        m[k..].reverse();
        ensure!(w.size() == n && *w == m[..], "writes at {} and from {} of {} bytes went wrong", i, k, n);
    }
    // merge
    let l = c.rng.below(c.by(40, 70_000, 70_000));
    let more = c.rng.bytes(l);
    w.merge(Slice::from_buf(&more), if l % 2 == 0 { None } else { Some("/".into()) });
    if l % 2 == 1 {
        m.push(b'/');
    }
    m.extend(&more);
    ensure!(*w == m[..], "merging {} bytes and {} bytes went wrong", n, l);
    let v: Vec<u8> = w.into();
    ensure!(v == m, "into Vec of {} bytes", m.len());
    // a long slice onto a short or empty one
    let l = c.rng.below(3);
    let mut m = c.rng.bytes(l);
    let mut w = Slice::from_buf(&m);
    let joiner = (*c.rng.pick(&[None, Some(""), Some("/"), Some(", ")])).map(|j: &str| j.to_string());
    m.extend(joiner.clone().unwrap_or_default().as_bytes());
    m.extend_from_slice(&a);
    w.merge(s, joiner.clone());
    ensure!(*w == m[..], "merging {} bytes onto {} with joiner {:?} went wrong", n, l, joiner);
    Ok(())
}

/// Lengths next to 2^31 and 2^32. The memory is untouched zeros, the other operand is short.
fn c20_giant(c: &mut Ctx) -> R {
    use std::cmp::Ordering::*;
    let n = (if c.case % 2 == 0 { 1usize << 32 } else { 1 << 31 }) - 3 + c.rng.below(9);
    c.fp = n as u64;
    c.sample = format!("{} bytes", n);
    let Some(mut v) = giant(n) else {
        return Ok(());
    };
    c.nontrivial = true;
    c.ev("giant slices", 1);
    let end = c.rng.bytes(4);
    v[n - 4..].copy_from_slice(&end);
    let mut s = Slice::from_vec(v);
    ensure!(s.size() == n && s.len() == n && !s.empty(), "a slice of {} bytes says {}", n, s.size());
    for k in 0..12 {
        let short = Slice::from_vec(vec![0; k]);
        ensure!(s != short && short != s, "slices of {} and {} bytes are called equal", n, k);
        ensure!(s.partial_cmp(&short) == Some(Greater) && short.partial_cmp(&s) == Some(Less), "a slice of {} bytes against its first {}: {:?}", n, k, s.partial_cmp(&short));
        ensure!(s.starts_with(&short) && !short.starts_with(&s), "{} bytes and their first {}: starts_with is wrong", n, k);
        if k > 0 {
            let other = Slice::from_vec(vec![1; k]);
            ensure!(s != other && s.partial_cmp(&other) == Some(Less) && other.partial_cmp(&s) == Some(Greater), "a slice of {} zeros against {} ones: {:?}", n, k, s.partial_cmp(&other));
            ensure!(!s.starts_with(&other), "{} zeros are said to start with {} ones", n, k);
        }
        c.ev("comparisons", 1);
    }
    for k in [4, 3, 0] {
        let want = &end[4 - k..];
        ensure!(&s[n - k..] == want && &s[n - k..n] == want && s.as_sub_ref(n - k, k) == want && *s.remove_prefix(n - k) == want[..], "the last {} of {} bytes", k, n);
        ensure!(s[..n - k].len() == n - k, "all but the last {} of {} bytes", k, n);
    }
    ensure!(s[n - 1] == end[3] && s[n - 5] == 0, "bytes at the end of {}", n);
    ensure!(no_panic(|| s[n]).is_err() && no_panic(|| s[n..n + 1].len()).is_err() && no_panic(|| s.as_sub_ref(n - 1, 2).len()).is_err(), "a byte behind {} was accepted", n);
    s[n - 2..].copy_from_slice(b"xy");
    ensure!(&s[n - 4..] == &[end[0], end[1], b'x', b'y'], "writes at the end of {} bytes", n);
    let v: Vec<u8> = s.into();
    ensure!(v.len() == n && v[n - 1] == b'y', "{} bytes became {}", n, v.len());
    Ok(())
}

/// The comparator on operands next to 2^31 and 2^32 bytes.
fn c21_giant(c: &mut Ctx) -> R {
    let cmp = BytewiseComparatorImpl::default();
    let n = (if c.case % 2 == 0 { 1usize << 32 } else { 1 << 31 }) - 3 + c.rng.below(9);
    c.fp = n as u64;
    c.sample = format!("{} bytes", n);
    let Some(v) = giant(n) else {
        return Ok(());
    };
    c.nontrivial = true;
    c.ev("giant operands", 1);
    for k in 0..12 {
        let (zeros, ones) = (vec![0; k], vec![1; k]);
        for q in [&zeros, &ones] {
            let want = if q.first() == Some(&1) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater };
            ensure!(cmp.compare(&v, q) == Some(want) && cmp.compare(q, &v) == Some(want.reverse()), "{} zeros against {}: {:?} and {:?}", n, hex(q), cmp.compare(&v, q), cmp.compare(q, &v));
            c.ev("comparisons", 2);
        }
    }
    Ok(())
}

fn c20_history(c: &mut Ctx) -> R {
    let base = live_bytes();
    {
        let mut pool: Vec<(Slice, Vec<u8>)> = vec![];
        let ops = c.rng.range(3, c.by(20, 60, 120));
        c.nontrivial = ops >= 3;
        c.fp = c.rng.clone().next();
        c.sample = format!("{} operations", ops);
        for _ in 0..ops {
            if pool.is_empty() || c.rng.chance(1, 4) {
                let k = c.rng.key(30);
                pool.push((Slice::from_buf(&k), k));
            }
            let i = c.rng.below(pool.len());
            let n = pool[i].1.len();
            match c.rng.below(9) {
                0 => {
                    let k = c.rng.below(n + 1);
                    let s = pool[i].0.remove_prefix(k);
                    let v = pool[i].1[k..].to_vec();
                    pool.push((s, v));
                }
                1 => {
                    let s = pool[i].0.clone();
                    let v = pool[i].1.clone();
                    pool.push((s, v));
                }
                2 if pool.len() > 1 => {
                    let (s, v) = pool.swap_remove(i);
                    let j = c.rng.below(pool.len());
                    pool[j].0.merge(s, Some("-".into()));
                    if !v.is_empty() {
                        pool[j].1.push(b'-');
                    }
                    pool[j].1.extend(v);
                }
                3 if pool.len() > 1 => {
                    let j = (i + 1) % pool.len();
                    let (x, y) = if i < j { let (a, b) = pool.split_at_mut(j); (&mut a[i], &mut b[0]) } else { let (a, b) = pool.split_at_mut(i); (&mut b[0], &mut a[j]) };
                    std::mem::swap(&mut x.0, &mut y.0);
                    std::mem::swap(&mut x.1, &mut y.1);
                }
                4 if n > 0 => {
                    let k = c.rng.below(n);
                    pool[i].0[k..].reverse();
                    pool[i].1[k..].reverse();
                }
                5 if n > 0 => {
                    let k = c.rng.below(n);
                    let b = c.rng.next() as u8;
                    pool[i].0[k..k + 1].copy_from_slice(&[b]);
                    pool[i].1[k] = b;
                }
                6 => {
                    let (s, v) = pool.swap_remove(i);
                    let t: Vec<u8> = s.into();
                    ensure!(t == v, "into Vec gave {}, expected {}", hex(&t), hex(&v));
                    pool.push((Slice::from_vec(t), v));
                }
                7 => {
                    let (s, v) = pool.swap_remove(i);
                    let t: String = s.into();
                    ensure!(t.as_bytes() == &v[..], "into String gave {}, expected {}", hex(t.as_bytes()), hex(&v));
                }
                _ => {
                    let j = c.rng.below(pool.len());
                    if c.scale == 0 && (n == 0 || pool[j].1.is_empty()) {
                        continue;
                    }
                    ensure!(pool[i].0.partial_cmp(&pool[j].0) == Some(pool[i].1.cmp(&pool[j].1)), "order of {} and {}", hex(&pool[i].1), hex(&pool[j].1));
                }
            }
            c.ev("operations", 1);
            for (s, v) in &pool {
                ensure!(**s == v[..], "a slice holds {}, expected {}", hex(s), hex(v));
            }
        }
        drop(pool);
        c.sample.shrink_to_fit();
    }
    let now = live_bytes();
    ensure!(now <= base + 4096, "{} bytes are still allocated after all slices were dropped", now - base);
    Ok(())
}

// ------------------------------------------------------------------ C21, C22

fn c21_order(c: &mut Ctx) -> R {
    let cmp = BytewiseComparatorImpl::default();
    let big = c.by(600, 70_000, 300_000);
    let (a, b) = pair(&mut c.rng, big);
    let (x, _) = pair(&mut c.rng, 0);
    c.fp = hash_bytes(&a) ^ hash_bytes(&b).rotate_left(9);
    c.nontrivial = !a.is_empty() && !b.is_empty() && a != b;
    c.sample = format!("{} and {}", hex(&a), hex(&b));
    if a != b && (a.starts_with(&b) || b.starts_with(&a)) {
        c.ev("prefix pairs", 1);
        if a.len().min(b.len()) < 256 && a.len().max(b.len()) >= 256 {
            c.ev("prefix pairs around 256", 1);
        }
    }
    if a != b && a.iter().zip(&b).take_while(|(p, q)| p == q).count() >= 256 {
        c.ev("common prefixes of 256 or more", 1);
    }
    if a.iter().any(|y| *y > 0x7f) {
        c.ev("bytes above 0x7f", 1);
    }
    let mut want_of = |p: &Vec<u8>, q: &Vec<u8>| -> R {
        // tight heap blocks: reading past the shorter key is caught
        let (bp, bq): (Box<[u8]>, Box<[u8]>) = (p.clone().into_boxed_slice(), q.clone().into_boxed_slice());
        let got = cmp.compare(&bp, &bq);
        c.ev("comparisons", 1);
        ensure!(got == Some(p.cmp(q)), "compare({}, {}) = {:?}, expected {:?}", hex(p), hex(q), got, p.cmp(q));
        Ok(())
    };
    for p in [&a, &b, &x] {
        for q in [&a, &b, &x] {
            want_of(p, q)?;
        }
    }
    c.ev("triples", 1);
    // operands that are parts of the same memory
    for m in [&a, &b] {
        for _ in 0..4 {
            let (i, j) = (c.rng.below(m.len() + 1), c.rng.below(m.len() + 1));
            let (k, l) = (c.rng.below(m.len() - i + 1), c.rng.below(m.len() - j + 1));
            for (p, q) in [(&m[i..i + k], &m[j..j + l]), (&m[i..], &m[i..i + k]), (&m[..i], &m[i..])] {
                let got = cmp.compare(p, q);
                ensure!(got == Some(p.cmp(q)), "compare({}, {}) of parts of the same key = {:?}, expected {:?}", hex(p), hex(q), got, p.cmp(q));
                c.ev("comparisons within one key", 1);
            }
        }
    }
    ensure!(cmp.get_name() == "leveldb.BytewiseComparator", "comparator name is {}", cmp.get_name());
    Ok(())
}

/// LevelDB's FindShortestSeparator
fn ref_separator(start: &[u8], limit: &[u8]) -> Vec<u8> {
    let n = start.len().min(limit.len());
    let i = start.iter().zip(limit).take_while(|(a, b)| a == b).count();
    if i < n && start[i] < 0xff && start[i] + 1 < limit[i] {
        let mut s = start[..=i].to_vec();
        s[i] += 1;
        return s;
    }
    start.to_vec()
}

fn as_string(b: &[u8]) -> String {
    Slice::from_buf(b).into()
}

fn check_separator(c: &mut Ctx, start: &[u8], limit: &[u8]) -> R {
    let cmp = BytewiseComparatorImpl::default();
    let sep = cmp.find_shortest_separator(&as_string(start), &Slice::from_buf(limit));
    let s = sep.as_bytes();
    c.ev("separators", 1);
    if start.starts_with(limit) || limit.starts_with(start) {
        c.ev("prefix pairs", 1);
    }
    if start < limit {
        ensure!(s >= start, "separator {} of {} and {} is below the start", hex(s), hex(start), hex(limit));
        ensure!(s < limit, "separator {} of {} and {} is not below the limit", hex(s), hex(start), hex(limit));
        ensure!(s.len() <= start.len(), "separator {} of {} and {} is longer than the start", hex(s), hex(start), hex(limit));
        let w = ref_separator(start, limit);
        ensure!(s.len() <= w.len(), "separator {} of {} and {} is longer than LevelDB's {}", hex(s), hex(start), hex(limit), hex(&w));
        if s.len() < start.len() {
            c.ev("shortened separators", 1);
        }
    }
    Ok(())
}

fn c22_separator(c: &mut Ctx) -> R {
    let style = c.rng.below(4);
    let (a, b) = if style < 2 {
        // common prefix, then one differing byte chosen adjacent or apart, then tails
        let pre = c.rng.key(10);
        let x = c.rng.next() as u8;
        let gap = *c.rng.pick(&[1u8, 1, 2, 3, 80, 0xff]);
        let y = x.saturating_add(gap);
        if y == x.saturating_add(1) {
            c.ev("adjacent bytes", 1);
        }
        let (mut a, mut b) = (pre.clone(), pre);
        a.push(x);
        b.push(y);
        // tails of very different lengths, too
        let (la, lb) = match c.rng.below(8) {
            0 => (2, 300),
            1 => (300, 2),
            2 => (0, 40),
            3 => (40, 0),
            _ => (12, 4),
        };
        a.extend(c.rng.key(la));
        b.extend(c.rng.key(lb));
        (a, b)
    } else {
        let big = c.by(600, 70_000, 300_000);
        pair(&mut c.rng, big)
    };
    c.fp = hash_bytes(&a) ^ hash_bytes(&b).rotate_left(9);
    c.nontrivial = a < b && !a.is_empty();
    c.sample = format!("{} and {}", hex(&a), hex(&b));
    check_separator(c, &a, &b)?;
    check_separator(c, &b, &a)
}

const ALPHA: [u8; 10] = [0, 1, 2, 0x61, 0x62, 0x63, 0x7f, 0x80, 0xfe, 0xff];

fn small_key(mut n: usize) -> Vec<u8> {
    // 0 -> "", 1..=10 one byte, 11..=110 two bytes, 111..=1110 three bytes
    let mut len = 0;
    let mut block = 1;
    while n >= block {
        n -= block;
        block *= 10;
        len += 1;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push(ALPHA[n % 10]);
        n /= 10;
    }
    v
}

fn c22_exhaustive(c: &mut Ctx) -> R {
    let a = small_key(c.case as usize);
    let total = c.by(11, 111, 1111);
    c.fp = c.case;
    c.nontrivial = true;
    c.sample = format!("start {} against all {} limits", hex(&a), total);
    for j in 0..total {
        check_separator(c, &a, &small_key(j))?;
    }
    check_successor(c, &a)
}

fn check_successor(c: &mut Ctx, k: &[u8]) -> R {
    let cmp = BytewiseComparatorImpl::default();
    let s = cmp.find_short_successor(&as_string(k));
    let s = s.as_bytes();
    c.ev("successors", 1);
    ensure!(s >= k, "successor {} of {} is below it", hex(s), hex(k));
    ensure!(s.len() <= k.len(), "successor {} of {} is longer", hex(s), hex(k));
    let want = match k.iter().position(|b| *b != 0xff) {
        Some(i) => i + 1,
        None => k.len(),
    };
    ensure!(s.len() <= want, "successor {} of {} is longer than LevelDB's, which has {} bytes", hex(s), hex(k), want);
    Ok(())
}

fn c22_successor(c: &mut Ctx) -> R {
    let mut k = c.rng.key(20);
    if c.rng.chance(1, 3) {
        let n = if c.rng.chance(1, 8) { let b = c.by(300, 5000, 70_000); c.rng.edge_len(b) } else { c.rng.below(6) };
        let mut f = vec![0xff; n];
        if c.rng.chance(1, 2) {
            f.extend(&k);
        }
        k = f;
    }
    if !k.is_empty() && k.iter().all(|b| *b == 0xff) {
        c.ev("keys of 0xff only", 1);
    }
    c.fp = hash_bytes(&k);
    c.nontrivial = !k.is_empty();
    c.sample = hex(&k);
    check_successor(c, &k)
}

// ------------------------------------------------------------------ C23

fn c23_any(c: &mut Ctx) -> R {
    let n = { let b = c.by(60, 5000, 50000); len_class(&mut c.rng, b) };
    let mut data = c.rng.bytes(n);
    if c.rng.chance(1, 3) {
        data.iter_mut().for_each(|b| *b |= 0x80);
    }
    if n % 4 != 0 && data[n - n % 4..].iter().any(|b| *b >= 0x80) {
        c.ev("high bytes in the tail", 1);
    }
    let align = c.rng.below(16);
    let (buf, off) = at_align(&data, align);
    let d = &buf[off..off + n];
    let seed = if c.rng.chance(1, 3) { 0xbc9f_1d34 } else { c.rng.edgy32() };
    c.fp = hash_bytes(&data) ^ seed as u64;
    c.nontrivial = n >= 4;
    c.sample = format!("{} bytes at alignment {}, seed {:08x}", n, align, seed);
    let want = refs::ldb_hash(&data, seed);
    let got = Hash::hash_code(d, seed);
    ensure!(got == want, "hash of {} under {:08x} is {:08x}, LevelDB's is {:08x}", hex(&data), seed, got, want);
    let default = refs::ldb_hash(&data, 0xbc9f_1d34);
    let sl = Slice::from_buf(&data);
    ensure!(d.to_hash_with_seed(seed) == want && d.to_hash() == default, "hash of a byte slice of {} bytes differs", n);
    ensure!(data.to_hash_with_seed(seed) == want && data.to_hash() == default, "hash of a Vec<u8> of {} bytes differs", n);
    ensure!(ToHash::to_hash_with_seed(&sl, seed) == want && ToHash::to_hash(&sl) == default, "hash of a Slice of {} bytes differs", n);
    ensure!(BloomFilterPolicy::bloom_hash(&sl) == default && AsBloomHash::bloom_hash(&sl) == default, "bloom hash of {} bytes differs", n);
    let words: Vec<u32> = data.chunks_exact(4).map(|w| u32::from_ne_bytes([w[0], w[1], w[2], w[3]])).collect();
    let ww = refs::ldb_hash(&data[..words.len() * 4], seed);
    ensure!(words.to_hash_with_seed(seed) == ww && ToHash::to_hash_with_seed(&&words[..], seed) == ww, "hash of {} u32 words is not that of their bytes", words.len());
    macro_rules! of {
        ($($t:ty),*) => {$(
            let v: Vec<$t> = elements(&data);
            let (w, wd) = { let b = &data[..v.len() * size_of::<$t>()]; (refs::ldb_hash(b, seed), refs::ldb_hash(b, 0xbc9f_1d34)) };
            ensure!(v.to_hash_with_seed(seed) == w && v.to_hash() == wd, "hash of {} elements of type {} is not that of their bytes", v.len(), stringify!($t));
            ensure!(ToHash::to_hash_with_seed(&&v[..], seed) == w && ToHash::to_hash(&&v[..]) == wd, "hash of {} elements of type {} is not that of their bytes", v.len(), stringify!($t));
            c.ev("element types", 1);
        )*}
    }
    if c.case % 3 == 0 {
        of!(i8, u16, u64, u128, f64, [u8; 2], [u8; 3], [u8; 7], [u8; 12], [u16; 5], [u32; 9]);
    }
    let text: String = data.iter().map(|b| (b' ' + b % 95) as char).collect();
    let tw = refs::ldb_hash(text.as_bytes(), seed);
    let td = refs::ldb_hash(text.as_bytes(), 0xbc9f_1d34);
    ensure!(text.to_hash_with_seed(seed) == tw && text.to_hash() == td, "hash of a String of {} bytes differs", n);
    ensure!(ToHash::to_hash_with_seed(&text.as_str(), seed) == tw && ToHash::to_hash(&text.as_str()) == td, "hash of a str of {} bytes differs", n);
    for text in [format!("{}{}{}", padding(&mut c.rng), text, padding(&mut c.rng)), padding(&mut c.rng)] {
        let (tw, td) = (refs::ldb_hash(text.as_bytes(), seed), refs::ldb_hash(text.as_bytes(), 0xbc9f_1d34));
        ensure!(text.to_hash_with_seed(seed) == tw && text.to_hash() == td && ToHash::to_hash_with_seed(&text.as_str(), seed) == tw && ToHash::to_hash(&text.as_str()) == td, "hash of the text {:?} is not that of its bytes", text);
        c.ev("padded texts", 1);
    }
    c.ev("hashes", 19);
    Ok(())
}

fn c23_large(c: &mut Ctx) -> R {
    let seed = if c.rng.chance(1, 2) { 0xbc9f_1d34 } else { c.rng.edgy32() };
    if c.case == 5 && !cfg!(debug_assertions) {
        let n = (1usize << 32) + c.rng.below(9);
        if let Some(mut v) = giant(n) {
            let tail = c.rng.bytes(20);
            v[n - 20..].copy_from_slice(&tail);
            c.fp = n as u64 ^ seed as u64;
            c.nontrivial = true;
            c.sample = format!("{} bytes, seed {:08x}", n, seed);
            let (g, w) = (Hash::hash_code(&v, seed), refs::ldb_hash(&v, seed));
            ensure!(g == w, "hash of {} bytes under {:08x} is {:08x}, LevelDB's is {:08x}", n, seed, g, w);
            c.ev("hashes", 1);
            return Ok(());
        }
    }
    let n = if c.case % 2 == 0 { (1usize << (14 + c.case / 2 % 12)) - 5 + c.rng.below(11) } else { c.rng.range(1, 3 << 20) };
    let data = c.rng.bytes(n);
    c.mix(n as u64 ^ (seed as u64) << 32);
    c.nontrivial = true;
    c.sample = format!("{} bytes, seed {:08x}", n, seed);
    let want = refs::ldb_hash(&data, seed);
    ensure!(Hash::hash_code(&data, seed) == want, "hash of {} bytes under {:08x} is {:08x}, LevelDB's is {:08x}", n, seed, Hash::hash_code(&data, seed), want);
    ensure!(data.to_hash_with_seed(seed) == want, "hash of a Vec<u8> of {} bytes differs", n);
    let sl = Slice::from_vec(data);
    ensure!(ToHash::to_hash_with_seed(&sl, seed) == want, "hash of a Slice of {} bytes differs", n);
    ensure!(AsBloomHash::bloom_hash(&sl) == refs::ldb_hash(&sl, 0xbc9f_1d34), "bloom hash of {} bytes differs", n);
    c.ev("hashes", 4);
    c.ev("data over 1 MiB", (n > 1 << 20) as u64);
    Ok(())
}

// ------------------------------------------------------------------ C24, C25

/// A filter of millions of bits, in case 1 around 2^32 bits: (keys, capacity, bits per key)
fn giant_set(c: &mut Ctx) -> (Vec<Vec<u8>>, usize, usize) {
    let bpk = *c.rng.pick(&[1usize, 3, 5, 8, 10, 16, 44]);
    let bits = if c.case == 1 { (1usize << 32) + 8 * c.rng.below(1 << 20) } else if c.case == 2 { (1usize << 31) + 8 * c.rng.below(1 << 20) } else { (1 << 24) + 8 * c.rng.below(1 << 22) };
    let n = c.rng.range(100, 3000);
    let keys: Vec<Vec<u8>> = (0..n).map(|_| c.rng.key(20)).collect();
    c.fp = keys.iter().fold(bits as u64, |a, k| a.rotate_left(5) ^ hash_bytes(k));
    c.sample = format!("{} keys with room for {} at {} bits per key", n, bits / bpk, bpk);
    (keys, bits / bpk, bpk)
}

fn c24_giant(c: &mut Ctx) -> R {
    let (keys, cap, bpk) = giant_set(c);
    if c.case == 1 && giant(1 << 31).is_none() {
        return Ok(());
    }
    c.nontrivial = true;
    let slices: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
    let p = BloomFilterPolicy::new_with_bits_per_key(bpk);
    let filter = p.create_filter_with_len(cap, slices.iter().collect());
    c.ev("filters of more than 2^24 bits", (filter.size() > 1 << 21) as u64);
    // every question copies the filter
    let some = if filter.size() > 1 << 27 { 6 } else { 150 };
    for i in 0..some {
        let k = (i * 37 + c.case as usize) % keys.len();
        ensure!(p.key_may_match(&slices[k], &filter), "key {} is in the set, but the filter of {} bytes denies it", hex(&keys[k]), filter.size());
        c.ev("members queried", 1);
    }
    Ok(())
}

fn c25_giant(c: &mut Ctx) -> R {
    let (keys, cap, bpk) = giant_set(c);
    if c.case == 1 && giant(1 << 31).is_none() {
        return Ok(());
    }
    c.nontrivial = true;
    let slices: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
    let p = BloomFilterPolicy::new_with_bits_per_key(bpk);
    let filter = p.create_filter_with_len(cap, slices.iter().collect());
    let bits = refs::bloom_bits(cap, bpk);
    ensure!(filter.size() == bits / 8 + 1, "filter for {} keys at {} bits per key has {} bytes, expected {}", cap, bpk, filter.size(), bits / 8 + 1);
    let k = filter[filter.size() - 1];
    let mut want: HashSet<usize> = HashSet::new();
    for key in &keys {
        let mut h = refs::ldb_hash(key, 0xbc9f_1d34);
        let delta = h.rotate_right(17);
        for _ in 0..k {
            let b = h as usize % bits;
            ensure!(filter[b / 8] & (1 << (b % 8)) != 0, "bit {} of {} belongs to key {}, but is not set", b, bits, hex(key));
            want.insert(b);
            h = h.wrapping_add(delta);
        }
    }
    let set: usize = filter[..bits / 8].chunks(8).map(|w| if w.iter().all(|b| *b == 0) { 0 } else { w.iter().map(|b| b.count_ones() as usize).sum() }).sum();
    ensure!(set == want.len(), "{} bits of {} are set, expected {}", set, bits, want.len());
    c.ev("filters compared", 1);
    c.ev("filters of more than 2^24 bits", (bits > 1 << 24) as u64);
    for _ in 0..if bits > 1 << 30 { 4 } else { 40 } {
        let q = c.rng.key(20);
        let mut h = refs::ldb_hash(&q, 0xbc9f_1d34);
        let delta = h.rotate_right(17);
        let mut w = true;
        for _ in 0..k {
            w &= want.contains(&(h as usize % bits));
            h = h.wrapping_add(delta);
        }
        ensure!(p.key_may_match(&Slice::from_buf(&q), &filter) == w, "key {} in a filter of {} bits matches: {}, by the probe bits: {}", hex(&q), bits, !w, w);
        c.ev("non-members queried", 1);
    }
    Ok(())
}

fn key_set(c: &mut Ctx) -> Vec<Vec<u8>> {
    let top = c.by(20, 300, 1000);
    let n = match c.rng.below(12) {
        0 => 0,
        1 => 1,
        2..=4 => c.rng.below(8),
        5..=10 => c.rng.below(top),
        _ => c.rng.range(1000, c.by(1001, 4000, 20000)),
    };
    let style = c.rng.below(3);
    let base = c.rng.u32();
    let mut v: Vec<Vec<u8>> = (0..n)
        .map(|i| match style {
            0 => (base.wrapping_add(i as u32)).to_le_bytes().to_vec(),
            1 => c.rng.key(30),
            _ => format!("key{:08}", base as u64 + i as u64 * 7).into_bytes(),
        })
        .collect();
    if n > 3 && c.rng.chance(1, 2) {
        v[1] = v[0].clone();
        v[2] = vec![];
        let long = c.rng.range(100, 3000);
        v[3] = c.rng.bytes(long);
    }
    v
}

fn policy(c: &mut Ctx) -> (BloomFilterPolicy, usize) {
    if c.rng.chance(1, 4) {
        return (BloomFilterPolicy::new(), 10);
    }
    let b = *c.rng.pick(&[0usize, 1, 2, 3, 4, 6, 8, 10, 12, 16, 20, 32, 43, 44, 64, 100, 128, 500, 800]);
    let b = if c.rng.chance(1, 3) { c.rng.below(70) } else { b };
    (BloomFilterPolicy::new_with_bits_per_key(b), b)
}

/// sets of tens of thousands of keys, in filters of up to some million bits
fn c24_many(c: &mut Ctx) -> R {
    let n = c.rng.range(c.by(500, 5_000, 20_000), c.by(1000, 60_000, 400_000));
    let bpk = c.rng.range(1, 40);
    let stride = c.rng.next() | 1;
    // spread, or one after the other behind a common beginning
    let style = c.rng.below(4);
    let (stride, first) = if style == 0 { (stride, 0) } else { (stride % 7 | 1, c.rng.below(1 << 24) as u64) };
    let keys: Vec<Vec<u8>> = (0..n as u64)
        .map(|i| i.wrapping_mul(stride).wrapping_add(first))
        .map(|i| match style {
            0 | 1 => i.to_be_bytes().to_vec(),
            2 => format!("user{:012}", i).into_bytes(),
            _ => format!("/data/{}/{}.ldb", i / 100, i % 100).into_bytes(),
        })
        .collect();
    let slices: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
    let p = BloomFilterPolicy::new_with_bits_per_key(bpk);
    let pol: &dyn FilterPolicy = &p;
    c.mix(n as u64 ^ mix64(stride) ^ (bpk as u64) << 40);
    c.nontrivial = true;
    c.sample = format!("{} keys at {} bits per key", n, bpk);
    let filter = if c.rng.chance(2, 3) { pol.create_filter(slices.iter().collect()) } else { pol.create_filter_with_len(n + c.rng.below(n), slices.iter().collect()) };
    if filter.size() > 1 << 17 {
        c.ev("filters of more than 2^20 bits", 1);
    }
    // every question copies the filter
    let step = n * filter.size() / c.by(1 << 20, 1 << 29, 1 << 30) + 1;
    let first = c.rng.below(step);
    for (i, s) in slices.iter().enumerate().skip(first).step_by(step) {
        ensure!(pol.key_may_match(s, &filter), "key {} of {} is in the set, but the filter at {} bits per key denies it", i, n, bpk);
        c.ev("members queried", 1);
    }
    // of all the others those that LevelDB's probes do not find
    for (i, k) in keys.iter().enumerate() {
        if !refs::bloom_match(k, &filter) {
            c.ev("keys LevelDB would deny", 1);
            ensure!(pol.key_may_match(&slices[i], &filter), "key {} of {}, {}, is in the set, but the filter at {} bits per key denies it", i, n, hex(k), bpk);
        }
    }
    c.ev("members probed", n as u64);
    Ok(())
}

fn c24_members(c: &mut Ctx) -> R {
    let keys = key_set(c);
    let (p, bpk) = policy(c);
    let pol: &dyn FilterPolicy = &p;
    c.fp = keys.iter().fold(bpk as u64, |a, k| a.rotate_left(5) ^ hash_bytes(k));
    c.nontrivial = !keys.is_empty();
    c.sample = format!("{} keys at {} bits per key", keys.len(), bpk);
    if keys.len() >= 1000 {
        c.ev("sets of 1000 or more", 1);
    }
    let slices: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
    let filter = if c.rng.chance(1, 2) {
        pol.create_filter(slices.iter().collect())
    } else {
        // the capacity sizes the filter; it may be below or above the number of keys
        let cap = match c.rng.below(3) {
            0 => keys.len(),
            1 => c.rng.below(keys.len() + 1),
            _ => keys.len() + c.rng.below(300),
        };
        if cap < keys.len() {
            c.ev("capacities below the key count", 1);
        }
        pol.create_filter_with_len(cap, slices.iter().collect())
    };
    for (k, s) in keys.iter().zip(&slices) {
        if k.is_empty() {
            c.ev("empty keys", 1);
        }
        c.ev("members queried", 1);
        ensure!(pol.key_may_match(s, &filter), "key {} is in the set of {} keys at {} bits per key, but the filter denies it", hex(k), keys.len(), bpk);
    }
    // the filter inside a larger block, cut out again
    let mut block = c.rng.bytes(5);
    block.extend_from_slice(&filter);
    block.extend(c.rng.bytes(3));
    let cut = Slice::from_buf(&block[5..5 + filter.size()]);
    for s in slices.iter().step_by(7) {
        ensure!(pol.key_may_match(s, &cut), "key {} is denied after the filter was copied", hex(s));
    }
    // another policy reads the same filter: the probe count is in the filter
    let other = BloomFilterPolicy::new_with_bits_per_key(c.rng.below(60));
    for s in slices.iter().step_by(5) {
        ensure!(other.key_may_match(s, &filter), "key {} is denied by a policy with other settings", hex(s));
    }
    Ok(())
}

fn c25_format(c: &mut Ctx) -> R {
    let keys = key_set(c);
    let (p, bpk) = policy(c);
    let pol: &dyn FilterPolicy = &p;
    c.fp = keys.iter().fold(bpk as u64, |a, k| a.rotate_left(5) ^ hash_bytes(k));
    c.nontrivial = !keys.is_empty();
    c.sample = format!("{} keys at {} bits per key", keys.len(), bpk);
    let slices: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
    let cap = match c.rng.below(6) {
        0 => keys.len() + c.rng.below(20),
        1 => keys.len() + c.rng.below(600),
        2 => c.rng.below(keys.len() + 1),
        _ => keys.len(),
    };
    let filter = if cap == keys.len() { pol.create_filter(slices.iter().collect()) } else { pol.create_filter_with_len(cap, slices.iter().collect()) };
    let bits = refs::bloom_bits(cap, bpk);
    ensure!(filter.size() == bits / 8 + 1, "filter for {} keys at {} bits per key has {} bytes, expected {}", cap, bpk, filter.size(), bits / 8 + 1);
    let k = filter[filter.size() - 1];
    ensure!((1..=30).contains(&k), "probe count {} at {} bits per key", k, bpk);
    ensure!(p.from_k() == k as usize && p.from_bits_per_key() == bpk, "the policy reports {} probes and {} bits per key, the filter {} and {}", p.from_k(), p.from_bits_per_key(), k, bpk);
    // near the optimum ln 2 * bits, whichever way it is rounded
    let best = (bpk as f64 * 0.69).clamp(1.0, 30.0);
    ensure!((k as f64 - best).abs() <= 1.0, "probe count {} at {} bits per key is far from the optimum {:.2}", k, bpk, best);
    let want = refs::bloom_create(&keys, bits, k);
    ensure!(*filter == want[..], "filter of {} keys at {} bits per key with {} probes differs from LevelDB's: {} instead of {}", keys.len(), bpk, k, hex(&filter), hex(&want));
    c.ev("filters compared", 1);
    for _ in 0..40 {
        let q = c.rng.key(20);
        let (g, w) = (pol.key_may_match(&Slice::from_buf(&q), &filter), refs::bloom_match(&q, &want));
        ensure!(g == w, "key {} matches: {}, by the probe bits: {}", hex(&q), g, w);
        c.ev("non-members queried", 1);
    }
    ensure!(pol.name() == "leveldb.BuiltinBloomFilter", "policy name is {}", pol.name());
    Ok(())
}

fn c25_foreign(c: &mut Ctx) -> R {
    let n = c.rng.below(40);
    let mut f = match c.rng.below(3) {
        0 => c.rng.bytes(n),
        1 => (0..n).map(|_| c.rng.next() as u8 | c.rng.next() as u8 | c.rng.next() as u8).collect(),
        _ => {
            let keys: Vec<Vec<u8>> = (0..c.rng.range(1, 20)).map(|_| c.rng.key(10)).collect();
            let bits = 8 * c.rng.range(1, 40);
            let k = c.rng.below(34) as u8;
            refs::bloom_create(&keys, bits, k)
        }
    };
    if f.len() > 1 && c.rng.chance(1, 2) {
        let l = f.len() - 1;
        f[l] = c.rng.range(0, 40) as u8;
    }
    c.fp = hash_bytes(&f);
    c.nontrivial = f.len() >= 2;
    c.sample = format!("filter {}", hex(&f));
    c.ev("foreign filters", 1);
    if f.len() < 2 {
        c.ev("too short filters", 1);
    } else if f[f.len() - 1] > 30 {
        c.ev("reserved probe counts", 1);
    }
    let pol = BloomFilterPolicy::new_with_bits_per_key(c.rng.below(30));
    let fs = Slice::from_vec(f.clone().into_boxed_slice().into_vec());
    for _ in 0..12 {
        let q = c.rng.key(12);
        let (g, w) = (pol.key_may_match(&Slice::from_buf(&q), &fs), refs::bloom_match(&q, &f));
        ensure!(g == w, "key {} against filter {} matches: {}, by the format: {}", hex(&q), hex(&f), g, w);
    }
    Ok(())
}

fn c25_rate(c: &mut Ctx) -> R {
    let n = *c.rng.pick(&[1000usize, 3000, 10000]);
    let bpk = c.rng.range(8, 20);
    let mut keys: HashSet<Vec<u8>> = HashSet::new();
    while keys.len() < n {
        keys.insert(c.rng.bytes(12));
    }
    let slices: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
    c.fp = c.case;
    c.nontrivial = true;
    let pol = BloomFilterPolicy::new_with_bits_per_key(bpk);
    let filter = pol.create_filter(slices.iter().collect());
    let k = if filter.size() > 0 { filter[filter.size() - 1] as f64 } else { 0.0 };
    let tries = 20000;
    let mut hits = 0u64;
    for _ in 0..tries {
        let q = c.rng.bytes(13);
        if pol.key_may_match(&Slice::from_buf(&q), &filter) {
            hits += 1;
        }
    }
    c.ev("non-members queried", tries);
    c.ev("false matches", hits);
    // theory (1 - e^(-k/bpk))^k, times 2 for the double hashing, plus six standard deviations and 1%
    let theory = (1.0 - (-k / bpk as f64).exp()).powf(k);
    let bound = 2.0 * theory + 0.01 + 6.0 * (theory / tries as f64).sqrt();
    let rate = hits as f64 / tries as f64;
    c.sample = format!("{} keys at {} bits per key: {:.4} false matches, bound {:.4}", n, bpk, rate, bound);
    ensure!(rate <= bound, "{} keys at {} bits per key: {} of {} fresh keys match, bound {:.4}", n, bpk, hits, tries, bound);
    Ok(())
}

#[allow(dead_code)]
fn _order(_: Ordering) {}
