//! Independent reference implementations, written from the LevelDB format documents.

/// CRC-32C (Castagnoli), reflected, one bit at a time.
pub fn crc32c_bitwise(init: u32, data: &[u8]) -> u32 {
    let mut c = !init;
    for &b in data {
        c ^= b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
        }
    }
    !c
}

fn table() -> &'static [u32; 256] {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
            }
            *e = c;
        }
        t
    })
}

/// the same, a byte at a time, for long data
pub fn crc32c(init: u32, data: &[u8]) -> u32 {
    let t = table();
    let mut c = !init;
    for &b in data {
        c = t[((c ^ b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

/// the checksum extended by n zero bytes, by squaring the step as a matrix over bits
pub fn crc32c_zeros(init: u32, mut n: usize) -> u32 {
    let apply = |m: &[u32; 32], v: u32| (0..32).filter(|i| v >> i & 1 != 0).fold(0, |a, i| a ^ m[i]);
    let mut m = [0u32; 32];
    for (i, e) in m.iter_mut().enumerate() {
        let c = 1u32 << i;
        *e = table()[(c & 0xff) as usize] ^ (c >> 8);
    }
    let mut c = !init;
    while n > 0 {
        if n & 1 != 0 {
            c = apply(&m, c);
        }
        let mut sq = [0u32; 32];
        for i in 0..32 {
            sq[i] = apply(&m, m[i]);
        }
        m = sq;
        n >>= 1;
    }
    !c
}

pub fn mask(c: u32) -> u32 {
    c.rotate_right(15).wrapping_add(0xa282_ead8)
}

/// LevelDB's Hash(data, n, seed)
pub fn ldb_hash(data: &[u8], seed: u32) -> u32 {
    const M: u32 = 0xc6a4_a793;
    let mut h = seed ^ (data.len() as u32).wrapping_mul(M);
    let mut it = data.chunks_exact(4);
    for w in &mut it {
        h = h.wrapping_add(u32::from_le_bytes([w[0], w[1], w[2], w[3]]));
        h = h.wrapping_mul(M);
        h ^= h >> 16;
    }
    let rest = it.remainder();
    if !rest.is_empty() {
        for (i, b) in rest.iter().enumerate() {
            h = h.wrapping_add((*b as u32) << (8 * i));
        }
        h = h.wrapping_mul(M);
        h ^= h >> 24;
    }
    h
}

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

pub fn varint_len(v: u64) -> usize {
    let mut t = vec![];
    put_varint(&mut t, v);
    t.len()
}

/// (value, length) of a well-terminated varint of at most `max` bytes. `exact` is false if bits were
/// shifted out of the type.
pub fn get_varint(data: &[u8], bits: u32) -> Option<(u64, usize, bool)> {
    let max = if bits == 32 { 5 } else { 10 };
    let mut v: u128 = 0;
    for i in 0..max.min(data.len()) {
        v |= ((data[i] & 0x7f) as u128) << (7 * i);
        if data[i] & 0x80 == 0 {
            let lim = (1u128 << bits) - 1;
            return Some(((v & lim) as u64, i + 1, v <= lim));
        }
    }
    None
}

// ------------------------------------------------------------------ write-ahead log

pub const BLOCK: usize = 32768;
pub const HEADER: usize = 7;

#[derive(Clone, Debug)]
pub struct Rec {
    /// file offset of the header of its first fragment
    pub start: usize,
    /// file offset just behind its last fragment
    pub end: usize,
    /// (header offset, payload length, type)
    pub frags: Vec<(usize, usize, u8)>,
}

/// Appends `data` as LevelDB's log::Writer does.
pub fn log_append(out: &mut Vec<u8>, data: &[u8]) -> Rec {
    let mut frags = vec![];
    let mut left = data;
    let mut begin = true;
    loop {
        let room = BLOCK - out.len() % BLOCK;
        if room < HEADER {
            out.extend(std::iter::repeat(0).take(room));
        }
        let avail = BLOCK - out.len() % BLOCK - HEADER;
        let n = left.len().min(avail);
        let end = n == left.len();
        let t: u8 = match (begin, end) {
            (true, true) => 1,
            (true, false) => 2,
            (false, true) => 4,
            (false, false) => 3,
        };
        frags.push((out.len(), n, t));
        let c = mask(crc32c(crc32c(0, &[t]), &left[..n]));
        out.extend_from_slice(&c.to_le_bytes());
        out.extend_from_slice(&(n as u16).to_le_bytes());
        out.push(t);
        out.extend_from_slice(&left[..n]);
        left = &left[n..];
        begin = false;
        if end {
            break;
        }
    }
    Rec { start: frags[0].0, end: out.len(), frags }
}

pub fn log_file(recs: &[Vec<u8>]) -> (Vec<u8>, Vec<Rec>) {
    let mut out = vec![];
    let lay = recs.iter().map(|r| log_append(&mut out, r)).collect();
    (out, lay)
}

// ------------------------------------------------------------------ bloom filter

pub fn bloom_bits(n: usize, bits_per_key: usize) -> usize {
    let bits = (n * bits_per_key).max(64);
    (bits + 7) / 8 * 8
}

pub fn bloom_create(keys: &[Vec<u8>], bits: usize, k: u8) -> Vec<u8> {
    let mut f = vec![0u8; bits / 8];
    for key in keys {
        let mut h = ldb_hash(key, 0xbc9f_1d34);
        let delta = h.rotate_right(17);
        for _ in 0..k {
            let p = h as usize % bits;
            f[p / 8] |= 1 << (p % 8);
            h = h.wrapping_add(delta);
        }
    }
    f.push(k);
    f
}

pub fn bloom_match(key: &[u8], filter: &[u8]) -> bool {
    if filter.len() < 2 {
        return false;
    }
    let bits = (filter.len() - 1) * 8;
    let k = filter[filter.len() - 1];
    if k > 30 {
        return true;
    }
    let mut h = ldb_hash(key, 0xbc9f_1d34);
    let delta = h.rotate_right(17);
    for _ in 0..k {
        let p = h as usize % bits;
        if filter[p / 8] & (1 << (p % 8)) == 0 {
            return false;
        }
        h = h.wrapping_add(delta);
    }
    true
}

/// A check of the references themselves against published vectors: if this fails the harness is
/// broken and no verdict is given.
pub fn self_check() {
    assert_eq!(crc32c_bitwise(0, b"123456789"), 0xe306_9283);
    assert_eq!(crc32c_bitwise(0, &[0u8; 32]), 0x8a91_36aa);
    assert_eq!(crc32c(0, b"123456789"), 0xe306_9283);
    assert_eq!(crc32c_zeros(77, 1234), crc32c(77, &[0; 1234]));
    // leveldb/util/hash_test.cc
    assert_eq!(ldb_hash(&[], 0xbc9f1d34), 0xbc9f1d34);
    assert_eq!(ldb_hash(&[0x62], 0xbc9f1d34), 0xef1345c4);
    assert_eq!(ldb_hash(&[0xc3, 0x97], 0xbc9f1d34), 0x5b663814);
    assert_eq!(ldb_hash(&[0xe2, 0x99, 0xa5], 0xbc9f1d34), 0x323c078f);
    assert_eq!(ldb_hash(&[0xe1, 0x80, 0xb9, 0x32], 0xbc9f1d34), 0xed21633a);
    assert_eq!(mask(0), 0xa282_ead8);
}
