//! Independent reference implementations, resumable from any chaining state.
use crate::tables::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Alg { Sha1, Sha256, Sha512, Sha384, Sha512_256, Rmd }
use Alg::*;
pub const ALGS: [Alg; 6] = [Sha1, Sha256, Sha512, Sha384, Sha512_256, Rmd];

pub fn block(a: Alg) -> usize { match a { Sha1 | Sha256 | Rmd => 64, _ => 128 } }
pub fn outlen(a: Alg) -> usize { match a { Sha1 | Rmd => 20, Sha256 | Sha512_256 => 32, Sha384 => 48, Sha512 => 64 } }
pub fn midlen(a: Alg) -> usize { match a { Sha1 | Rmd => 20, Sha256 => 32, _ => 64 } }

/// chaining state: words widened to u64
pub fn iv(a: Alg) -> Vec<u64> {
    match a {
        Sha1 | Rmd => IV1.iter().map(|x| *x as u64).collect(),
        Sha256 => IV256.iter().map(|x| *x as u64).collect(),
        Sha512 => IV512.to_vec(),
        Sha384 => IV384.to_vec(),
        Sha512_256 => IV512_256.to_vec(),
    }
}

pub fn state_bytes(a: Alg, s: &[u64]) -> Vec<u8> {
    let mut v = vec![];
    for x in s {
        match a {
            Rmd => v.extend_from_slice(&(*x as u32).to_le_bytes()),
            Sha1 | Sha256 => v.extend_from_slice(&(*x as u32).to_be_bytes()),
            _ => v.extend_from_slice(&x.to_be_bytes()),
        }
    }
    v
}

pub fn state_from_bytes(a: Alg, b: &[u8]) -> Vec<u64> {
    match a {
        Rmd => b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as u64).collect(),
        Sha1 | Sha256 => b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]]) as u64).collect(),
        _ => b.chunks(8).map(|c| c.iter().fold(0u64, |x, y| x << 8 | *y as u64)).collect(),
    }
}

fn sha1(h: &mut [u64], b: &[u8]) {
    let mut w = [0u32; 80];
    for i in 0..16 { w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]); }
    for t in 16..80 { w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1); }
    let (mut a, mut bb, mut c, mut d, mut e) = (h[0] as u32, h[1] as u32, h[2] as u32, h[3] as u32, h[4] as u32);
    for t in 0..80 {
        let (f, k) = match t / 20 {
            0 => ((bb & c) | (!bb & d), 0x5a827999u32),
            1 => (bb ^ c ^ d, 0x6ed9eba1),
            2 => ((bb & c) | (bb & d) | (c & d), 0x8f1bbcdc),
            _ => (bb ^ c ^ d, 0xca62c1d6),
        };
        let x = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[t]);
        e = d; d = c; c = bb.rotate_left(30); bb = a; a = x;
    }
    for (x, y) in h.iter_mut().zip([a, bb, c, d, e]) { *x = (*x as u32).wrapping_add(y) as u64; }
}

fn sha256(h: &mut [u64], b: &[u8]) {
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]); }
    for t in 16..64 {
        let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
        let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
    }
    let mut v: Vec<u32> = h.iter().map(|x| *x as u32).collect();
    for t in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K256[t]).wrapping_add(w[t]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v.rotate_right(1);
        v[4] = v[4].wrapping_add(t1);
        v[0] = t1.wrapping_add(t2);
    }
    for (x, y) in h.iter_mut().zip(v) { *x = (*x as u32).wrapping_add(y) as u64; }
}

fn sha512(h: &mut [u64], b: &[u8]) {
    let mut w = [0u64; 80];
    for i in 0..16 { w[i] = b[8 * i..8 * i + 8].iter().fold(0u64, |x, y| x << 8 | *y as u64); }
    for t in 16..80 {
        let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
        let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
    }
    let mut v: Vec<u64> = h.to_vec();
    for t in 0..80 {
        let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K512[t]).wrapping_add(w[t]);
        let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v.rotate_right(1);
        v[4] = v[4].wrapping_add(t1);
        v[0] = t1.wrapping_add(t2);
    }
    for (x, y) in h.iter_mut().zip(v) { *x = x.wrapping_add(y); }
}

const R1: [u8; 80] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
    3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
    4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13];
const R2: [u8; 80] = [5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
    15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
    12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11];
const S1: [u8; 80] = [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
    11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
    9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6];
const S2: [u8; 80] = [8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
    9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
    8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11];

fn rmd(h: &mut [u64], b: &[u8]) {
    let x: Vec<u32> = (0..16).map(|i| u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]])).collect();
    let f = |j: usize, x: u32, y: u32, z: u32| match j { 0 => x ^ y ^ z, 1 => (x & y) | (!x & z), 2 => (x | !y) ^ z, 3 => (x & z) | (y & !z), _ => x ^ (y | !z) };
    let k1 = [0u32, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
    let k2 = [0x50a28be6u32, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
    let run = |r: &[u8; 80], s: &[u8; 80], k: &[u32; 5], rev: bool| {
        let (mut a, mut b, mut c, mut d, mut e) = (h[0] as u32, h[1] as u32, h[2] as u32, h[3] as u32, h[4] as u32);
        for j in 0..80 {
            let g = if rev { 4 - j / 16 } else { j / 16 };
            let t = a.wrapping_add(f(g, b, c, d)).wrapping_add(x[r[j] as usize]).wrapping_add(k[j / 16]).rotate_left(s[j] as u32).wrapping_add(e);
            a = e; e = d; d = c.rotate_left(10); c = b; b = t;
        }
        [a, b, c, d, e]
    };
    let p = run(&R1, &S1, &k1, false);
    let q = run(&R2, &S2, &k2, true);
    let o: Vec<u32> = h.iter().map(|v| *v as u32).collect();
    let n = [o[1].wrapping_add(p[2]).wrapping_add(q[3]), o[2].wrapping_add(p[3]).wrapping_add(q[4]), o[3].wrapping_add(p[4]).wrapping_add(q[0]),
        o[4].wrapping_add(p[0]).wrapping_add(q[1]), o[0].wrapping_add(p[1]).wrapping_add(q[2])];
    for i in 0..5 { h[i] = n[i] as u64; }
}

pub fn compress(a: Alg, h: &mut [u64], b: &[u8]) {
    match a { Sha1 => sha1(h, b), Sha256 => sha256(h, b), Rmd => rmd(h, b), _ => sha512(h, b) }
}

/// digest of a message whose first `prior` bytes (a whole number of blocks) led to state `st`, the rest being `msg`
pub fn resume(a: Alg, st: &[u64], prior: u64, msg: &[u8]) -> Vec<u8> {
    let bs = block(a);
    let total = prior as u128 + msg.len() as u128;
    let mut m = msg.to_vec();
    m.push(0x80);
    let lb = if bs == 64 { 8 } else { 16 };
    while m.len() % bs != bs - lb { m.push(0); }
    let bits = total * 8;
    match a {
        Rmd => m.extend_from_slice(&(bits as u64).to_le_bytes()),
        _ if lb == 8 => m.extend_from_slice(&(bits as u64).to_be_bytes()),
        _ => m.extend_from_slice(&bits.to_be_bytes()),
    }
    let mut h = st.to_vec();
    for b in m.chunks(bs) { compress(a, &mut h, b); }
    state_bytes(a, &h)[..outlen(a)].to_vec()
}
pub fn digest(a: Alg, msg: &[u8]) -> Vec<u8> { resume(a, &iv(a), 0, msg) }

/// chaining state after the whole blocks of msg
pub fn chain(a: Alg, st: &[u64], msg: &[u8]) -> Vec<u64> {
    let mut h = st.to_vec();
    for b in msg.chunks_exact(block(a)) { compress(a, &mut h, b); }
    h
}

pub fn hmac(a: Alg, key: &[u8], msg: &[u8], start: Option<(&[u64], u64)>) -> Vec<u8> {
    let ivv = iv(a);
    let (st, pr) = start.unwrap_or((&ivv, 0));
    let h = |m: &[u8]| resume(a, st, pr, m);
    let bs = block(a);
    let mut k = if key.len() > bs { h(key) } else { key.to_vec() };
    k.resize(bs, 0);
    let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    o.extend_from_slice(&h(&i));
    h(&o)
}

fn round(v: &mut [u64; 4]) {
    v[0] = v[0].wrapping_add(v[1]); v[1] = v[1].rotate_left(13); v[1] ^= v[0]; v[0] = v[0].rotate_left(32);
    v[2] = v[2].wrapping_add(v[3]); v[3] = v[3].rotate_left(16); v[3] ^= v[2];
    v[0] = v[0].wrapping_add(v[3]); v[3] = v[3].rotate_left(21); v[3] ^= v[0];
    v[2] = v[2].wrapping_add(v[1]); v[1] = v[1].rotate_left(17); v[1] ^= v[2]; v[2] = v[2].rotate_left(32);
}
pub fn siphash(k0: u64, k1: u64, m: &[u8]) -> u64 {
    let mut v = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573];
    let mut p = m.to_vec();
    while p.len() % 8 != 7 { p.push(0); }
    p.push(m.len() as u8);
    for c in p.chunks(8) {
        let w = c.iter().rev().fold(0u64, |x, y| x << 8 | *y as u64);
        v[3] ^= w;
        round(&mut v); round(&mut v);
        v[0] ^= w;
    }
    v[2] ^= 0xff;
    for _ in 0..4 { round(&mut v); }
    v[0] ^ v[1] ^ v[2] ^ v[3]
}

/// SHA-256 of n zero bytes
pub const ZEROS: [(usize, &str); 3] = [
    (2097152, "5647f05ec18958947d32874eeb788fa396a05d0bab7c1b71f112ceb7e9b31eee"),
    (536870968, "c366cf310411b02eb5861d271f8b76c632d85d130a33be113d91742ef8863183"),
    (4294967299, "930fa067940ff8d9f427e3a116b7598503c70ce7380d66ff65f8de33d558f7f3"),
];
