//! Digest value types: conversions, text, serde, comparison.
use crate::{hex, is, msg, same, t, unhex, AnyTag, Gen, R};
use std::cell::RefCell;
use std::str::FromStr;
thread_local! { static OUT: RefCell<(String, Vec<u8>)> = const { RefCell::new((String::new(), Vec::new())) }; }
pub fn emit_str(s: &str) { OUT.with(|o| o.borrow_mut().0.push_str(s)); }
pub fn emit_bytes(s: &[u8]) { OUT.with(|o| o.borrow_mut().1.extend_from_slice(s)); }
#[allow(dead_code)]
fn take() -> (String, Vec<u8>) { OUT.with(|o| std::mem::take(&mut *o.borrow_mut())) }

#[derive(Default)]
struct H(Vec<u8>);
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
}

pub const TYPES: [(&str, usize); 13] = [("sha1", 20), ("sha256", 32), ("sha384", 48), ("sha512", 64), ("sha512_256", 32), ("ripemd160", 20), ("siphash24", 8), ("sha256t", 32),
    ("hmac20", 20), ("hmac32", 32), ("hmac48", 48), ("hmac64", 64), ("midstate", 32)];

macro_rules! with_type {
    ($n:expr, $H:ident, $N:ident => $b:expr) => {
        match $n {
            "sha1" => { type $H = chf::sha1::Hash; const $N: usize = 20; $b }
            "sha256" => { type $H = chf::sha256::Hash; const $N: usize = 32; $b }
            "sha384" => { type $H = chf::sha384::Hash; const $N: usize = 48; $b }
            "sha512" => { type $H = chf::sha512::Hash; const $N: usize = 64; $b }
            "sha512_256" => { type $H = chf::sha512_256::Hash; const $N: usize = 32; $b }
            "ripemd160" => { type $H = chf::ripemd160::Hash; const $N: usize = 20; $b }
            "siphash24" => { type $H = chf::siphash24::Hash; const $N: usize = 8; $b }
            "sha256t" => { type $H = chf::sha256t::Hash<AnyTag>; const $N: usize = 32; $b }
            "hmac20" => { type $H = chf::hmac::Hash<20>; const $N: usize = 20; $b }
            "hmac32" => { type $H = chf::hmac::Hash<32>; const $N: usize = 32; $b }
            "hmac48" => { type $H = chf::hmac::Hash<48>; const $N: usize = 48; $b }
            "hmac64" => { type $H = chf::hmac::Hash<64>; const $N: usize = 64; $b }
            "midstate" => { type $H = chf::sha256::Midstate; const $N: usize = 32; $b }
            _ => panic!("type {}", $n),
        }
    };
}
macro_rules! with_digest {
    ($n:expr, $H:ident, $N:ident => $b:expr) => {
        match $n {
            "sha1" => { type $H = chf::sha1::Hash; const $N: usize = 20; $b }
            "sha256" => { type $H = chf::sha256::Hash; const $N: usize = 32; $b }
            "sha384" => { type $H = chf::sha384::Hash; const $N: usize = 48; $b }
            "sha512" => { type $H = chf::sha512::Hash; const $N: usize = 64; $b }
            "sha512_256" => { type $H = chf::sha512_256::Hash; const $N: usize = 32; $b }
            "ripemd160" => { type $H = chf::ripemd160::Hash; const $N: usize = 20; $b }
            "siphash24" => { type $H = chf::siphash24::Hash; const $N: usize = 8; $b }
            "sha256t" => { type $H = chf::sha256t::Hash<AnyTag>; const $N: usize = 32; $b }
            "hmac20" => { type $H = chf::hmac::Hash<20>; const $N: usize = 20; $b }
            "hmac32" => { type $H = chf::hmac::Hash<32>; const $N: usize = 32; $b }
            "hmac48" => { type $H = chf::hmac::Hash<48>; const $N: usize = 48; $b }
            "hmac64" => { type $H = chf::hmac::Hash<64>; const $N: usize = 64; $b }
            _ => Ok(()),
        }
    };
}

fn ok_hex(s: &str, n: usize) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() != 2 * n || !b.iter().all(|c| c.is_ascii_hexdigit()) { return None; }
    Some(unhex(s))
}

pub fn exec(f: &[&str]) -> R {
    match f[0] {
        "conv" => {
            let b = unhex(f[2]);
            with_type!(f[1], H, N => {
                let a: [u8; N] = b.clone().try_into().unwrap();
                let h = H::from_byte_array(a);
                same("to_byte_array", &b, &h.to_byte_array())?;
                same("as_ref", &b, AsRef::<[u8]>::as_ref(&h))?;
                same("[..]", &b, &h[..])?;
                for i in 0..N { is("index", h[i] == b[i])?; }
                for i in 0..=N { let j = (i * 7 + b[0] as usize) % (N + 1); let (x, y) = (i.min(j), i.max(j)); same("[a..b]", &b[x..y], &h[x..y])?; }
                match H::from_slice(&b) { Ok(x) => same("from_slice", &b, &x.to_byte_array())?, Err(_) => return Err("from_slice rejects the right length".into()) }
                same("clone", &b, &h.clone().to_byte_array())
            })?;
            with_digest!(f[1], H, N => {
                let mut a: [u8; N] = b.clone().try_into().unwrap();
                let h = H::from_byte_array(a);
                same("as_byte_array", &b, h.as_byte_array())?;
                same("as_bytes", &b, h.as_bytes())?;
                same("from_bytes_ref", &b, H::from_bytes_ref(&a).as_bytes())?;
                for i in 0..=N { same("[a..]", &b[i..], &h[i..])?; same("[..b]", &b[..i], &h[..i])?; }
                #[cfg(feature = "std")]
                same("to_bytes", &b, &h.to_bytes())?;
                let m = H::from_bytes_mut(&mut a);
                same("from_bytes_mut", &b, m.as_bytes())?;
                let inv: Vec<u8> = b.iter().map(|x| !x).collect();
                *m = H::from_byte_array(inv.clone().try_into().unwrap());
                same("write through from_bytes_mut", &inv, &a)
            })
        }
        "slice" => {
            let b = msg(f[2]);
            with_type!(f[1], H, N => match H::from_slice(&b) {
                Ok(h) => { is("from_slice accepts a wrong length", b.len() == N)?; same("from_slice", &b, &h.to_byte_array()) }
                Err(e) => {
                    is("from_slice rejects the right length", b.len() != N)?;
                    is("error reports expected and actual length", e.expected == N && e.got == b.len() && e.expected_length() == N && e.invalid_length() == b.len())?;
                    let s = e.to_string();
                    let num = |s: &str| -> Vec<usize> { s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect() };
                    let (x, y) = s.split_once("expected").unwrap_or((&s, ""));
                    is("error text reports actual and expected length", num(x) == [b.len()] && num(y) == [N] || s.starts_with("expected") && num(y) == [N, b.len()])
                }
            })
        }
        "fmt" => {
            let b = unhex(f[2]);
            with_type!(f[1], H, N => {
                let h = H::from_byte_array(b.clone().try_into().unwrap());
                let _ = N;
                is("display", h.to_string() == hex(&b))?;
                is("lower", format!("{:x}", h) == hex(&b))?;
                is("upper", format!("{:X}", h) == hex(&b).to_uppercase())?;
                match H::from_str(&h.to_string()) { Ok(x) => same("parse of display", &b, &x[..]), Err(_) => Err("display form does not parse".into()) }
            })
        }
        "parse" => {
            let b = unhex(f[2]);
            let s = match std::str::from_utf8(&b) { Ok(s) => s, Err(_) => return Ok(()) };
            let hexonly = f[1] == "midhex";
            with_type!(if hexonly { "midstate" } else { f[1] }, H, N => {
                match (ok_hex(s, N), H::from_str(s)) {
                    (Some(w), Ok(h)) => same("parsed value", &w, &h[..]),
                    (None, Err(_)) => Ok(()),
                    (Some(_), Err(_)) => Err("valid hex rejected".into()),
                    (None, Ok(_)) => Err("invalid text accepted".into()),
                }
            })?;
            if f[1] == "midstate" {
                match (ok_hex(s, 32), <chf::sha256::Midstate as chf::hex::FromHex>::from_hex(s)) {
                    (Some(w), Ok(h)) => same("from_hex value", &w, &h[..])?,
                    (None, Err(_)) => {}
                    _ => return Err("Midstate::from_hex accepts/rejects wrongly".into()),
                }
            }
            Ok(())
        }
        #[cfg(feature = "serde")]
        "ser" => {
            let b = unhex(f[2]);
            with_type!(f[1], H, N => {
                let h = H::from_byte_array(b.clone().try_into().unwrap());
                let _ = N;
                take();
                is("serialize human", serde::Serialize::serialize(&h, crate::sd::Ser { human: true }).is_ok())?;
                let (s, r) = take();
                is("human form is the hex string", s == hex(&b) && r.is_empty())?;
                is("serialize binary", serde::Serialize::serialize(&h, crate::sd::Ser { human: false }).is_ok())?;
                let (s2, r2) = take();
                is("binary form is the raw bytes", s2.is_empty() && r2 == b)?;
                match <H as serde::Deserialize>::deserialize(crate::sd::De { human: true, kind: 0, b: s.as_bytes() }) { Ok(x) => same("round trip (human)", &b, &x[..])?, Err(_) => return Err("human form rejected".into()) }
                match <H as serde::Deserialize>::deserialize(crate::sd::De { human: false, kind: 1, b: &r2 }) { Ok(x) => same("round trip (binary)", &b, &x[..]), Err(_) => Err("binary form rejected".into()) }
            })
        }
        #[cfg(feature = "serde")]
        "des" => {
            let b = unhex(f[3]);
            with_type!(f[1], H, N => {
                let (human, kind) = match f[2] { "str" => (true, 0), "bin" => (false, 1), _ => (true, 1) };
                if kind == 0 && std::str::from_utf8(&b).is_err() { return Ok(()); }
                let want = if human { std::str::from_utf8(&b).ok().and_then(|s| ok_hex(s, N)) } else if b.len() == N { Some(b.clone()) } else { None };
                for k in [kind, kind + 2] {
                    match (&want, <H as serde::Deserialize>::deserialize(crate::sd::De { human, kind: k, b: &b })) {
                        (Some(w), Ok(h)) => same("deserialized value", w, &h[..])?,
                        (None, Err(_)) => {}
                        (Some(_), Err(_)) => return Err("valid encoding rejected".into()),
                        (None, Ok(_)) => return Err("invalid encoding accepted".into()),
                    }
                }
                Ok(())
            })
        }
        "cmp" => {
            let (a, b) = (unhex(f[2]), unhex(f[3]));
            with_type!(f[1], H, N => {
                let _ = N;
                let (x, y) = (H::from_byte_array(a.clone().try_into().unwrap()), H::from_byte_array(b.clone().try_into().unwrap()));
                is("eq", (x == y) == (a == b))?;
                is("ne", (x != y) == (a != b))?;
                is("cmp", x.cmp(&y) == a.cmp(&b))?;
                is("partial_cmp", x.partial_cmp(&y) == Some(a.cmp(&b)))?;
                is("lt/le/gt/ge", (x < y, x <= y, x > y, x >= y) == (a < b, a <= b, a > b, a >= b))?;
                use std::hash::Hash;
                let (mut h1, mut h2, mut h3) = (self::H::default(), self::H::default(), self::H::default());
                x.hash(&mut h1);
                H::from_byte_array(a.clone().try_into().unwrap()).hash(&mut h2);
                y.hash(&mut h3);
                is("equal values hash equally", h1.0 == h2.0 && (a != b || h1.0 == h3.0))
            })
        }
        "zero" => {
            with_digest!(f[1], H, N => same("all_zeros", &[0; N], &H::all_zeros().to_byte_array()))?;
            same("sha256t default", &[0; 32], &chf::sha256t::Hash::<AnyTag>::default().to_byte_array())?;
            same("midstate default", &[0; 32], &chf::sha256::Midstate::default().to_byte_array())
        }
        _ => Ok(()),
    }
}

fn bytes(g: &mut Gen, n: usize) -> Vec<u8> {
    match g.rng.below(6) {
        0 => vec![g.rng.next() as u8; n],
        1 => { let mut v = vec![0; n]; let i = g.rng.below(n as u64) as usize; v[i] = g.rng.next() as u8; v }
        2 => { let mut v = vec![0xff; n]; let i = g.rng.below(n as u64) as usize; v[i] = g.rng.next() as u8; v }
        _ => (0..n).map(|_| (g.rng.next() >> 40) as u8).collect(),
    }
}

/// what a lenient parser might skip before, after or between the digits
const SKIP: [&str; 22] = [" ", "\n", "\r\n", "\t", "\0", "0x", "0X", "+", "-", "_", ":", "\"", "'", "\u{feff}", "\u{a0}", "\u{200b}", "00", "0", "h", "#", "\\x", ","];

fn decorated(n: usize) -> Vec<Vec<u8>> {
    let d: Vec<u8> = hex(&(0..n).map(|i| (i * 37 + 11) as u8).collect::<Vec<u8>>()).into_bytes();
    let mut out = vec![];
    for w in SKIP {
        let w = w.as_bytes();
        for k in [d.len(), d.len() - w.len().min(2), d.len() - 2, d.len() - 1] {
            let c = &d[..k];
            out.push([w, c].concat());
            out.push([c, w].concat());
            out.push([w, c, w].concat());
            out.push([&c[..2], w, &c[2..]].concat());
            out.push([&c[..k / 2], w, &c[k / 2..]].concat());
        }
        out.push(d.chunks(2).collect::<Vec<_>>().join(w));
        out.push(d.chunks(2).flat_map(|c| [w, c].concat()).collect());
    }
    out
}

fn text(g: &mut Gen, n: usize) -> Vec<u8> {
    let b = bytes(g, n);
    let mut s = hex(&b).into_bytes();
    match g.rng.below(9) {
        0 => { s = hex(&b).to_uppercase().into_bytes(); }
        1 => { for c in s.iter_mut() { if g.rng.below(2) == 0 { *c = c.to_ascii_uppercase(); } } }
        2 => { s.pop(); }
        3 => { s.push(b'0'); }
        4 => { s.insert(0, b' '); }
        5 => { s = [b"0x".to_vec(), s].concat(); if g.rng.below(2) == 0 { s.truncate(2 * n); } }
        6 => { let k = g.rng.below(4) as usize * 2; s.truncate(s.len().saturating_sub(k + 1)); }
        _ => { let i = g.rng.below(s.len() as u64) as usize; s[i] = g.rng.below(128) as u8; }
    }
    s
}

pub fn cases(g: &mut Gen, prop: &str) -> bool {
    match prop {
        "C12" => {
            for (ty, n) in TYPES { for k in 0..=200usize { t!(g, "slice|{}|r{}:{}", ty, k, k); } for k in [256 + n, 65536 + n, 1 << 16, 512 + n, 2 * n] { t!(g, "slice|{}|z:{}", ty, k); } }
            loop { for (ty, n) in TYPES { let b = bytes(g, n); t!(g, "conv|{}|{}", ty, hex(&b)); } }
        }
        "C13" => {
            for (ty, n) in TYPES {
                for v in 0..=255u8 { t!(g, "fmt|{}|{}", ty, hex(&vec![v; n])); }
                for k in 0..=(2 * n + 4) { t!(g, "parse|{}|{}", ty, hex(&vec![b'a'; k])); }
                for i in 0..2 * n { for c in 0..128u8 { let mut s = vec![b'7'; 2 * n]; s[i] = c; t!(g, "parse|{}|{}", ty, hex(&s)); } }
                for i in 0..2 * n - 1 { for w in ["é", "٠", "ß"] { let mut s = vec![b'7'; 2 * n]; s[i..i + 2].copy_from_slice(w.as_bytes()); t!(g, "parse|{}|{}", ty, hex(&s)); } }
                for s in decorated(n) { t!(g, "parse|{}|{}", ty, hex(&s)); }
                for (a, z) in [("", "\n"), (" ", ""), ("", " "), ("0x", ""), ("+", ""), ("", "00"), ("00", "")] { t!(g, "parse|{}|{}", ty, hex(&[a.as_bytes(), &vec![b'1'; 2 * n][..], z.as_bytes()].concat())); }
            }
            loop { for (ty, n) in TYPES { let b = bytes(g, n); t!(g, "fmt|{}|{}", ty, hex(&b)); let s = text(g, n); t!(g, "parse|{}|{}", ty, hex(&s)); } }
        }
        "C14" => {
            for (ty, n) in TYPES {
                for s in decorated(n) { for w in ["str", "hb"] { t!(g, "des|{}|{}|{}", ty, w, hex(&s)); } }
                for k in 0..=200usize { t!(g, "des|{}|bin|{}", ty, hex(&vec![0x31; k])); t!(g, "des|{}|str|{}", ty, hex(&vec![0x31; k])); t!(g, "des|{}|hb|{}", ty, hex(&vec![0x31; k])); }
                for i in 0..2 * n { for c in 0..=255u8 { let mut s = vec![b'7'; 2 * n]; s[i] = c; for w in ["str", "hb"] { t!(g, "des|{}|{}|{}", ty, w, hex(&s)); } } }
                for i in 0..n { for c in 0..=255u8 { let mut s = vec![b'7'; n]; s[i] = c; t!(g, "ser|{}|{}", ty, hex(&s)); } }
            }
            loop { for (ty, n) in TYPES { let b = bytes(g, n); t!(g, "ser|{}|{}", ty, hex(&b)); let s = text(g, n); t!(g, "des|{}|str|{}", ty, hex(&s)); t!(g, "des|{}|hb|{}", ty, hex(&s)); let s = bytes(g, n); t!(g, "des|{}|bin|{}", ty, hex(&s)); } }
        }
        _ => {
            for (ty, n) in TYPES {
                t!(g, "zero|{}", ty);
                for i in 0..n { for (x, y) in [(0u8, 1u8), (1, 0), (0x7f, 0x80), (0x80, 0x7f), (0xff, 0), (5, 5)] { let mut a = vec![0x33; n]; let mut b = a.clone(); a[i] = x; b[i] = y; t!(g, "cmp|{}|{}|{}", ty, hex(&a), hex(&b)); if i + 1 < n { a[i + 1] = 0; b[i + 1] = 0xff; t!(g, "cmp|{}|{}|{}", ty, hex(&a), hex(&b)); } } }
            }
            loop { for (ty, n) in TYPES {
                let a = bytes(g, n);
                let mut b = if g.rng.below(2) == 0 { a.clone() } else { bytes(g, n) };
                for _ in 0..g.rng.below(3) { let i = g.rng.below(n as u64) as usize; b[i] = g.rng.next() as u8; }
                t!(g, "cmp|{}|{}|{}", ty, hex(&a), hex(&b));
            } }
        }
    }
}
