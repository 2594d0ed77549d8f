//! Entry points (public API only) whose compiled IR is verified by /verif/llvc.
#![allow(clippy::all)]
#![feature(formatting_options)]
use chf::HashEngine;
use core::mem::MaybeUninit;

extern "Rust" {
    fn probe_emit(p: *const u8, n: usize) -> bool; // fmt::Write sink
    fn probe_hash_write(p: *const u8, n: usize);
    fn probe_tag(mid: *mut u8) -> usize;
    fn probe_ser_bytes(p: *const u8, n: usize);
    fn probe_bool() -> bool;
    fn probe_bytes(len: *mut usize) -> *const u8;
    fn probe_err(kind: u8, n: usize);
}

pub struct Sink;
impl core::fmt::Write for Sink {
    #[inline(never)]
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if unsafe { probe_emit(s.as_ptr(), s.len()) } { Ok(()) } else { Err(core::fmt::Error) }
    }
}

/// A tag whose state is arbitrary (chosen by the verifier).
#[derive(Clone)]
pub struct AnyTag;
impl chf::sha256t::Tag for AnyTag {
    #[inline(never)]
    fn engine() -> chf::sha256t::Engine<AnyTag> {
        let mut m = [0u8; 32];
        let n = unsafe { probe_tag(m.as_mut_ptr()) };
        <chf::sha256t::Engine<AnyTag> as HashEngine>::from_midstate(chf::sha256::Midstate::from_byte_array(m), n)
    }
}

pub struct ProbeHasher;
impl core::hash::Hasher for ProbeHasher {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { unsafe { probe_hash_write(b.as_ptr(), b.len()) } }
}

macro_rules! engine {
    ($pre:ident, $ty:ty, $dlen:expr) => {
        pub mod $pre {
            use super::*;
            pub type E = $ty;
            pub type M = <E as HashEngine>::Midstate;
            #[export_name = concat!("h_", stringify!($pre), "_new")]
            pub fn new(out: &mut MaybeUninit<E>) { out.write(<E as HashEngine>::new()); }
            #[export_name = concat!("h_", stringify!($pre), "_default")]
            pub fn default(out: &mut MaybeUninit<E>) { out.write(<E as Default>::default()); }
            #[export_name = concat!("h_", stringify!($pre), "_input")]
            pub fn input(e: &mut E, d: &[u8]) { HashEngine::input(e, d) }
            #[export_name = concat!("h_", stringify!($pre), "_finalize")]
            pub fn finalize(e: E, out: &mut [u8; $dlen]) { *out = HashEngine::finalize(e); }
            #[export_name = concat!("h_", stringify!($pre), "_midstate")]
            pub fn midstate(e: &E, out: &mut MaybeUninit<M>) { out.write(HashEngine::midstate(e)); }
            #[export_name = concat!("h_", stringify!($pre), "_from_midstate")]
            pub fn from_midstate(m: M, n: usize, out: &mut MaybeUninit<E>) { out.write(<E as HashEngine>::from_midstate(m, n)); }
            #[export_name = concat!("h_", stringify!($pre), "_n_bytes")]
            pub fn n_bytes(e: &E) -> usize { HashEngine::n_bytes_hashed(e) }
            #[export_name = concat!("h_", stringify!($pre), "_clone")]
            pub fn clone(e: &E, out: &mut MaybeUninit<E>) { out.write(Clone::clone(e)); }
            #[export_name = concat!("h_", stringify!($pre), "_tr_hash")]
            pub fn tr_hash(d: &[u8], out: &mut [u8; $dlen]) { *out = <E as HashEngine>::hash(d); }
            #[export_name = concat!("h_", stringify!($pre), "_chunks")]
            pub fn chunks(d: &[&[u8]], out: &mut [u8; $dlen]) { *out = <E as HashEngine>::hash_byte_chunks(d); }
            #[export_name = concat!("h_", stringify!($pre), "_block_size")]
            pub fn block_size() -> usize { <E as HashEngine>::BLOCK_SIZE }
            #[export_name = concat!("h_", stringify!($pre), "_sizes")]
            pub fn sizes(out: &mut [usize; 3]) {
                *out = [core::mem::size_of::<E>(), core::mem::size_of::<M>(), $dlen];
            }
        }
    };
}
macro_rules! hash_engine {
    ($pre:ident, $h:ty, $dlen:expr) => {
        const _: () = {
            type H = $h;
            use $pre::E;
            #[export_name = concat!("h_", stringify!($pre), "_h_hash")]
            pub fn hash(d: &[u8], out: &mut [u8; $dlen]) { *out = H::hash(d).to_byte_array(); }
            #[export_name = concat!("h_", stringify!($pre), "_h_engine")]
            pub fn engine(out: &mut MaybeUninit<E>) { out.write(H::engine()); }
            #[export_name = concat!("h_", stringify!($pre), "_h_from_engine")]
            pub fn from_engine(e: E, out: &mut [u8; $dlen]) { *out = H::from_engine(e).to_byte_array(); }
        };
    };
}
macro_rules! io_write {
    ($pre:ident) => {
        const _: () = {
            use $pre::E;
            #[cfg(feature = "io")]
            #[export_name = concat!("h_", stringify!($pre), "_bio_write")]
            pub fn bio_write(e: &mut E, d: &[u8], n: &mut usize) -> bool {
                match bitcoin_io::Write::write(e, d) { Ok(k) => { *n = k; true } Err(_) => false }
            }
            #[cfg(feature = "io")]
            #[export_name = concat!("h_", stringify!($pre), "_bio_write_all")]
            pub fn bio_write_all(e: &mut E, d: &[u8]) -> bool { bitcoin_io::Write::write_all(e, d).is_ok() }
            #[cfg(feature = "std")]
            #[export_name = concat!("h_", stringify!($pre), "_std_write_all")]
            pub fn std_write_all(e: &mut E, d: &[u8]) -> bool { std::io::Write::write_all(e, d).is_ok() }
            #[cfg(feature = "io")]
            #[export_name = concat!("h_", stringify!($pre), "_bio_flush")]
            pub fn bio_flush(e: &mut E) -> bool { bitcoin_io::Write::flush(e).is_ok() }
            #[cfg(feature = "std")]
            #[export_name = concat!("h_", stringify!($pre), "_std_write")]
            pub fn std_write(e: &mut E, d: &[u8], n: &mut usize) -> bool {
                match std::io::Write::write(e, d) { Ok(k) => { *n = k; true } Err(_) => false }
            }
            #[cfg(feature = "std")]
            #[export_name = concat!("h_", stringify!($pre), "_std_flush")]
            pub fn std_flush(e: &mut E) -> bool { std::io::Write::flush(e).is_ok() }
        };
    };
}

engine!(sha1, chf::sha1::Engine, 20);
engine!(sha256, chf::sha256::Engine, 32);
engine!(sha512, chf::sha512::Engine, 64);
engine!(sha384, chf::sha384::Engine, 48);
engine!(sha512_256, chf::sha512_256::Engine, 32);
engine!(ripemd160, chf::ripemd160::Engine, 20);
engine!(siphash24, chf::siphash24::Engine, 8);
engine!(sha256t, chf::sha256t::Engine<AnyTag>, 32);
engine!(hmac_sha1, chf::hmac::Engine<chf::sha1::Engine>, 20);
engine!(hmac_sha256, chf::hmac::Engine<chf::sha256::Engine>, 32);
engine!(hmac_sha384, chf::hmac::Engine<chf::sha384::Engine>, 48);
engine!(hmac_sha512, chf::hmac::Engine<chf::sha512::Engine>, 64);
engine!(hmac_sha512_256, chf::hmac::Engine<chf::sha512_256::Engine>, 32);
engine!(hmac_ripemd160, chf::hmac::Engine<chf::ripemd160::Engine>, 20);
engine!(hmac_sha256t, chf::hmac::Engine<chf::sha256t::Engine<AnyTag>>, 32);
hash_engine!(sha1, chf::sha1::Hash, 20);
hash_engine!(sha256, chf::sha256::Hash, 32);
hash_engine!(sha512, chf::sha512::Hash, 64);
hash_engine!(sha384, chf::sha384::Hash, 48);
hash_engine!(sha512_256, chf::sha512_256::Hash, 32);
hash_engine!(ripemd160, chf::ripemd160::Hash, 20);
hash_engine!(siphash24, chf::siphash24::Hash, 8);
hash_engine!(sha256t, chf::sha256t::Hash<AnyTag>, 32);
io_write!(sha1);
io_write!(sha256);
io_write!(sha512);
io_write!(ripemd160);
io_write!(siphash24);
io_write!(sha256t);
io_write!(hmac_sha1);
io_write!(hmac_sha256);
io_write!(hmac_sha384);
io_write!(hmac_sha512);
io_write!(hmac_sha512_256);
io_write!(hmac_ripemd160);
io_write!(hmac_sha256t);

macro_rules! hmac {
    ($pre:ident, $dlen:expr) => {
        const _: () = {
            use $pre::E;
            #[export_name = concat!("h_", stringify!($pre), "_with_key")]
            pub fn with_key(k: &[u8], out: &mut MaybeUninit<E>) { out.write(E::new(k)); }
            #[export_name = concat!("h_", stringify!($pre), "_h_engine")]
            pub fn engine(out: &mut MaybeUninit<E>) { out.write(chf::hmac::Hash::<$dlen>::engine::<E>()); }
            #[export_name = concat!("h_", stringify!($pre), "_h_from_engine")]
            pub fn from_engine(e: E, out: &mut [u8; $dlen]) {
                *out = chf::hmac::Hash::<$dlen>::from_engine(e).to_byte_array();
            }
        };
    };
}
hmac!(hmac_sha1, 20);
hmac!(hmac_sha256, 32);
hmac!(hmac_sha384, 48);
hmac!(hmac_sha512, 64);
hmac!(hmac_sha512_256, 32);
hmac!(hmac_ripemd160, 20);
hmac!(hmac_sha256t, 32);

// SipHash extras
use chf::siphash24 as sip;
#[export_name = "h_sip_with_keys"]
pub fn sip_with_keys(k0: u64, k1: u64, out: &mut MaybeUninit<sip::Engine>) { out.write(sip::Engine::with_keys(k0, k1)); }
#[export_name = "h_sip_new"]
pub fn sip_new(out: &mut MaybeUninit<sip::Engine>) { out.write(sip::Engine::new()); }
#[export_name = "h_sip_keys"]
pub fn sip_keys(e: &sip::Engine, out: &mut [u64; 2]) { let (a, b) = e.keys(); *out = [a, b]; }
#[export_name = "h_sha256_from_midstate_inh"]
pub fn sha256_from_midstate_inh(m: chf::sha256::Midstate, n: usize, out: &mut MaybeUninit<chf::sha256::Engine>) { out.write(chf::sha256::Engine::from_midstate(m, n)); }
#[export_name = "h_sip_hash_with_keys"]
pub fn sip_hash_with_keys(k0: u64, k1: u64, d: &[u8], out: &mut [u8; 8]) { *out = sip::Hash::hash_with_keys(k0, k1, d).to_byte_array(); }
#[export_name = "h_sip_hash_to_u64_with_keys"]
pub fn sip_hash_u64(k0: u64, k1: u64, d: &[u8]) -> u64 { sip::Hash::hash_to_u64_with_keys(k0, k1, d) }
#[export_name = "h_sip_from_engine_to_u64"]
pub fn sip_from_engine_to_u64(e: sip::Engine) -> u64 { sip::Hash::from_engine_to_u64(e) }
#[export_name = "h_sip_as_u64"]
pub fn sip_as_u64(h: &sip::Hash) -> u64 { h.as_u64() }
#[export_name = "h_sip_from_u64"]
pub fn sip_from_u64(x: u64, out: &mut [u8; 8]) { *out = sip::Hash::from_u64(x).to_byte_array(); }

// const sha256
#[export_name = "h_const_hash"]
pub fn const_hash(d: &[u8], out: &mut [u8; 32]) { *out = chf::sha256::Hash::const_hash(d).to_byte_array(); }
#[export_name = "h_hash_tag"]
pub fn hash_tag(d: &[u8], out: &mut [u8; 32]) { *out = chf::sha256::Midstate::hash_tag(d).to_byte_array(); }

#[export_name = "h_err_display"]
pub fn err_display(got: usize, expected: usize) -> bool {
    let mut s = Sink;
    let e = chf::FromSliceError { got, expected };
    core::fmt::Display::fmt(&e, &mut core::fmt::FormattingOptions::new().create_formatter(&mut s)).is_ok()
}
#[export_name = "h_err_new"]
pub fn err_new(got: usize, expected: usize, out: &mut [usize; 4]) {
    let e = chf::FromSliceError::new(got, expected);
    *out = [e.expected, e.got, e.expected_length(), e.invalid_length()];
}

#[export_name = "h_fixed_time_eq"]
pub fn fixed_time_eq(a: &[u8], b: &[u8]) -> bool { chf::cmp::fixed_time_eq(a, b) }

// digest value types
macro_rules! fmt_entries {
    ($pre:ident, $h:ty, $n:expr) => {
        const _: () = {
            type H = $h;
            const N: usize = $n;
            fn f(s: &mut Sink) -> core::fmt::Formatter<'_> { core::fmt::FormattingOptions::new().create_formatter(s) }
            #[export_name = concat!("h_", stringify!($pre), "_v_display")]
            pub fn display(h: &H) -> bool { let mut s = Sink; core::fmt::Display::fmt(h, &mut f(&mut s)).is_ok() }
            #[export_name = concat!("h_", stringify!($pre), "_v_lower")]
            pub fn lower(h: &H) -> bool { let mut s = Sink; core::fmt::LowerHex::fmt(h, &mut f(&mut s)).is_ok() }
            #[export_name = concat!("h_", stringify!($pre), "_v_upper")]
            pub fn upper(h: &H) -> bool { let mut s = Sink; core::fmt::UpperHex::fmt(h, &mut f(&mut s)).is_ok() }
            #[export_name = concat!("h_", stringify!($pre), "_v_parse")]
            pub fn parse(s: &str, out: &mut [u8; N]) -> bool {
                match <H as core::str::FromStr>::from_str(s) { Ok(h) => { out.copy_from_slice(&h[..]); true } Err(_) => false }
            }
        };
    };
}
macro_rules! digest {
    ($pre:ident, $h:ty, $n:expr) => {
        const _: () = {
            type H = $h;
            const N: usize = $n;
            #[export_name = concat!("h_", stringify!($pre), "_v_from_byte_array")]
            pub fn from_byte_array(b: &[u8; N], out: &mut MaybeUninit<H>) { out.write(H::from_byte_array(*b)); }
            #[export_name = concat!("h_", stringify!($pre), "_v_to_byte_array")]
            pub fn to_byte_array(h: &H, out: &mut [u8; N]) { *out = (*h).to_byte_array(); }
            #[export_name = concat!("h_", stringify!($pre), "_v_as_byte_array")]
            pub fn as_byte_array(h: &H) -> &[u8; N] { h.as_byte_array() }
            #[export_name = concat!("h_", stringify!($pre), "_v_as_bytes")]
            pub fn as_bytes(h: &H) -> &[u8] { h.as_bytes() }
            #[export_name = concat!("h_", stringify!($pre), "_v_as_ref")]
            pub fn as_ref(h: &H) -> &[u8] { AsRef::<[u8]>::as_ref(h) }
            #[export_name = concat!("h_", stringify!($pre), "_v_from_bytes_ref")]
            pub fn from_bytes_ref(b: &[u8; N]) -> &H { H::from_bytes_ref(b) }
            #[export_name = concat!("h_", stringify!($pre), "_v_from_bytes_mut")]
            pub fn from_bytes_mut(b: &mut [u8; N]) -> &mut H { H::from_bytes_mut(b) }
            #[export_name = concat!("h_", stringify!($pre), "_v_from_slice")]
            pub fn from_slice(b: &[u8], out: &mut [u8; N], err: &mut [usize; 4]) -> bool {
                match H::from_slice(b) {
                    Ok(h) => { *out = h.to_byte_array(); true }
                    Err(e) => { *err = [e.expected, e.got, e.expected_length(), e.invalid_length()]; false }
                }
            }
            #[export_name = concat!("h_", stringify!($pre), "_v_idx")]
            pub fn idx(h: &H, i: usize) -> u8 { h[i] }
            #[export_name = concat!("h_", stringify!($pre), "_v_idx_full")]
            pub fn idx_full(h: &H) -> &[u8] { &h[..] }
            #[export_name = concat!("h_", stringify!($pre), "_v_idx_range")]
            pub fn idx_range(h: &H, a: usize, b: usize) -> &[u8] { &h[a..b] }
            #[export_name = concat!("h_", stringify!($pre), "_v_idx_from")]
            pub fn idx_from(h: &H, a: usize) -> &[u8] { &h[a..] }
            #[export_name = concat!("h_", stringify!($pre), "_v_idx_to")]
            pub fn idx_to(h: &H, b: usize) -> &[u8] { &h[..b] }
            #[cfg(feature = "std")]
            #[export_name = concat!("h_", stringify!($pre), "_v_to_bytes")]
            pub fn to_bytes(h: &H, out: &mut [u8; N]) -> usize {
                let v = h.to_bytes();
                if v.len() == N { out.copy_from_slice(&v); }
                v.len()
            }
            #[export_name = concat!("h_", stringify!($pre), "_v_all_zeros")]
            pub fn all_zeros(out: &mut MaybeUninit<H>) { out.write(H::all_zeros()); }
        };
        cmp_entries!($pre, $h, $n);
        fmt_entries!($pre, $h, $n);
        #[cfg(feature = "serde")]
        serde_entries!($pre, $h, $n);
    };
}
macro_rules! cmp_entries {
    ($pre:ident, $h:ty, $n:expr) => {
        const _: () = {
            type H = $h;
            #[export_name = concat!("h_", stringify!($pre), "_v_eq")]
            pub fn eq(a: &H, b: &H) -> bool { a == b }
            #[export_name = concat!("h_", stringify!($pre), "_v_ne")]
            pub fn ne(a: &H, b: &H) -> bool { a != b }
            #[export_name = concat!("h_", stringify!($pre), "_v_cmp")]
            pub fn cmp(a: &H, b: &H) -> i8 { Ord::cmp(a, b) as i8 }
            #[export_name = concat!("h_", stringify!($pre), "_v_partial_cmp")]
            pub fn partial_cmp(a: &H, b: &H) -> i8 { match PartialOrd::partial_cmp(a, b) { Some(x) => x as i8, None => 9 } }
            #[export_name = concat!("h_", stringify!($pre), "_v_lt")]
            pub fn lt(a: &H, b: &H) -> bool { a < b }
            #[export_name = concat!("h_", stringify!($pre), "_v_le")]
            pub fn le(a: &H, b: &H) -> bool { a <= b }
            #[export_name = concat!("h_", stringify!($pre), "_v_gt")]
            pub fn gt(a: &H, b: &H) -> bool { a > b }
            #[export_name = concat!("h_", stringify!($pre), "_v_ge")]
            pub fn ge(a: &H, b: &H) -> bool { a >= b }
            #[export_name = concat!("h_", stringify!($pre), "_v_stdhash")]
            pub fn stdhash(a: &H) { core::hash::Hash::hash(a, &mut ProbeHasher) }
            #[export_name = concat!("h_", stringify!($pre), "_v_clone")]
            pub fn clone(a: &H, out: &mut MaybeUninit<H>) { out.write(Clone::clone(a)); }
        };
    };
}
macro_rules! as_ref_array {
    ($pre:ident, $h:ty, $n:expr) => {
        const _: () = {
            #[export_name = concat!("h_", stringify!($pre), "_v_as_ref_array")]
            pub fn as_ref_array(h: &$h) -> &[u8; $n] { AsRef::<[u8; $n]>::as_ref(h) }
            #[export_name = concat!("h_", stringify!($pre), "_v_len")]
            pub fn len() -> usize { <$h>::LEN }
            #[export_name = concat!("h_", stringify!($pre), "_v_idx_incl")]
            pub fn idx_incl(h: &$h, a: usize, b: usize) -> &[u8] { &h[a..=b] }
        };
    };
}
digest!(sha1, chf::sha1::Hash, 20);
digest!(sha256, chf::sha256::Hash, 32);
digest!(sha384, chf::sha384::Hash, 48);
digest!(sha512, chf::sha512::Hash, 64);
digest!(sha512_256, chf::sha512_256::Hash, 32);
digest!(ripemd160, chf::ripemd160::Hash, 20);
digest!(siphash24, chf::siphash24::Hash, 8);
digest!(sha256t, chf::sha256t::Hash<AnyTag>, 32);
digest!(hmac20, chf::hmac::Hash<20>, 20);
digest!(hmac32, chf::hmac::Hash<32>, 32);
digest!(hmac48, chf::hmac::Hash<48>, 48);
digest!(hmac64, chf::hmac::Hash<64>, 64);
as_ref_array!(sha1, chf::sha1::Hash, 20);
as_ref_array!(sha256, chf::sha256::Hash, 32);
as_ref_array!(sha384, chf::sha384::Hash, 48);
as_ref_array!(sha512, chf::sha512::Hash, 64);
as_ref_array!(sha512_256, chf::sha512_256::Hash, 32);
as_ref_array!(ripemd160, chf::ripemd160::Hash, 20);
as_ref_array!(siphash24, chf::siphash24::Hash, 8);
as_ref_array!(sha256t, chf::sha256t::Hash<AnyTag>, 32);
#[export_name = "h_sha256t_v_default"]
pub fn sha256t_default(out: &mut MaybeUninit<chf::sha256t::Hash<AnyTag>>) { out.write(Default::default()); }

// sha256::Midstate
const _: () = {
    type H = chf::sha256::Midstate;
    const N: usize = 32;
    #[export_name = "h_midstate_v_default"]
    pub fn default(out: &mut MaybeUninit<H>) { out.write(Default::default()); }
    #[export_name = "h_midstate_v_from_byte_array"]
    pub fn from_byte_array(b: &[u8; N], out: &mut MaybeUninit<H>) { out.write(H::from_byte_array(*b)); }
    #[export_name = "h_midstate_v_to_byte_array"]
    pub fn to_byte_array(h: &H, out: &mut [u8; N]) { *out = (*h).to_byte_array(); }
    #[export_name = "h_midstate_v_as_ref"]
    pub fn as_ref(h: &H) -> &[u8] { AsRef::<[u8]>::as_ref(h) }
    #[export_name = "h_midstate_v_from_slice"]
    pub fn from_slice(b: &[u8], out: &mut [u8; N], err: &mut [usize; 4]) -> bool {
        match H::from_slice(b) {
            Ok(h) => { *out = h.to_byte_array(); true }
            Err(e) => { *err = [e.expected, e.got, e.expected_length(), e.invalid_length()]; false }
        }
    }
    #[export_name = "h_midstate_v_idx"]
    pub fn idx(h: &H, i: usize) -> u8 { h[i] }
    #[export_name = "h_midstate_v_idx_full"]
    pub fn idx_full(h: &H) -> &[u8] { &h[..] }
    #[export_name = "h_midstate_v_idx_range"]
    pub fn idx_range(h: &H, a: usize, b: usize) -> &[u8] { &h[a..b] }
    #[export_name = "h_midstate_v_from_hex"]
    pub fn from_hex(s: &str, out: &mut [u8; N]) -> bool {
        match <H as chf::hex::FromHex>::from_hex(s) { Ok(h) => { *out = h.to_byte_array(); true } Err(_) => false }
    }
};
cmp_entries!(midstate, chf::sha256::Midstate, 32);
fmt_entries!(midstate, chf::sha256::Midstate, 32);
#[cfg(feature = "serde")]
serde_entries!(midstate, chf::sha256::Midstate, 32);

#[cfg(feature = "serde")]
pub mod sd;
#[cfg(feature = "serde")]
#[macro_export]
macro_rules! serde_entries {
    ($pre:ident, $h:ty, $n:expr) => {
        const _: () = {
            type H = $h;
            #[export_name = concat!("h_", stringify!($pre), "_v_ser_human")]
            pub fn ser_human(h: &H) -> bool { serde::Serialize::serialize(h, crate::sd::Ser { human: true }).is_ok() }
            #[export_name = concat!("h_", stringify!($pre), "_v_ser_bin")]
            pub fn ser_bin(h: &H) -> bool { serde::Serialize::serialize(h, crate::sd::Ser { human: false }).is_ok() }
            // visitor callback kind: 0 = str, 1 = bytes (binary), 2 = bytes (human), ...
            #[export_name = concat!("h_", stringify!($pre), "_v_de_str")]
            pub fn de_str(s: &str, out: &mut [u8; $n]) -> bool {
                match <H as serde::Deserialize>::deserialize(crate::sd::De { human: true, kind: 0, b: s.as_bytes() }) {
                    Ok(h) => { out.copy_from_slice(&h[..]); true } Err(_) => false }
            }
            #[export_name = concat!("h_", stringify!($pre), "_v_de_bstr")]
            pub fn de_bstr(s: &str, out: &mut [u8; $n]) -> bool {
                match <H as serde::Deserialize>::deserialize(crate::sd::De { human: true, kind: 2, b: s.as_bytes() }) {
                    Ok(h) => { out.copy_from_slice(&h[..]); true } Err(_) => false }
            }
            #[export_name = concat!("h_", stringify!($pre), "_v_de_bbytes")]
            pub fn de_bbytes(b: &[u8], out: &mut [u8; $n]) -> bool {
                match <H as serde::Deserialize>::deserialize(crate::sd::De { human: false, kind: 3, b }) {
                    Ok(h) => { out.copy_from_slice(&h[..]); true } Err(_) => false }
            }
            #[export_name = concat!("h_", stringify!($pre), "_v_de_bytes")]
            pub fn de_bytes(b: &[u8], out: &mut [u8; $n]) -> bool {
                match <H as serde::Deserialize>::deserialize(crate::sd::De { human: false, kind: 1, b }) {
                    Ok(h) => { out.copy_from_slice(&h[..]); true } Err(_) => false }
            }
            #[export_name = concat!("h_", stringify!($pre), "_v_de_human_bbytes")]
            pub fn de_human_bbytes(b: &[u8], out: &mut [u8; $n]) -> bool {
                match <H as serde::Deserialize>::deserialize(crate::sd::De { human: true, kind: 3, b }) {
                    Ok(h) => { out.copy_from_slice(&h[..]); true } Err(_) => false }
            }
            #[export_name = concat!("h_", stringify!($pre), "_v_de_human_bytes")]
            pub fn de_human_bytes(b: &[u8], out: &mut [u8; $n]) -> bool {
                match <H as serde::Deserialize>::deserialize(crate::sd::De { human: true, kind: 1, b }) {
                    Ok(h) => { out.copy_from_slice(&h[..]); true } Err(_) => false }
            }
        };
    };
}
