//! Runs the Rust library and the C entry points for ThreadSanitizer and Miri.
//!
//! cconc MODE SEED COUNT; prints one JSON object per line.
extern crate polyglot; // links the entry points below
use polyglot_rs::{Decoder, Encoder, Kind};
use std::collections::BTreeMap;
use std::io::Cursor;
use std::sync::{Arc, Barrier};

mod api {
    //! The C API as polyglot.h declares it.
    use polyglot::types::Kind;
    use std::ffi::{c_char, c_void};
    /// A kind code as the C side passes it; codes above 16 are not values of the enum.
    pub fn kind(k: u8) -> Kind {
        assert!(k <= 16);
        unsafe { std::mem::transmute(k) }
    }
    pub type P = *mut c_void;
    #[repr(C)]
    pub struct Buffer {
        pub data: *mut u8,
        pub length: u32,
    }
    extern "C" {
        pub fn polyglot_new_encoder(st: *mut u8) -> P;
        pub fn polyglot_encoder_size(st: *mut u8, e: P) -> u32;
        pub fn polyglot_encoder_buffer(st: *mut u8, e: P, b: *mut u8, n: u32);
        pub fn polyglot_free_encoder(e: P);
        pub fn polyglot_encode_none(st: *mut u8, e: P);
        pub fn polyglot_encode_array(st: *mut u8, e: P, n: u32, k: Kind);
        pub fn polyglot_encode_map(st: *mut u8, e: P, n: u32, k: Kind, v: Kind);
        pub fn polyglot_encode_bytes(st: *mut u8, e: P, b: *mut u8, n: u32);
        pub fn polyglot_encode_string(st: *mut u8, e: P, s: *const c_char);
        pub fn polyglot_encode_error(st: *mut u8, e: P, s: *mut c_char);
        pub fn polyglot_encode_bool(st: *mut u8, e: P, v: bool);
        pub fn polyglot_encode_u8(st: *mut u8, e: P, v: u8);
        pub fn polyglot_encode_u16(st: *mut u8, e: P, v: u16);
        pub fn polyglot_encode_u32(st: *mut u8, e: P, v: u32);
        pub fn polyglot_encode_u64(st: *mut u8, e: P, v: u64);
        pub fn polyglot_encode_i32(st: *mut u8, e: P, v: i32);
        pub fn polyglot_encode_i64(st: *mut u8, e: P, v: i64);
        pub fn polyglot_encode_f32(st: *mut u8, e: P, v: f32);
        pub fn polyglot_encode_f64(st: *mut u8, e: P, v: f64);
        pub fn polyglot_new_decoder(st: *mut u8, b: *mut u8, n: u32) -> P;
        pub fn polyglot_free_decoder(d: P);
        pub fn polyglot_decode_none(st: *mut u8, d: P) -> bool;
        pub fn polyglot_decode_array(st: *mut u8, d: P, k: Kind) -> u32;
        pub fn polyglot_decode_map(st: *mut u8, d: P, k: Kind, v: Kind) -> u32;
        pub fn polyglot_decode_bytes(st: *mut u8, d: P) -> *mut Buffer;
        pub fn polyglot_free_decode_bytes(b: *mut Buffer);
        pub fn polyglot_decode_string(st: *mut u8, d: P) -> *mut c_char;
        pub fn polyglot_free_decode_string(s: *mut c_char);
        pub fn polyglot_decode_error(st: *mut u8, d: P) -> *mut c_char;
        pub fn polyglot_free_decode_error(s: *mut c_char);
        pub fn polyglot_decode_bool(st: *mut u8, d: P) -> bool;
        pub fn polyglot_decode_u8(st: *mut u8, d: P) -> u8;
        pub fn polyglot_decode_u16(st: *mut u8, d: P) -> u16;
        pub fn polyglot_decode_u32(st: *mut u8, d: P) -> u32;
        pub fn polyglot_decode_u64(st: *mut u8, d: P) -> u64;
        pub fn polyglot_decode_i32(st: *mut u8, d: P) -> i32;
        pub fn polyglot_decode_i64(st: *mut u8, d: P) -> i64;
        pub fn polyglot_decode_f32(st: *mut u8, d: P) -> f32;
        pub fn polyglot_decode_f64(st: *mut u8, d: P) -> f64;
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let z = (self.0 ^ (self.0 >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        let z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn n(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn bits(&mut self, max: usize) -> u64 {
        match self.n(max + 1) {
            0 => 0,
            b => self.next() >> (64 - b),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Item {
    None,
    Array(u8, u32),
    Map(u8, u8, u32),
    Bytes(Vec<u8>),
    Str(String),
    Err(String),
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
}

fn text(r: &mut Rng, max: usize) -> String {
    let n = match r.n(4) {
        0 => [0, 1, 127, 128, 129][r.n(5)].min(max),
        _ => r.n(max + 1),
    };
    let mut s = String::new();
    while s.len() < n {
        s.push(*[b'a' as char, 'é', '€', 'z', '𝄞'].get(r.n(5)).unwrap());
    }
    s
}

fn text_of(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    while s.len() < n {
        s.push(*[b'a' as char, 'é', '€', 'z', '𝄞'].get(r.n(5)).unwrap());
    }
    s
}

fn item(r: &mut Rng, max: usize) -> Item {
    match r.n(15) {
        0 => Item::None,
        1 => Item::Array(r.n(16) as u8, r.bits(32) as u32),
        2 => Item::Map(r.n(16) as u8, r.n(16) as u8, r.bits(32) as u32),
        3 => Item::Bytes((0..r.n(max + 1)).map(|_| r.next() as u8).collect()),
        4 => Item::Str(text(r, max)),
        5 => Item::Err(text(r, max)),
        6 => Item::Bool(r.n(2) == 1),
        7 => Item::U8(r.next() as u8),
        8 => Item::U16(r.bits(16) as u16),
        9 => Item::U32(r.bits(32) as u32),
        10 => Item::U64(r.bits(64)),
        11 => Item::I32({
            let v = r.bits(32) as u32;
            (v >> 1) as i32 ^ -((v & 1) as i32)
        }),
        12 => Item::I64({
            let v = r.bits(64);
            (v >> 1) as i64 ^ -((v & 1) as i64)
        }),
        13 => Item::F32(r.next() as u32 & 0x7f7fffff),
        _ => Item::F64(r.next() & 0x7fefffffffffffff),
    }
}

fn varint(o: &mut Vec<u8>, mut v: u64) {
    while v >= 128 {
        o.push(v as u8 | 128);
        v >>= 7;
    }
    o.push(v as u8);
}

/// The documented encoding.
fn model(o: &mut Vec<u8>, i: &Item) {
    let data = |o: &mut Vec<u8>, b: &[u8]| {
        o.push(10);
        varint(o, b.len() as u64);
        o.extend_from_slice(b);
    };
    match i {
        Item::None => o.push(0),
        Item::Array(k, n) => {
            o.extend([1, *k, 10]);
            varint(o, *n as u64);
        }
        Item::Map(k, v, n) => {
            o.extend([2, *k, *v, 10]);
            varint(o, *n as u64);
        }
        Item::Bytes(b) => {
            o.push(4);
            data(o, b);
        }
        Item::Str(s) => {
            o.push(5);
            data(o, s.as_bytes());
        }
        Item::Err(s) => {
            o.extend([6, 5]);
            data(o, s.as_bytes());
        }
        Item::Bool(b) => o.extend([7, *b as u8]),
        Item::U8(v) => o.extend([8, *v]),
        Item::U16(v) => {
            o.push(9);
            varint(o, *v as u64);
        }
        Item::U32(v) => {
            o.push(10);
            varint(o, *v as u64);
        }
        Item::U64(v) => {
            o.push(11);
            varint(o, *v);
        }
        Item::I32(v) => {
            o.push(12);
            varint(o, ((*v << 1) ^ (*v >> 31)) as u32 as u64);
        }
        Item::I64(v) => {
            o.push(13);
            varint(o, ((*v << 1) ^ (*v >> 63)) as u64);
        }
        Item::F32(v) => {
            o.push(14);
            o.extend(v.to_be_bytes());
        }
        Item::F64(v) => {
            o.push(15);
            o.extend(v.to_be_bytes());
        }
    }
}

// ---- Rust API ----

fn rust_encode(e: &mut Cursor<Vec<u8>>, i: &Item) {
    match i {
        Item::None => e.encode_none().map(|_| ()),
        Item::Array(k, n) => e.encode_array(*n as usize, Kind::from(*k)).map(|_| ()),
        Item::Map(k, v, n) => e.encode_map(*n as usize, Kind::from(*k), Kind::from(*v)).map(|_| ()),
        Item::Bytes(b) => e.encode_bytes(b).map(|_| ()),
        Item::Str(s) => e.encode_str(s).map(|_| ()),
        Item::Err(s) => e.encode_error(s.clone().into()).map(|_| ()),
        Item::Bool(v) => e.encode_bool(*v).map(|_| ()),
        Item::U8(v) => e.encode_u8(*v).map(|_| ()),
        Item::U16(v) => e.encode_u16(*v).map(|_| ()),
        Item::U32(v) => e.encode_u32(*v).map(|_| ()),
        Item::U64(v) => e.encode_u64(*v).map(|_| ()),
        Item::I32(v) => e.encode_i32(*v).map(|_| ()),
        Item::I64(v) => e.encode_i64(*v).map(|_| ()),
        Item::F32(v) => e.encode_f32(f32::from_bits(*v)).map(|_| ()),
        Item::F64(v) => e.encode_f64(f64::from_bits(*v)).map(|_| ()),
    }
    .unwrap()
}

fn rust_decode(d: &mut Cursor<&[u8]>, like: &Item) -> Option<Item> {
    match like {
        Item::None => d.decode_none().then_some(Item::None),
        Item::Array(k, _) => d.decode_array(Kind::from(*k)).ok().map(|n| Item::Array(*k, n as u32)),
        Item::Map(k, v, _) => d.decode_map(Kind::from(*k), Kind::from(*v)).ok().map(|n| Item::Map(*k, *v, n as u32)),
        Item::Bytes(_) => d.decode_bytes().ok().map(Item::Bytes),
        Item::Str(_) => d.decode_string().ok().map(Item::Str),
        Item::Err(_) => d.decode_error().ok().map(|e| Item::Err(e.to_string())),
        Item::Bool(_) => d.decode_bool().ok().map(Item::Bool),
        Item::U8(_) => d.decode_u8().ok().map(Item::U8),
        Item::U16(_) => d.decode_u16().ok().map(Item::U16),
        Item::U32(_) => d.decode_u32().ok().map(Item::U32),
        Item::U64(_) => d.decode_u64().ok().map(Item::U64),
        Item::I32(_) => d.decode_i32().ok().map(Item::I32),
        Item::I64(_) => d.decode_i64().ok().map(Item::I64),
        Item::F32(_) => d.decode_f32().ok().map(|v| Item::F32(v.to_bits())),
        Item::F64(_) => d.decode_f64().ok().map(|v| Item::F64(v.to_bits())),
    }
}

// ---- C API ----

struct CEnc(api::P);
struct CDec(api::P);

fn c_encode(e: &CEnc, i: &Item) -> u8 {
    let mut st = 77u8;
    let s = &mut st as *mut u8;
    let cstr = |t: &str| std::ffi::CString::new(t).unwrap();
    unsafe {
        match i {
            Item::None => api::polyglot_encode_none(s, e.0),
            Item::Array(k, n) => api::polyglot_encode_array(s, e.0, *n, api::kind(*k)),
            Item::Map(k, v, n) => api::polyglot_encode_map(s, e.0, *n, api::kind(*k), api::kind(*v)),
            Item::Bytes(b) => {
                let mut b = b.clone();
                api::polyglot_encode_bytes(s, e.0, b.as_mut_ptr(), b.len() as u32)
            }
            Item::Str(t) => api::polyglot_encode_string(s, e.0, cstr(t).as_ptr()),
            Item::Err(t) => {
                let raw = cstr(t).into_raw();
                api::polyglot_encode_error(s, e.0, raw);
                drop(std::ffi::CString::from_raw(raw));
            }
            Item::Bool(v) => api::polyglot_encode_bool(s, e.0, *v),
            Item::U8(v) => api::polyglot_encode_u8(s, e.0, *v),
            Item::U16(v) => api::polyglot_encode_u16(s, e.0, *v),
            Item::U32(v) => api::polyglot_encode_u32(s, e.0, *v),
            Item::U64(v) => api::polyglot_encode_u64(s, e.0, *v),
            Item::I32(v) => api::polyglot_encode_i32(s, e.0, *v),
            Item::I64(v) => api::polyglot_encode_i64(s, e.0, *v),
            Item::F32(v) => api::polyglot_encode_f32(s, e.0, f32::from_bits(*v)),
            Item::F64(v) => api::polyglot_encode_f64(s, e.0, f64::from_bits(*v)),
        }
    }
    st
}

impl CEnc {
    fn new() -> CEnc {
        let mut st = 77;
        let e = unsafe { api::polyglot_new_encoder(&mut st) };
        assert!(!e.is_null() && st == 0);
        CEnc(e)
    }
    fn bytes(&self) -> Vec<u8> {
        let mut st = 77;
        unsafe {
            let n = api::polyglot_encoder_size(&mut st, self.0);
            assert_eq!(st, 0);
            let mut v = vec![0xC5u8; n as usize];
            st = 77;
            api::polyglot_encoder_buffer(&mut st, self.0, v.as_mut_ptr(), n);
            assert_eq!(st, 0);
            v
        }
    }
}
impl Drop for CEnc {
    fn drop(&mut self) {
        unsafe { api::polyglot_free_encoder(self.0) }
    }
}
impl CDec {
    fn new(b: &[u8]) -> CDec {
        let mut b = b.to_vec();
        let mut st = 77;
        let d = unsafe { api::polyglot_new_decoder(&mut st, b.as_mut_ptr(), b.len() as u32) };
        assert!(!d.is_null() && st == 0);
        CDec(d)
    }
}
impl Drop for CDec {
    fn drop(&mut self) {
        unsafe { api::polyglot_free_decoder(self.0) }
    }
}

/// An object the library returned and the caller still holds.
enum Held {
    Bytes(*mut api::Buffer),
    Str(*mut std::ffi::c_char),
    Err(*mut std::ffi::c_char),
}
impl Held {
    fn item(&self) -> Item {
        unsafe {
            let t = |p: *mut std::ffi::c_char| std::ffi::CStr::from_ptr(p).to_str().unwrap().to_string();
            match self {
                Held::Bytes(b) => Item::Bytes(std::slice::from_raw_parts((**b).data, (**b).length as usize).to_vec()),
                Held::Str(p) => Item::Str(t(*p)),
                Held::Err(p) => Item::Err(t(*p)),
            }
        }
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        unsafe {
            match self {
                Held::Bytes(b) => api::polyglot_free_decode_bytes(*b),
                Held::Str(p) => api::polyglot_free_decode_string(*p),
                Held::Err(p) => api::polyglot_free_decode_error(*p),
            }
        }
    }
}

fn c_decode(d: &CDec, like: &Item) -> (u8, Option<Item>, Option<Held>) {
    let mut st = 77u8;
    let s = &mut st as *mut u8;
    let mut held = None;
    let v = unsafe {
        match like {
            Item::None => {
                if api::polyglot_decode_none(s, d.0) {
                    Item::None
                } else {
                    return (1, None, None);
                }
            }
            Item::Array(k, _) => Item::Array(*k, api::polyglot_decode_array(s, d.0, api::kind(*k))),
            Item::Map(k, v, _) => Item::Map(*k, *v, api::polyglot_decode_map(s, d.0, api::kind(*k), api::kind(*v))),
            Item::Bytes(_) => {
                let p = api::polyglot_decode_bytes(s, d.0);
                if p.is_null() {
                    return (st, None, None);
                }
                let h = Held::Bytes(p);
                let i = h.item();
                held = Some(h);
                i
            }
            Item::Str(_) | Item::Err(_) => {
                let h = if let Item::Str(_) = like {
                    let p = api::polyglot_decode_string(s, d.0);
                    if p.is_null() {
                        return (st, None, None);
                    }
                    Held::Str(p)
                } else {
                    let p = api::polyglot_decode_error(s, d.0);
                    if p.is_null() {
                        return (st, None, None);
                    }
                    Held::Err(p)
                };
                let i = h.item();
                held = Some(h);
                i
            }
            Item::Bool(_) => Item::Bool(api::polyglot_decode_bool(s, d.0)),
            Item::U8(_) => Item::U8(api::polyglot_decode_u8(s, d.0)),
            Item::U16(_) => Item::U16(api::polyglot_decode_u16(s, d.0)),
            Item::U32(_) => Item::U32(api::polyglot_decode_u32(s, d.0)),
            Item::U64(_) => Item::U64(api::polyglot_decode_u64(s, d.0)),
            Item::I32(_) => Item::I32(api::polyglot_decode_i32(s, d.0)),
            Item::I64(_) => Item::I64(api::polyglot_decode_i64(s, d.0)),
            Item::F32(_) => Item::F32(api::polyglot_decode_f32(s, d.0).to_bits()),
            Item::F64(_) => Item::F64(api::polyglot_decode_f64(s, d.0).to_bits()),
        }
    };
    (st, (st == 0).then_some(v), held)
}

fn violation(s: String) {
    println!("{{\"violation\":{:?}}}", s.chars().filter(|c| c.is_ascii() && *c != '\'').collect::<String>());
}

/// Random histories of the C API; under Miri every access is checked.
fn history(seed: u64, k: u64, counts: &mut BTreeMap<&'static str, u64>) {
    let r = &mut Rng(seed * 1000003 + k);
    let mut encs: Vec<(CEnc, Vec<u8>, Vec<Item>)> = vec![];
    let mut decs: Vec<(CDec, Vec<Item>, usize)> = vec![]; // hostile ones have position usize::MAX
    let mut held: Vec<(Held, Item)> = vec![];
    let mut log = String::new();
    for _ in 0..15 + r.n(25) {
        match r.n(12) {
            0 | 1 if encs.len() < 3 => {
                encs.push((CEnc::new(), vec![], vec![]));
                log.push_str("enc ");
            }
            2 if !encs.is_empty() => {
                let i = r.n(encs.len());
                let (e, want, _) = encs.swap_remove(i);
                if e.bytes() != want {
                    violation(format!("history {k}: the encoder holds other bytes than were encoded: {log}"));
                }
                log.push_str("free-enc ");
            }
            3..=5 if !encs.is_empty() => {
                let i = r.n(encs.len());
                for _ in 0..1 + r.n(5) {
                    let o = item(r, 140);
                    let st = c_encode(&encs[i].0, &o);
                    if st != 0 {
                        violation(format!("history {k}: encoding {o:?}: status {st}: {log}"));
                    }
                    model(&mut encs[i].1, &o);
                    encs[i].2.push(o);
                }
                log.push_str("encode ");
            }
            6 if !encs.is_empty() && decs.len() < 4 => {
                let i = (0..encs.len()).max_by_key(|i| encs[*i].1.len() + r.n(100)).unwrap();
                let mut b = encs[i].1.clone();
                if r.n(3) == 0 {
                    let n = 1 + r.n(b.len());
                    b.truncate(n);
                    for _ in 0..r.n(4) {
                        if !b.is_empty() {
                            let at = r.n(b.len());
                            b[at] = if r.n(2) == 0 { r.next() as u8 } else { r.n(17) as u8 };
                        }
                    }
                    log.push_str("hostile-dec ");
                    decs.push((CDec::new(&b), encs[i].2.clone(), usize::MAX));
                } else {
                    log.push_str("dec ");
                    decs.push((CDec::new(&b), encs[i].2.clone(), 0));
                }
            }
            7..=9 if !decs.is_empty() => {
                let i = r.n(decs.len());
                for _ in 0..1 + r.n(6) {
                    *counts.entry("calls").or_default() += 1;
                    let (d, items, at) = &mut decs[i];
                    let next = items.get(*at).cloned();
                    let q = if *at == usize::MAX && !items.is_empty() {
                        items[r.n(items.len())].clone()
                    } else {
                        next.clone().unwrap_or(Item::U8(0))
                    };
                    if r.n(4) == 0 {
                        let probe = item(r, 1);
                        let same = std::mem::discriminant(&probe) == std::mem::discriminant(&q);
                        if !same && *at != usize::MAX {
                            let (st, v, h) = c_decode(d, &probe);
                            if st == 0 || v.is_some() || h.is_some() {
                                violation(format!("history {k}: decoding {probe:?} where {next:?} is: status {st}: {log}"));
                            }
                        }
                    }
                    let (st, v, h) = c_decode(d, &q);
                    if *at != usize::MAX {
                        if v != next && !(next.is_none() && st != 0) {
                            violation(format!("history {k}: decoded {v:?} instead of {next:?}, status {st}: {log}"));
                        }
                        *at += next.is_some() as usize;
                    }
                    if let (Some(h), Some(v)) = (h, v) {
                        held.push((h, v));
                    }
                }
                log.push_str("decode ");
            }
            10 if !decs.is_empty() => {
                let i = r.n(decs.len());
                drop(decs.swap_remove(i));
                log.push_str("free-dec ");
            }
            11 if !held.is_empty() => {
                for _ in 0..1 + r.n(3) {
                    if !held.is_empty() {
                        let i = r.n(held.len());
                        let (h, want) = held.swap_remove(i);
                        if h.item() != want {
                            violation(format!("history {k}: a returned object changed: {log}"));
                        }
                    }
                }
                log.push_str("free-ret ");
            }
            _ => {}
        }
    }
    drop(encs);
    if r.n(2) == 0 {
        decs.clear();
    }
    for (h, want) in &held {
        if h.item() != *want {
            violation(format!("history {k}: a returned object changed: {log}"));
        }
    }
    *counts.entry("histories").or_default() += 1;
    *counts.entry("objects returned and held").or_default() += held.len() as u64;
    println!("{{\"note\":\"history {k}: {}\"}}", log.trim());
}

/// Everything Miri should see of the Rust API: all items, mismatches, hostile bytes.
fn hostile(seed: u64, k: u64, counts: &mut BTreeMap<&'static str, u64>) {
    let r = &mut Rng(seed * 77 + k);
    let items: Vec<Item> = (0..4).map(|_| item(r, 140)).collect();
    let mut e = Cursor::new(Vec::with_capacity(r.n(20)));
    let mut want = vec![];
    for i in &items {
        rust_encode(&mut e, i);
        model(&mut want, i);
    }
    let mut b = e.into_inner();
    if b != want {
        violation(format!("encoding {items:?} gave other bytes than the wire format"));
    }
    let mut d = Cursor::new(&b[..]);
    for i in &items {
        if rust_decode(&mut d, i).as_ref() != Some(i) {
            violation(format!("{i:?} does not decode to itself"));
        }
    }
    let n = 1 + r.n(b.len());
    b.truncate(n);
    for _ in 0..1 + r.n(3) {
        let at = r.n(b.len());
        b[at] = r.next() as u8;
    }
    let mut d = Cursor::new(&b[..]);
    let c = CDec::new(&b);
    for _ in 0..8 {
        let q = if r.n(2) == 0 { items[r.n(4)].clone() } else { item(r, 1) };
        let a = rust_decode(&mut d, &q);
        let (_, v, _h) = c_decode(&c, &q);
        let nul = |x: &Option<Item>| matches!(x, Some(Item::Str(s) | Item::Err(s)) if s.contains('\0'));
        if a != v && !nul(&a) {
            violation(format!("Rust and C disagree on {b:?}: {a:?} and {v:?} for {q:?}"));
        }
        *counts.entry("calls").or_default() += 1;
    }
    println!("{{\"note\":\"hostile {k}\"}}");
}

fn threads(seed: u64, rounds: u64, g: usize, len: usize, counts: &mut BTreeMap<&'static str, u64>) {
    let r = &mut Rng(seed + g as u64);
    let large = [300, 300, 5000, 140_000];
    let items: Arc<Vec<Item>> = Arc::new((0..len).map(|n| item(r, large[if len > 50 && n % 25 == 7 { n / 25 } else { 0 }])).collect());
    let mut want = vec![];
    items.iter().for_each(|i| model(&mut want, i));
    let mut bad = want.clone();
    for _ in 0..10 {
        let at = r.n(bad.len());
        bad[at] = r.next() as u8;
    }
    let alone: Vec<Option<Item>> = {
        let mut d = Cursor::new(&bad[..]);
        items.iter().map(|i| rust_decode(&mut d, i)).collect()
    };
    let (want, bad, alone) = (Arc::new(want), Arc::new(bad), Arc::new(alone));
    let gate = Arc::new(Barrier::new(g));
    let ts: Vec<_> = (0..g)
        .map(|w| {
            let (items, want, bad, alone, gate) = (items.clone(), want.clone(), bad.clone(), alone.clone(), gate.clone());
            std::thread::spawn(move || {
                for k in 0..rounds {
                    gate.wait();
                    let c = (w as u64 + k) % 2 == 0;
                    let got = if c {
                        let e = CEnc::new();
                        items.iter().for_each(|i| {
                            c_encode(&e, i);
                        });
                        e.bytes()
                    } else {
                        let mut e = Cursor::new(vec![]);
                        items.iter().for_each(|i| rust_encode(&mut e, i));
                        e.into_inner()
                    };
                    if got != *want {
                        violation(format!("{g} threads, round {k}: encoding gave other bytes than alone"));
                    }
                    if c {
                        let d = CDec::new(&want);
                        for i in items.iter() {
                            let (_, v, _h) = c_decode(&d, i);
                            if v.as_ref() != Some(i) {
                                violation(format!("{g} threads, round {k}: {i:?} decoded to {v:?} (C)"));
                            }
                        }
                    } else {
                        let mut d = Cursor::new(&want[..]);
                        for i in items.iter() {
                            let v = rust_decode(&mut d, i);
                            if v.as_ref() != Some(i) {
                                violation(format!("{g} threads, round {k}: {i:?} decoded to {v:?}"));
                            }
                        }
                        let mut d = Cursor::new(&bad[..]);
                        for (i, a) in items.iter().zip(alone.iter()) {
                            if rust_decode(&mut d, i) != *a {
                                violation(format!("{g} threads, round {k}: malformed input decodes otherwise than alone"));
                            }
                        }
                    }
                }
            })
        })
        .collect();
    for t in ts {
        if t.join().is_err() {
            violation(format!("{g} threads: a thread panicked"));
        }
    }
    *counts.entry("thread rounds").or_default() += rounds * g as u64;
    *counts.entry("calls under concurrency").or_default() += rounds * (g * len * 2) as u64;
    println!("{{\"note\":\"{g} threads, {rounds} rounds of {len} items, seed {seed}\"}}");
}

/// Every thread encodes and decodes values of one kind, its own ones, as fast as it can, and keeps some
/// results a while; data comes in sizes beyond what a scratch space or a pool may single out.
fn storms(seed: u64, rounds: u64, counts: &mut BTreeMap<&'static str, u64>) {
    for kind in 0..15 {
        storm(seed, rounds, kind, 24, counts);
        if (4..7).contains(&[0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15][kind]) && rounds > 20 {
            storm(seed, rounds / 2, kind, 600, counts);
            storm(seed, rounds / 4, kind, 6000, counts);
            storm(seed, rounds / 20, kind, 80_000, counts);
            storm(seed, rounds / 200 + 2, kind, 1_200_000, counts);
        }
    }
}

fn storm(seed: u64, rounds: u64, kind: usize, size: usize, counts: &mut BTreeMap<&'static str, u64>) {
    let r = &mut Rng(seed ^ 0x5707 ^ (size as u64 - 24) << 8 ^ (kind as u64) << 50);
    let g = 8;
    let tag = [0u8, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15][kind];
    let gate = Arc::new(Barrier::new(g));
    let short = |i: &Item| {
        let t = format!("{i:?}");
        t.chars().take(200).collect::<String>()
    };
    let ts: Vec<_> = (0..g)
        .map(|w| {
            let mut own: Vec<(Item, Vec<u8>)> = vec![];
            while own.len() < 3 {
                let i = if size == 24 {
                    item(r, 24)
                } else {
                    let n = if own.is_empty() { size / 2 } else { r.n(size) };
                    match tag {
                        4 => Item::Bytes((0..n).map(|_| r.next() as u8).collect()),
                        5 => Item::Str(text_of(r, n)),
                        _ => Item::Err(text_of(r, n)),
                    }
                };
                let mut b = vec![];
                model(&mut b, &i);
                if b[0] == tag {
                    own.push((i, b));
                }
            }
            let gate = gate.clone();
            std::thread::spawn(move || {
                gate.wait();
                let mut held: Vec<(Option<Held>, Option<Item>, Vec<u8>, usize)> = vec![];
                for k in 0..rounds {
                    let at = (k % 3) as usize;
                    let (i, want) = &own[at];
                    let (got, back, h) = if (k + w as u64) % 4 == 0 {
                        let e = CEnc::new();
                        c_encode(&e, i);
                        let d = CDec::new(want);
                        let (_, v, h) = c_decode(&d, i);
                        (e.bytes(), v, h)
                    } else {
                        let mut e = Cursor::new(vec![]);
                        rust_encode(&mut e, i);
                        (e.into_inner(), rust_decode(&mut Cursor::new(&want[..]), i), None)
                    };
                    if got != *want || back.as_ref() != Some(i) {
                        violation(format!("{g} threads with values of their own: {} became {} and {}", short(i), short(&Item::Bytes(got)), short(&back.unwrap_or(Item::None))));
                        return;
                    }
                    if size > 24 || k % 8 == 0 {
                        held.push((h, back, got, at));
                    }
                    if held.len() > 4 {
                        let (h, back, got, at) = held.remove(0);
                        let (i, want) = &own[at];
                        if h.map_or(false, |h| h.item() != *i) || back.as_ref() != Some(i) || got != *want {
                            violation(format!("{g} threads with values of their own: a result held for {} changed", short(i)));
                            return;
                        }
                    }
                }
            })
        })
        .collect();
    for t in ts {
        if t.join().is_err() {
            violation(format!("storm of kind {kind}: a thread panicked"));
        }
    }
    *counts.entry("calls in storms of one kind").or_default() += rounds * g as u64 * 2;
    println!("{{\"note\":\"storm of kind {kind}, up to {size} bytes, {g} threads, {rounds} rounds, seed {seed}\"}}");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut counts = BTreeMap::new();
    match a[1].as_str() {
        "history" => (0..n).for_each(|k| history(seed, k, &mut counts)),
        "hostile" => (0..n).for_each(|k| hostile(seed, k, &mut counts)),
        "threads" => {
            storms(seed, n * 2, &mut counts);
            threads(seed, n, 2, 100, &mut counts);
            threads(seed, n, 8, 100, &mut counts);
            threads(seed, n / 4 + 1, 24, 100, &mut counts);
        }
        "few" => threads(seed, n, 3, 15, &mut counts),
        "nothing" => {}
        _ => std::process::exit(2),
    }
    let c: Vec<String> = counts.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    println!("{{\"counts\":{{{}}},\"done\":true}}", c.join(","));
}
