//! Drives generated Rust code: reads and prints values in the text form of the monitor, measures what decoding allocates.
use std::collections::HashMap;
use std::fmt::Write as _;
use std::hash::Hash;
use std::io::{BufRead, Write};

#[global_allocator]
static ALLOC: talloc::Checked = talloc::Checked;

pub struct Toks<'a> {
    pub t: Vec<&'a str>,
    pub i: usize,
}

impl<'a> Toks<'a> {
    pub fn next(&mut self) -> &'a str {
        self.i += 1;
        self.t[self.i - 1]
    }
    pub fn open(&mut self) {
        let s = self.next();
        assert!(s == "(", "want a message, not {s}");
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return Vec::new();
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for c in b {
        s.push(char::from_digit((c >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((c & 15) as u32, 16).unwrap());
    }
    s
}

pub trait Val: Sized {
    fn build(t: &mut Toks) -> Self;
    fn dump(&self, o: &mut String);
}

macro_rules! int {
    ($($t:ty),*) => {$(impl Val for $t {
        fn build(t: &mut Toks) -> Self { t.next().parse().unwrap() }
        fn dump(&self, o: &mut String) { write!(o, "{} ", self).unwrap() }
    })*};
}
int!(u32, u64, i32, i64);

impl Val for bool {
    fn build(t: &mut Toks) -> Self {
        t.next() == "1"
    }
    fn dump(&self, o: &mut String) {
        o.push_str(if *self { "1 " } else { "0 " })
    }
}
impl Val for f32 {
    fn build(t: &mut Toks) -> Self {
        f32::from_bits(u32::from_str_radix(t.next(), 16).unwrap())
    }
    fn dump(&self, o: &mut String) {
        write!(o, "{:08x} ", self.to_bits()).unwrap()
    }
}
impl Val for f64 {
    fn build(t: &mut Toks) -> Self {
        f64::from_bits(u64::from_str_radix(t.next(), 16).unwrap())
    }
    fn dump(&self, o: &mut String) {
        write!(o, "{:016x} ", self.to_bits()).unwrap()
    }
}
impl Val for String {
    fn build(t: &mut Toks) -> Self {
        String::from_utf8(unhex(&t.next()[1..])).unwrap()
    }
    fn dump(&self, o: &mut String) {
        write!(o, "x{} ", hex(self.as_bytes())).unwrap()
    }
}
impl Val for Vec<u8> {
    fn build(t: &mut Toks) -> Self {
        unhex(&t.next()[1..])
    }
    fn dump(&self, o: &mut String) {
        write!(o, "x{} ", hex(self)).unwrap()
    }
}
impl<T: Val> Val for Vec<T> {
    fn build(t: &mut Toks) -> Self {
        let n: usize = t.next()[1..].parse().unwrap();
        (0..n).map(|_| T::build(t)).collect()
    }
    fn dump(&self, o: &mut String) {
        write!(o, "[{} ", self.len()).unwrap();
        for x in self {
            x.dump(o)
        }
    }
}
impl<K: Val + Eq + Hash, V: Val> Val for HashMap<K, V> {
    fn build(t: &mut Toks) -> Self {
        let n: usize = t.next()[1..].parse().unwrap();
        (0..n)
            .map(|_| {
                let k = K::build(t);
                (k, V::build(t))
            })
            .collect()
    }
    fn dump(&self, o: &mut String) {
        let mut e: Vec<(String, String)> = self
            .iter()
            .map(|(k, v)| {
                let (mut a, mut b) = (String::new(), String::new());
                k.dump(&mut a);
                v.dump(&mut b);
                (a, b)
            })
            .collect();
        e.sort();
        write!(o, "{{{} ", e.len()).unwrap();
        for (k, v) in e {
            o.push_str(&k);
            o.push_str(&v);
        }
    }
}

pub enum Out {
    Value { text: String, again: Result<Vec<u8>, String>, pos: u64, alloc: usize },
    None { pos: u64 },
    Err { text: String, alloc: usize },
}

pub struct T {
    pub name: &'static str,
    pub enc: fn(&mut Toks, Vec<u8>) -> Result<Vec<u8>, String>,
    pub dec: fn(Vec<u8>) -> Out,
    /// decodes the first argument and encodes the value behind what the cursor holds
    pub put: fn(Vec<u8>, &mut std::io::Cursor<Vec<u8>>) -> Result<String, String>,
    /// decodes one message where the cursor stands
    pub get: fn(&mut std::io::Cursor<&mut Vec<u8>>) -> Result<Option<String>, String>,
}

/// Messages and raw bytes ("#") written through one cursor and read through another one. The answer: the bytes and where each part ends.
fn sequence(types: &HashMap<&str, T>, a: &[&str]) -> Result<String, String> {
    let mut w = std::io::Cursor::new(Vec::new());
    let (mut ends, mut texts) = (vec![], vec![]);
    for (i, c) in a.chunks(2).enumerate() {
        let raw = unhex(c[1]);
        let before = w.get_ref().clone();
        if c[0] == "#" {
            w.write_all(&raw).unwrap();
            texts.push(String::new());
        } else {
            let t = types.get(c[0]).ok_or("unknown type")?;
            texts.push((t.put)(raw, &mut w).map_err(|e| format!("part {i}: {e}"))?);
        }
        if w.get_ref()[..before.len()] != before[..] {
            return Err(format!("part {i} changed what was there"));
        }
        if w.position() != w.get_ref().len() as u64 {
            return Err(format!("after part {i} the cursor stands at {} of {}", w.position(), w.get_ref().len()));
        }
        ends.push(w.position());
    }
    let mut whole = w.into_inner();
    let keep = whole.clone();
    let mut r = std::io::Cursor::new(&mut whole);
    for (i, c) in a.chunks(2).enumerate() {
        if c[0] == "#" {
            r.set_position(ends[i]);
            continue;
        }
        match (types[c[0]].get)(&mut r) {
            Ok(Some(t)) if t == texts[i] => {}
            Ok(t) => return Err(format!("part {i} is read as {} instead of {}", t.unwrap_or("nothing".to_string()), texts[i])),
            Err(e) => return Err(format!("part {i} cannot be read: {e}")),
        }
        if r.position() != ends[i] {
            return Err(format!("after part {i} was read the cursor stands at {} instead of {}", r.position(), ends[i]));
        }
    }
    if whole != keep {
        return Err("decoding changed its input".to_string());
    }
    let ends: Vec<String> = ends.iter().map(|e| e.to_string()).collect();
    Ok(format!("S{} {}", hex(&whole), ends.join(",")))
}

pub fn total() -> usize {
    talloc::total()
}

/// Many threads decode the same inputs and encode what they got; each gets what it gets alone.
fn together(types: &HashMap<&str, T>, a: &[&str]) -> String {
    let (g, rounds): (usize, usize) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let show = |t: &T, b: Vec<u8>| match (t.dec)(b) {
        Out::Value { text, again, pos, .. } => {
            let again = match again {
                Ok(b) => match (t.dec)(b.clone()) {
                    Out::Value { text, .. } => format!("{} {text}", b.len()),
                    _ => "what was encoded does not decode".to_string(),
                },
                Err(e) => e,
            };
            format!("{text} @{pos} {again}")
        }
        Out::None { pos } => format!("none {pos}"),
        Out::Err { text, .. } => format!("error {text}"),
    };
    let mut all = vec![];
    for c in a[2..].chunks(2) {
        let Some(t) = types.get(c[0]) else { return format!("?unknown type {}", c[0]) };
        let b = unhex(c[1]);
        let alone = show(t, b.clone());
        all.push((c[0], t, b, alone));
    }
    let bad = std::sync::Mutex::new(String::new());
    let gate = std::sync::Barrier::new(g);
    std::thread::scope(|s| {
        for w in 0..g {
            let (all, gate, bad, show) = (&all, &gate, &bad, &show);
            s.spawn(move || {
                gate.wait();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    for k in 0..rounds {
                        for i in 0..all.len() {
                            let (n, t, b, alone) = &all[(i * (2 * w + 1) + k + w * 5) % all.len()];
                            let got = show(t, b.clone());
                            if got != *alone {
                                *bad.lock().unwrap() = format!("!{n}: decoding and encoding {} among {g} threads gave {got} instead of {alone}", hex(b));
                                return;
                            }
                        }
                    }
                }));
                if r.is_err() {
                    *bad.lock().unwrap_or_else(|e| e.into_inner()) = format!("panic among {g} threads");
                }
            });
        }
    });
    let b = bad.into_inner().unwrap_or_else(|e| e.into_inner());
    if b.is_empty() { format!("C{}", g * rounds * all.len()) } else { b.replace('\n', " ") }
}

pub fn main(types: Vec<T>) {
    let types: HashMap<&str, T> = types.into_iter().map(|t| (t.name, t)).collect();
    std::panic::set_hook(Box::new(|p| eprintln!("{p}")));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut line = String::new();
    let mut stdin = std::io::BufReader::new(stdin.lock());
    loop {
        line.clear();
        if stdin.read_line(&mut line).unwrap() == 0 {
            break;
        }
        let f: Vec<&str> = line.split_whitespace().collect();
        let (cmd, id) = (f[0], f[1]);
        if cmd == "C" {
            let r = together(&types, &f[2..]);
            writeln!(out, "{id} {r}").unwrap();
            out.flush().unwrap();
            continue;
        }
        let Some(t) = types.get(f[if cmd == "S" && f[2] == "#" { 4 } else { 2 }]) else {
            writeln!(out, "{id} ?unknown type {}", f[2]).unwrap();
            continue;
        };
        let r = std::panic::catch_unwind(|| match cmd {
            "S" => sequence(&types, &f[2..]).unwrap_or_else(|e| format!("!{}", e.replace('\n', " "))),
            "E" => {
                let mut k = Toks { t: f[3..].to_vec(), i: 0 };
                match (t.enc)(&mut k, Vec::new()) {
                    Ok(b) => format!("={}", hex(&b)),
                    Err(e) => format!("!{e}"),
                }
            }
            "P" => match (t.dec)(unhex(f[3])) {
                Out::Value { text, again, pos, alloc } => match again {
                    Ok(b) => format!("+{alloc} {text} ={}@{pos}", hex(&b)),
                    Err(e) => format!("!{alloc} cannot encode again: {e}"),
                },
                Out::None { pos } => format!("-{pos}"),
                Out::Err { text, alloc } => format!("!{alloc} x{} {}", hex(text.as_bytes()), text.replace('\n', " ")),
            },
            "L" => {
                // messages that never come twice, dropped at once: by how much what is alive grew in each of three stretches
                let (rounds, pad): (usize, usize) = (f[3].parse().unwrap(), f[4].parse().unwrap());
                let mut n = 0usize;
                let mut bad = None;
                let mut stretch = |k: usize| {
                    for _ in 0..k {
                        n += 1;
                        let more = hex(&format!("{n:08}").repeat(pad / 8 + 1).as_bytes()[..pad]);
                        let toks: Vec<String> = f[5..].iter().map(|s| if s.starts_with('x') { format!("{s}{more}") } else { s.to_string() }).collect();
                        let mut k = Toks { t: toks.iter().map(|s| &s[..]).collect(), i: 0 };
                        let Ok(b) = (t.enc)(&mut k, Vec::new()) else {
                            bad = Some("encode");
                            return;
                        };
                        let cut = b[..n * 7919 % b.len().max(1)].to_vec();
                        if !matches!((t.dec)(b), Out::Value { .. }) {
                            bad = Some("decode");
                        }
                        drop((t.dec)(cut));
                    }
                };
                stretch(rounds / 4 + 1);
                let mut last = talloc::live().0 as i64;
                let mut grown = vec![];
                for _ in 0..3 {
                    stretch(rounds);
                    let now = talloc::live().0 as i64;
                    grown.push((now - last).to_string());
                    last = talloc::live().0 as i64;
                }
                match bad {
                    None => format!("L{}", grown.join(",")),
                    Some(b) => format!("!0 cannot {b}"),
                }
            }
            _ => "?command".to_string(),
        });
        let r = r.unwrap_or_else(|p| {
            format!("panic {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
        });
        let (n, code) = talloc::faults();
        if n > 0 {
            writeln!(out, "{id} panic the checking allocator saw misuse code {code}").unwrap();
        } else {
            writeln!(out, "{id} {r}").unwrap();
        }
        if stdin.buffer().is_empty() {
            out.flush().unwrap();
        }
    }
    out.flush().unwrap();
}
