//! The Rust implementation under the line protocol of the monitor.
use polyglot_rs::{Decoder, DecodingError, Encoder, Kind};
use std::io::{BufRead, Cursor, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static A: talloc::Checked = talloc::Checked;

const DIGEST_OVER: usize = 4096;

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        _ => c - b'a' + 10,
    };
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

fn hex(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for c in b {
        s.push(H[(c >> 4) as usize] as char);
        s.push(H[(c & 15) as usize] as char);
    }
    s
}

fn digest(b: &[u8]) -> String {
    let (mut h1, mut h2) = (2166136261u32, 84696351u32);
    for &c in b {
        h1 = (h1 ^ c as u32).wrapping_mul(16777619);
        h2 = (h2 ^ c as u32).wrapping_mul(16777619).rotate_left(5);
    }
    format!("#{}:{:08x}:{:08x}", b.len(), h1, h2)
}

fn data_text(c: char, b: &[u8]) -> String {
    if b.len() > DIGEST_OVER {
        format!("{c}{}", digest(b))
    } else {
        format!("{c}{}", hex(b))
    }
}

fn pattern(n: usize, seed: u8, ascii: bool) -> Vec<u8> {
    let mut x = (seed as u32).wrapping_mul(2654435761).wrapping_add(1);
    let mut v = Vec::with_capacity(n);
    let wide = ascii && seed >= 200;
    while v.len() < n {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        let c = (x >> 24) as u8;
        let room = n - v.len();
        if wide && c % 3 == 0 && room >= 2 {
            v.extend([0xc3, 0x80 + c % 64]);
        } else if wide && c % 7 == 0 && room >= 3 {
            v.extend([0xe4, 0xb8, 0x80 + c % 64]);
        } else if wide && c % 11 == 0 && room >= 4 {
            v.extend([0xf0, 0x9f, 0x98, 0x80 + c % 64]);
        } else {
            v.push(if ascii { b'a' + c % 26 } else { c });
        }
    }
    v
}

type Enc = Cursor<Vec<u8>>;

fn kind(s: &str) -> Kind {
    Kind::from(s.parse::<u8>().unwrap())
}

/// Errors of every make whose text is the given one and nothing else about them is.
struct Wrapping(String, Option<Box<Wrapping>>);
impl std::fmt::Display for Wrapping {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // in pieces, and another text in the alternate form
        if f.alternate() {
            return f.write_str("alternate");
        }
        let mut at = self.0.len() / 2;
        while !self.0.is_char_boundary(at) {
            at -= 1;
        }
        f.write_str(&self.0[..at])?;
        f.write_str(&self.0[at..])
    }
}
impl std::fmt::Debug for Wrapping {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("debug")
    }
}
impl std::error::Error for Wrapping {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|e| &**e as _)
    }
    fn description(&self) -> &str {
        "description"
    }
}

fn error_of(t: String) -> Box<dyn std::error::Error> {
    let n = t.len() + t.as_bytes().get(t.len() / 2).map_or(0, |b| *b as usize);
    let inner = |t: &str, i| Some(Box::new(Wrapping(t.to_owned(), i)));
    match n % 6 {
        0 => t.into(),
        1 => (&*t).into(),
        2 => Box::new(Wrapping(t, None)),
        3 => Box::new(Wrapping(t, inner("middle", inner("innermost", None)))),
        4 => Box::<dyn std::error::Error + Send + Sync>::from(t),
        _ => Box::new(std::io::Error::new(std::io::ErrorKind::Other, Wrapping(t, inner("inner", None)))),
    }
}

fn encode(e: &mut Enc, tok: &str) {
    let c = tok.as_bytes()[0];
    let a: Vec<&str> = tok[1..].split(',').collect();
    let text = |b: Vec<u8>| String::from_utf8(b).unwrap();
    match c {
        b'n' => e.encode_none().map(|_| ()),
        b'a' => e.encode_array(a[1].parse().unwrap(), kind(a[0])).map(|_| ()),
        b'm' => e.encode_map(a[2].parse().unwrap(), kind(a[0]), kind(a[1])).map(|_| ()),
        b'x' => e.encode_bytes(&unhex(dash(&tok[1..]))).map(|_| ()),
        b'X' => e.encode_bytes(&pattern(a[0].parse().unwrap(), a[1].parse().unwrap(), false)).map(|_| ()),
        b's' | b'S' | b'e' | b'R' => {
            let t = text(if c >= b'a' { unhex(dash(&tok[1..])) } else { pattern(a[0].parse().unwrap(), a[1].parse().unwrap(), true) });
            if c == b'e' || c == b'R' {
                e.encode_error(error_of(t)).map(|_| ())
            } else if t.len() % 2 == 0 {
                e.encode_string(&t).map(|_| ())
            } else {
                e.encode_str(&t).map(|_| ())
            }
        }
        b'b' => e.encode_bool(a[0] == "1").map(|_| ()),
        b'u' => e.encode_u8(a[0].parse().unwrap()).map(|_| ()),
        b'v' => e.encode_u16(a[0].parse().unwrap()).map(|_| ()),
        b'w' => e.encode_u32(a[0].parse().unwrap()).map(|_| ()),
        b'q' => e.encode_u64(a[0].parse().unwrap()).map(|_| ()),
        b'i' => e.encode_i32(a[0].parse().unwrap()).map(|_| ()),
        b'l' => e.encode_i64(a[0].parse().unwrap()).map(|_| ()),
        b'f' => e.encode_f32(f32::from_bits(u32::from_str_radix(a[0], 16).unwrap())).map(|_| ()),
        b'd' => e.encode_f64(f64::from_bits(u64::from_str_radix(a[0], 16).unwrap())).map(|_| ()),
        b'W' => e.write_all(&unhex(dash(&tok[1..]))).map_err(|e| e.into()),
        _ => panic!("op"),
    }
    .unwrap()
}

fn dash(s: &str) -> &str {
    if s.is_empty() {
        "-"
    } else {
        s
    }
}

fn err(e: DecodingError) -> String {
    match e {
        DecodingError::InvalidNone => "!n",
        DecodingError::InvalidArray => "!a",
        DecodingError::InvalidMap => "!m",
        DecodingError::InvalidBytes => "!x",
        DecodingError::InvalidString => "!s",
        DecodingError::InvalidError => "!e",
        DecodingError::InvalidBool => "!b",
        DecodingError::InvalidU8 => "!u",
        DecodingError::InvalidU16 => "!v",
        DecodingError::InvalidU32 => "!w",
        DecodingError::InvalidU64 => "!q",
        DecodingError::InvalidI32 => "!i",
        DecodingError::InvalidI64 => "!l",
        DecodingError::InvalidF32 => "!f",
        DecodingError::InvalidF64 => "!d",
        _ => "?generated",
    }
    .to_string()
}

enum V {
    T(String),
    B(char, Vec<u8>),
}

fn decode<T: AsRef<[u8]>>(d: &mut Cursor<T>, tok: &str) -> V {
    let a: Vec<&str> = tok[1..].split(',').collect();
    let r = match tok.as_bytes()[0] {
        b'n' => Ok(V::T((if d.decode_none() { "n1" } else { "n0" }).to_string())),
        b'a' => d.decode_array(kind(a[0])).map(|v| V::T(format!("a{v}"))),
        b'm' => d.decode_map(kind(a[0]), kind(a[1])).map(|v| V::T(format!("m{v}"))),
        b'x' => d.decode_bytes().map(|v| V::B('x', v)),
        b's' => d.decode_string().map(|v| V::B('s', v.into_bytes())),
        b'e' => d.decode_error().map(|v| V::B('e', v.to_string().into_bytes())),
        b'b' => d.decode_bool().map(|v| V::T(format!("b{}", v as u8))),
        b'u' => d.decode_u8().map(|v| V::T(format!("u{v}"))),
        b'v' => d.decode_u16().map(|v| V::T(format!("v{v}"))),
        b'w' => d.decode_u32().map(|v| V::T(format!("w{v}"))),
        b'q' => d.decode_u64().map(|v| V::T(format!("q{v}"))),
        b'i' => d.decode_i32().map(|v| V::T(format!("i{v}"))),
        b'l' => d.decode_i64().map(|v| V::T(format!("l{v}"))),
        b'f' => d.decode_f32().map(|v| V::T(format!("f{:08x}", v.to_bits()))),
        b'd' => d.decode_f64().map(|v| V::T(format!("d{:016x}", v.to_bits()))),
        _ => panic!("req"),
    };
    r.unwrap_or_else(|e| V::T(err(e)))
}

fn text(v: V) -> String {
    match v {
        V::T(s) => s,
        V::B(c, b) => data_text(c, &b),
    }
}

fn run_decode<T: AsRef<[u8]>>(b: T, reqs: &[&str], out: &mut String) {
    run_decode_at(b, 0, reqs, out)
}

fn run_decode_at<T: AsRef<[u8]>>(b: T, at: u64, reqs: &[&str], out: &mut String) {
    let mut d = Cursor::new(b);
    d.set_position(at);
    for r in reqs {
        let v = decode(&mut d, r);
        out.push_str(&text(v));
        out.push(' ');
    }
}

fn command(f: &[&str], out: &mut String) {
    match f[0] {
        "E" => {
            let mut e: Enc = Cursor::new(Vec::with_capacity(512));
            let mut rest = &f[2..];
            let mut keep: Vec<u8> = vec![];
            let mut over = false;
            if !rest.is_empty() && rest[0].starts_with('I') {
                let t = rest[0];
                rest = &rest[1..];
                let a: Vec<usize> = t[2..].split(',').filter_map(|x| x.parse().ok()).collect();
                match t.as_bytes()[1] {
                    b'z' => e = Cursor::new(Vec::with_capacity(a[0])),
                    b'b' => {
                        let mut v = Vec::with_capacity(a[2]);
                        v.resize(a[1], 0xA5);
                        keep = v.clone();
                        e = Cursor::new(v);
                        e.set_position(a[1] as u64);
                    }
                    b'r' | b'p' => {
                        e.write_all(&pattern(*a.first().unwrap_or(&700), 9, false)).unwrap();
                        e.encode_u64(u64::MAX).unwrap();
                        if rest.len() % 2 == 0 {
                            e.get_mut().clear();
                        } else {
                            over = true; // written over what is there
                        }
                        e.set_position(0);
                    }
                    _ => e = Cursor::new(vec![]),
                }
            }
            for t in rest {
                encode(&mut e, t);
            }
            let end = e.position() as usize;
            let mut b = &e.get_ref()[..];
            if over {
                b = &b[..end];
            } else if b.len() != end {
                out.push_str("?position");
                return;
            }
            if b[..keep.len()] != keep[..] {
                out.push_str("?prefix");
                return;
            }
            let b = &b[keep.len()..];
            if b.len() > 65536 {
                out.push_str(&digest(b));
            } else {
                out.push('=');
                out.push_str(&hex(b));
            }
        }
        "D" => {
            let b = unhex(f[2]);
            // the bytes in every kind of place a cursor takes them from
            match b.len() % 6 {
                0 => run_decode(&b[..], &f[3..], out),
                1 => run_decode(b.clone(), &f[3..], out),
                2 => run_decode(b.clone().into_boxed_slice(), &f[3..], out),
                3 => run_decode(std::sync::Arc::<[u8]>::from(&b[..]), &f[3..], out),
                4 => run_decode(std::borrow::Cow::Borrowed(&b[..]), &f[3..], out),
                _ => {
                    // behind other content
                    let n = 1 + b.len() % 29;
                    let mut v: Vec<u8> = (0..n).map(|i| [1, 11, 12, 5, 0x80][i % 5]).collect();
                    v.extend_from_slice(&b);
                    let before = v.clone();
                    run_decode_at(&v[..], n as u64, &f[3..], out);
                    if v != before {
                        out.push_str("?input-changed");
                    }
                }
            }
        }
        "A" => {
            let b = unhex(f[2]);
            let mut d = Cursor::new(&b[..]);
            let mut vs = Vec::with_capacity(f.len());
            let mut spent = 0;
            for r in &f[3..] {
                // the small token strings are the driver's own; measured together, bounded by a constant
                let t0 = talloc::total();
                let v = decode(&mut d, r);
                spent += talloc::total() - t0;
                vs.push(v);
            }
            for v in vs {
                out.push_str(&text(v));
                out.push(' ');
            }
            out.push_str(&format!("@{spent}"));
        }
        "O" => {
            let mut b = unhex(f[2]);
            let vs: Vec<V> = {
                let mut d = Cursor::new(&b[..]);
                f[3..].iter().map(|r| decode(&mut d, r)).collect()
            };
            b.fill(0xEE);
            drop(b);
            for v in vs {
                out.push_str(&text(v));
                out.push(' ');
            }
        }
        "R" => {
            let mut e: Enc = Cursor::new(vec![]);
            encode(&mut e, f[2]);
            e.encode_u8(77).unwrap();
            let b = e.into_inner();
            out.push_str(&format!("={} {} ", hex(&b[..b.len().min(16)]), digest(&b)));
            let q = f[2][..1].to_lowercase().replace('r', "e");
            let q = match &f[2][..1] {
                "a" => f[2].split(',').next().unwrap().to_string(),
                "m" => f[2].rsplitn(2, ',').nth(1).unwrap().to_string(),
                _ => q,
            };
            run_decode(&b[..], &[&q, "u", "u"], out);
        }
        _ => {}
    }
    let (n, what) = talloc::faults();
    if n > 0 {
        out.push_str(&format!(" ?heap-fault-{what}"));
    }
}

/// Uses the library again and again with values that never come twice: what is alive afterwards is what was before.
fn keep(seed: u64, n: u64) {
    let say = |what: &str, text: String| println!("{{\"{what}\":\"{}\"}}", text.replace('\\', "/").replace('"', "'"));
    let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let mut next = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    let mut rounds = 0u64;
    for c in "namxsebuvwqilfd".chars() {
        for size in [40usize, 700, 70_000] {
            let data = "xse".contains(c);
            if size > 40 && !data {
                continue;
            }
            let per = if size > 10_000 { n / 50 + 2 } else { n };
            let mut at = 0u64;
            let mut stretch = |per: u64| {
                for _ in 0..per {
                    at += 1;
                    let r = next();
                    let len = size as u64 / 2 + r % (size as u64 / 2);
                    let tok = match c {
                        'n' => "n".to_string(),
                        'a' => format!("a{},{}", r % 16, r >> 32),
                        'm' => format!("m{},{},{}", r % 16, r >> 8 & 15, r >> 32),
                        'x' => format!("X{len},{}", r >> 56),
                        's' => format!("S{len},{}", r >> 56),
                        'e' => format!("R{len},{}", r >> 56),
                        'b' => format!("b{}", r & 1),
                        'u' => format!("u{}", r >> 56),
                        'v' => format!("v{}", r >> 48),
                        'w' => format!("w{}", r >> 32),
                        'q' => format!("q{r}"),
                        'i' => format!("i{}", (r >> 32) as i32),
                        'l' => format!("l{}", r as i64),
                        'f' => format!("f{:08x}", r >> 32),
                        _ => format!("d{r:016x}"),
                    };
                    let mut e: Enc = Cursor::new(Vec::with_capacity(if r % 3 == 0 { 512 } else { 0 }));
                    encode(&mut e, &tok);
                    e.encode_u64(r).unwrap();
                    e.encode_u64(at).unwrap();
                    let b = e.into_inner();
                    let q = match c {
                        'a' => tok.split(',').next().unwrap().to_string(),
                        'm' => tok.rsplitn(2, ',').nth(1).unwrap().to_string(),
                        c => c.to_string(),
                    };
                    let mut d = Cursor::new(&b[..]);
                    drop(decode(&mut d, &q));
                    if !matches!(decode(&mut d, "q"), V::T(t) if t == format!("q{r}")) {
                        say("violation", format!("{tok} does not decode in order"));
                    }
                    // failing
                    let mut d = Cursor::new(&b[..r as usize % b.len()]);
                    for q in [&q[..], "s", "e", "x", "w"] {
                        drop(decode(&mut d, q));
                    }
                    // a small value of a large input
                    if data && at % 16 == 0 {
                        let mut d = Cursor::new(&b[..]);
                        drop(decode(&mut d, &q));
                        let mut small: Enc = Cursor::new(vec![]);
                        encode(&mut small, &format!("{c}{}", hex(b"held 16 bytes.. ")));
                        small.write_all(&b).unwrap();
                        let b = small.into_inner();
                        let before = talloc::live().0;
                        let mut d = Cursor::new(&b[..]);
                        let held = match c {
                            'x' => d.decode_bytes().map(|v| Box::new(v) as Box<dyn std::any::Any>),
                            's' => d.decode_string().map(|v| Box::new(v) as Box<dyn std::any::Any>),
                            _ => d.decode_error().map(|v| Box::new(v) as Box<dyn std::any::Any>),
                        };
                        let used = talloc::live().0 - before;
                        if held.is_err() || used > 512 {
                            say("violation", format!("a value {c} of 16 bytes keeps {used} bytes alive"));
                        }
                    }
                }
            };
            stretch(per / 4 + 1);
            let mut last = talloc::live().0 as i64;
            let mut least = i64::MAX;
            for _ in 0..3 {
                stretch(per);
                let now = talloc::live().0 as i64;
                least = least.min(now - last);
                last = now;
            }
            rounds += at;
            if least > 2048 {
                say("violation", format!("after everything was dropped, every {per} rounds of {c} up to {size} bytes leave {least} bytes more allocated"));
            }
            say("note", format!("{c} up to {size} bytes"));
        }
    }
    println!("{{\"counts\":{{\"rounds of use\":{rounds}}},\"done\":true}}");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 4 && a[1] == "keep" {
        return keep(a[2].parse().unwrap(), a[3].parse().unwrap());
    }
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut line = String::new();
    let mut input = stdin.lock();
    loop {
        line.clear();
        if input.read_line(&mut line).unwrap() == 0 {
            break;
        }
        let f: Vec<&str> = line.split_whitespace().collect();
        if f.len() < 2 {
            continue;
        }
        let mut out = String::new();
        let r = catch_unwind(AssertUnwindSafe(|| command(&f, &mut out)));
        if let Err(p) = r {
            let m = p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied()).unwrap_or("panic");
            out.push_str(" P:");
            out.push_str(&m.split_whitespace().collect::<Vec<_>>().join("_"));
        }
        let mut o = stdout.lock();
        writeln!(o, "{} {}", f[1], out).unwrap();
        o.flush().unwrap();
    }
}
