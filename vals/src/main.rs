//! `val PLAN OUT`: executes operations on hash values and records what happened, one JSON trace per
//! `T` line of the plan.  It judges nothing; TraceV.tla does.
#[allow(dead_code)]
#[path = "../../harness/src/arena.rs"]
mod arena;
mod fmts;
#[allow(dead_code)]
#[path = "../../harness/src/out.rs"]
mod out;
#[cfg(feature = "serde")]
mod ser;

use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine as _};

#[derive(Clone)]
pub struct Tg;
impl sha256t::Tag for Tg {
    fn engine() -> sha256t::Engine<Tg> { sha256t::Engine::from_midstate(sha256::Midstate::hash_tag(b"tag"), 64) }
}

#[cfg(feature = "serde")]
pub trait SerdeOk: serde::Serialize + for<'a> serde::Deserialize<'a> {}
#[cfg(feature = "serde")]
impl<T: serde::Serialize + for<'a> serde::Deserialize<'a>> SerdeOk for T {}
#[cfg(not(feature = "serde"))]
pub trait SerdeOk {}
#[cfg(not(feature = "serde"))]
impl<T> SerdeOk for T {}

pub trait V:
    Copy + Eq + Ord + Hash + fmt::Debug + fmt::Display + fmt::LowerHex + fmt::UpperHex + AsRef<[u8]> + SerdeOk + 'static
{
    const N: usize;
    fn len_const() -> Option<usize> { None }
    fn from_slice(b: &[u8]) -> Result<Self, chf::FromSliceError>;
    fn parse(rt: &str, s: &str) -> Option<Result<Self, String>>;
    /// From exactly N bytes; None if this type lacks the route.
    fn build(rt: &str, b: &[u8]) -> Option<Self>;
    fn views(&self) -> Vec<(&'static str, Vec<u8>)>;
    fn idx(&self, form: &str, a: usize, b: usize) -> Option<Vec<u8>>;
    fn write_through(buf: &mut [u8], v: Self) -> Option<()>;
    fn swap_through(a: &mut [u8], b: &mut [u8]) -> Option<()>;
    fn schema(_kind: &str) -> Option<String> { None }
}

macro_rules! parse_body {
    ($ty:ty, $rt:expr, $s:expr) => {
        match $rt {
            "fromstr" => Some(<$ty as std::str::FromStr>::from_str($s).map_err(|e| e.to_string())),
            "parse" => Some($s.parse::<$ty>().map_err(|e| e.to_string())),
            _ => None,
        }
    };
}
macro_rules! idx_body {
    ($self:ident, $form:ident, $a:ident, $b:ident $(, $extra:tt)?) => {
        match $form {
            "i" => Some(vec![$self[$a]]),
            "r" => Some($self[$a..$b].to_vec()),
            "f" => Some($self[$a..].to_vec()),
            "t" => Some($self[..$b].to_vec()),
            "a" => Some($self[..].to_vec()),
            $("ri" => { let _ = $extra; Some($self[$a..=$b].to_vec()) }
            "ti" => Some($self[..=$b].to_vec()),)?
            _ => None,
        }
    };
}
macro_rules! common {
    ($ty:ty, $n:expr) => {
        const N: usize = $n;
        fn from_slice(b: &[u8]) -> Result<Self, chf::FromSliceError> { <$ty>::from_slice(b) }
        fn write_through(buf: &mut [u8], v: Self) -> Option<()> {
            let a: &mut [u8; $n] = buf.try_into().unwrap();
            *<$ty>::from_bytes_mut(a) = v;
            Some(())
        }
        fn swap_through(a: &mut [u8], b: &mut [u8]) -> Option<()> {
            let (a, b): (&mut [u8; $n], &mut [u8; $n]) = (a.try_into().unwrap(), b.try_into().unwrap());
            std::mem::swap(<$ty>::from_bytes_mut(a), <$ty>::from_bytes_mut(b));
            Some(())
        }
        #[cfg(feature = "schemars")]
        fn schema(kind: &str) -> Option<String> {
            fn js<T: schemars::JsonSchema>() -> Option<String> {
                Some(serde_json::to_string(&schemars::gen::SchemaGenerator::default().into_root_schema_for::<T>()).unwrap())
            }
            match kind {
                "self" => js::<$ty>(),
                "vec" => js::<Vec<$ty>>(),
                // next to every other hash type, before and after them
                "first" => js::<($ty, sha1::Hash, sha256::Hash, sha384::Hash, sha512::Hash, siphash24::Hash, hmac::Hash<20>, sha256t::Hash<Tg>)>(),
                "last" => js::<(hmac::Hash<7>, sha512::Hash, siphash24::Hash, sha1::Hash, sha384::Hash, sha512_256::Hash, ripemd160::Hash, $ty)>(),
                _ => None,
            }
        }
    };
}
macro_rules! build_body {
    ($ty:ty, $n:expr, $rt:ident, $b:ident $(, $more:pat => $val:expr)*) => {{
        let arr: [u8; $n] = $b.try_into().unwrap();
        match $rt {
            "arr" => Some(<$ty>::from_byte_array(arr)),
            "slice" => Some(<$ty>::from_slice($b).unwrap()),
            "ref" => Some(*<$ty>::from_bytes_ref(&arr)),
            "mut" => { let mut m = arr; let r = *<$ty>::from_bytes_mut(&mut m); Some(r) }
            "zero" => Some(<$ty>::all_zeros()),
            "clone" => Some(<$ty>::from_byte_array(arr).clone()),
            $($more => { let _ = arr; Some($val(arr)) })*
            _ => None,
        }
    }};
}
macro_rules! views_body {
    ($self:ident, $n:expr) => {{
        let mut v: Vec<(&'static str, Vec<u8>)> = vec![
            ("to_byte_array", $self.to_byte_array().to_vec()),
            ("as_byte_array", $self.as_byte_array().to_vec()),
            ("as_bytes", $self.as_bytes().to_vec()),
            ("as_ref", AsRef::<[u8]>::as_ref($self).to_vec()),
            ("full", $self[..].to_vec()),
            ("each", (0..$n).map(|i| $self[i]).collect()),
        ];
        #[cfg(feature = "alloc")]
        v.push(("to_bytes", $self.to_bytes()));
        v.push(("copy", { let c = *$self; c.to_byte_array().to_vec() }));
        v
    }};
}
macro_rules! plain {
    ($($m:ident $n:literal $([$more:pat => $val:expr])*;)*) => {$(
        impl V for $m::Hash {
            common!($m::Hash, $n);
            fn len_const() -> Option<usize> { Some($m::Hash::LEN) }
            fn parse(rt: &str, s: &str) -> Option<Result<Self, String>> { parse_body!($m::Hash, rt, s) }
            fn build(rt: &str, b: &[u8]) -> Option<Self> { build_body!($m::Hash, $n, rt, b $(, $more => $val)*) }
            fn views(&self) -> Vec<(&'static str, Vec<u8>)> {
                let mut v = views_body!(self, $n);
                v.push(("as_ref_array", AsRef::<[u8; $n]>::as_ref(self).to_vec()));
                extra(self, &mut v);
                v
            }
            fn idx(&self, form: &str, a: usize, b: usize) -> Option<Vec<u8>> { idx_body!(self, form, a, b, 0) }
        }
    )*};
}
fn extra(x: &dyn std::any::Any, v: &mut Vec<(&'static str, Vec<u8>)>) {
    if let Some(h) = x.downcast_ref::<siphash24::Hash>() {
        v.push(("as_u64", h.as_u64().to_le_bytes().to_vec()));
    }
}
plain! {
    sha1 20;
    sha256 32;
    sha384 48;
    sha512 64;
    sha512_256 32;
    ripemd160 20;
    siphash24 8 ["u64" => |a: [u8; 8]| siphash24::Hash::from_u64(u64::from_le_bytes(a))];
}
impl V for sha256t::Hash<Tg> {
    common!(sha256t::Hash<Tg>, 32);
    fn len_const() -> Option<usize> { Some(sha256t::Hash::<Tg>::LEN) }
    fn parse(rt: &str, s: &str) -> Option<Result<Self, String>> { parse_body!(sha256t::Hash<Tg>, rt, s) }
    fn build(rt: &str, b: &[u8]) -> Option<Self> {
        build_body!(sha256t::Hash<Tg>, 32, rt, b, "default" => |_: [u8; 32]| sha256t::Hash::<Tg>::default())
    }
    fn views(&self) -> Vec<(&'static str, Vec<u8>)> {
        let mut v = views_body!(self, 32);
        v.push(("as_ref_array", AsRef::<[u8; 32]>::as_ref(self).to_vec()));
        v
    }
    fn idx(&self, form: &str, a: usize, b: usize) -> Option<Vec<u8>> { idx_body!(self, form, a, b, 0) }
}
macro_rules! hmacs {
    ($($n:literal)*) => {$(
        impl V for hmac::Hash<$n> {
            common!(hmac::Hash<$n>, $n);
            fn parse(rt: &str, s: &str) -> Option<Result<Self, String>> { parse_body!(hmac::Hash<$n>, rt, s) }
            fn build(rt: &str, b: &[u8]) -> Option<Self> { build_body!(hmac::Hash<$n>, $n, rt, b) }
            fn views(&self) -> Vec<(&'static str, Vec<u8>)> { views_body!(self, $n) }
            fn idx(&self, form: &str, a: usize, b: usize) -> Option<Vec<u8>> { idx_body!(self, form, a, b) }
        }
    )*};
}
hmacs!(1 5 8 20 32 48 64 100 300);
impl V for sha256::Midstate {
    const N: usize = 32;
    fn from_slice(b: &[u8]) -> Result<Self, chf::FromSliceError> { sha256::Midstate::from_slice(b) }
    fn parse(rt: &str, s: &str) -> Option<Result<Self, String>> {
        match rt {
            "fromhex" => Some(<sha256::Midstate as chf::hex::FromHex>::from_hex(s).map_err(|e| e.to_string())),
            _ => parse_body!(sha256::Midstate, rt, s),
        }
    }
    fn build(rt: &str, b: &[u8]) -> Option<Self> {
        let arr: [u8; 32] = b.try_into().unwrap();
        match rt {
            "arr" => Some(sha256::Midstate::from_byte_array(arr)),
            "slice" => Some(sha256::Midstate::from_slice(b).unwrap()),
            "clone" => Some(sha256::Midstate(arr).clone()),
            "default" => Some(Default::default()),
            "engine" => Some(sha256::Engine::from_midstate(sha256::Midstate(arr), 64).midstate()),
            _ => None,
        }
    }
    fn views(&self) -> Vec<(&'static str, Vec<u8>)> {
        vec![
            ("to_byte_array", self.to_byte_array().to_vec()),
            ("field", self.0.to_vec()),
            ("as_ref", AsRef::<[u8]>::as_ref(self).to_vec()),
            ("full", self[..].to_vec()),
            ("each", (0..32).map(|i| self[i]).collect()),
        ]
    }
    fn idx(&self, form: &str, a: usize, b: usize) -> Option<Vec<u8>> { idx_body!(self, form, a, b, 0) }
    fn write_through(_: &mut [u8], _: Self) -> Option<()> { None }
    fn swap_through(_: &mut [u8], _: &mut [u8]) -> Option<()> { None }
}

/// A type of a user of the library, serialised through the exported macro.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Down([u8; 13]);
impl Down {
    fn from_slice(b: &[u8]) -> Result<Self, chf::FromSliceError> {
        b.try_into().map(Down).map_err(|_| chf::FromSliceError::new(b.len(), 13))
    }
}
impl fmt::LowerHex for Down {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.iter().try_for_each(|b| write!(f, "{:02x}", b)) }
}
impl fmt::UpperHex for Down {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.iter().try_for_each(|b| write!(f, "{:02X}", b)) }
}
impl fmt::Display for Down {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::LowerHex::fmt(self, f) }
}
impl std::str::FromStr for Down {
    type Err = chf::hex::HexToArrayError;
    fn from_str(s: &str) -> Result<Self, Self::Err> { <[u8; 13] as chf::hex::FromHex>::from_hex(s).map(Down) }
}
impl<I: std::slice::SliceIndex<[u8]>> std::ops::Index<I> for Down {
    type Output = I::Output;
    fn index(&self, i: I) -> &I::Output { &self.0[i] }
}
impl AsRef<[u8]> for Down {
    fn as_ref(&self) -> &[u8] { &self.0 }
}
chf::serde_impl!(Down, 13);
impl V for Down {
    const N: usize = 13;
    fn from_slice(b: &[u8]) -> Result<Self, chf::FromSliceError> { Down::from_slice(b) }
    fn parse(rt: &str, s: &str) -> Option<Result<Self, String>> { parse_body!(Down, rt, s) }
    fn build(rt: &str, b: &[u8]) -> Option<Self> {
        match rt {
            "arr" => Some(Down(b.try_into().unwrap())),
            _ => None,
        }
    }
    fn views(&self) -> Vec<(&'static str, Vec<u8>)> { vec![] }
    fn idx(&self, form: &str, a: usize, b: usize) -> Option<Vec<u8>> { idx_body!(self, form, a, b, 0) }
    fn write_through(_: &mut [u8], _: Self) -> Option<()> { None }
    fn swap_through(_: &mut [u8], _: &mut [u8]) -> Option<()> { None }
}

/// What a value feeds to a Hasher, in order; call boundaries are kept as well.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b);
    }
}
fn hashed<T: V>(v: &T) -> Vec<u8> {
    let mut r = Rec::default();
    v.hash(&mut r);
    r.0
}

pub fn unhex(t: &str) -> Vec<u8> {
    let r = t.strip_prefix('x').expect("hex argument");
    // plain loops: this also runs under an interpreter
    let d = |c: u8| if c > b'9' { c - b'a' + 10 } else { c - b'0' };
    let r = r.as_bytes();
    let mut v = Vec::with_capacity(r.len() / 2);
    let mut i = 0;
    while i + 1 < r.len() {
        v.push(d(r[i]) << 4 | d(r[i + 1]));
        i += 2;
    }
    v
}
pub fn points(s: &str) -> String {
    let mut o = String::from("[");
    for (i, c) in s.chars().enumerate() {
        write!(o, "{}{}", if i > 0 { "," } else { "" }, c as u32).unwrap();
    }
    o.push(']');
    o
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, ()> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }
fn ord(o: std::cmp::Ordering) -> i32 { o as i32 }

pub struct Cx {
    pub arena: arena::Arena,
    pub ev: Vec<String>,
}
impl Cx {
    pub fn e(&mut self, s: String) { self.ev.push(s) }
}

/// Feeds a family of slices or strings to one way of building a value; `z lens` are zero bytes (the
/// digit 0 for text) of each length, `m` are digits followed by characters of several bytes.
/// Lengths are saturated to what TLC can hold.
fn sweep<T: V>(p: &[&str], cx: &mut Cx) {
    let kind = p[1];
    let one = |b: &'static [u8]| -> &'static str {
        let text = || std::str::from_utf8(b).expect("utf-8");
        let r = match kind {
            "slice" => guard(|| match T::from_slice(b) {
                Ok(v) => v.as_ref() == b,
                Err(e) => return if (e.expected, e.got, e.expected_length(), e.invalid_length()) == (T::N, b.len(), T::N, b.len()) { Err("error") } else { Err("misnamed") },
            }
            .then_some(())
            .ok_or("wrong")),
            "str" => guard(|| T::parse("fromstr", text()).unwrap().map_err(|_| "error").and_then(|v| if v.as_ref().iter().all(|x| *x == 0) { Ok(()) } else { Err("wrong") })),
            #[cfg(feature = "serde")]
            k => ser::sweep_one::<T>(k, b),
            #[cfg(not(feature = "serde"))]
            _ => return "skip",
        };
        match r {
            Ok(Ok(())) => "ok",
            Ok(Err(e)) => e,
            Err(()) => "panic",
        }
    };
    let is_text = kind == "str" || kind.starts_with("t");
    let mut runs: Vec<(usize, usize, &str)> = vec![];
    let mut add = |n: usize, o: &'static str| match runs.last_mut() {
        Some(r) if r.2 == o && (r.1 + 1 == n || r.1 == n) => r.1 = n,
        _ => runs.push((n, n, o)),
    };
    match p[2] {
        "z" => {
            let lens: Vec<usize> = p[3]
                .split(',')
                .flat_map(|t| match t.split_once('-') {
                    Some((a, b)) => (a.parse().unwrap()..=b.parse::<usize>().unwrap()).collect::<Vec<_>>(),
                    None => vec![t.parse().unwrap()],
                })
                .collect();
            let top = *lens.iter().max().unwrap();
            let src: &'static [u8] = if is_text { Box::leak(vec![b'0'; top].into_boxed_slice()) } else { arena::zero_map(top.max(1)) };
            for n in lens {
                add(sat(n), one(&src[..n]));
            }
        }
        "m" => {
            for i in 0..2 * T::N + 10 {
                for u in ["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{ff11}"] {
                    for k in [1, 2, 3, (2 * T::N).saturating_sub(i) / u.len(), 2 * T::N, 3 * T::N + 1] {
                        if k > 0 {
                            let b = "0".repeat(i) + &u.repeat(k);
                            let pl: &'static [u8] = cx.arena.place(b.as_bytes());
                            add(b.len(), one(pl));
                        }
                    }
                }
            }
            runs.sort_by_key(|r| r.2);
            runs.dedup_by_key(|r| r.2);
        }
        f => panic!("family {}", f),
    }
    let t: Vec<String> = runs.iter().map(|r| format!("[{},{},\"{}\"]", r.0, r.1, r.2)).collect();
    cx.e(format!("{{\"op\":\"sweep\",\"kind\":\"{}\",\"fam\":\"{}\",\"text\":{},\"runs\":[{}]}}", kind, p[2], is_text, t.join(",")));
}

fn run<T: V>(lines: &[(usize, Vec<&str>)], cx: &mut Cx) {
    let mut slot: std::collections::BTreeMap<String, T> = Default::default();
    for (ln, p) in lines {
        arena::LINE.store(*ln, std::sync::atomic::Ordering::Relaxed);
        match p[0] {
            // build slot by a route from bytes
            "B" => {
                let b = unhex(p[3]);
                let placed: &[u8] = cx.arena.place(&b);
                let r = guard(|| T::build(p[2], placed));
                match r {
                    Ok(None) => continue, // this type has no such route
                    Ok(Some(v)) => {
                        slot.insert(p[1].to_string(), v);
                        let got = guard(|| AsRef::<[u8]>::as_ref(&v).to_vec()).unwrap_or_default();
                        cx.e(format!("{{\"op\":\"build\",\"s\":\"{}\",\"rt\":\"{}\",\"b\":{},\"out\":\"ok\",\"v\":{}}}", p[1], p[2], out::bytes(&b), out::bytes(&got)));
                    }
                    Err(()) => cx.e(format!("{{\"op\":\"build\",\"s\":\"{}\",\"rt\":\"{}\",\"b\":{},\"out\":\"panic\",\"v\":[]}}", p[1], p[2], out::bytes(&b))),
                }
            }
            // from_slice of any length
            "L" => {
                let b = unhex(p[1]);
                let placed: &[u8] = cx.arena.place(&b);
                let r = guard(|| match T::from_slice(placed) {
                    Ok(v) => format!("\"out\":\"ok\",\"v\":{}", out::bytes(v.as_ref())),
                    Err(e) => format!("\"out\":\"error\",\"exp\":{},\"got\":{},\"exp2\":{},\"got2\":{},\"txt\":{}", e.expected, e.got, e.expected_length(), e.invalid_length(), points(&e.to_string())),
                })
                .unwrap_or("\"out\":\"panic\"".into());
                cx.e(format!("{{\"op\":\"slice\",\"b\":{},{}}}", out::bytes(&b), r));
            }
            // whole families of inputs at once: `A kind family args`, outcomes as runs
            "A" => sweep::<T>(p, cx),
            // the length error as a value: `Y got expected got2 expected2`
            "Y" => {
                let n: Vec<usize> = p[1..].iter().map(|x| x.parse().unwrap()).collect();
                let r = guard(|| {
                    let (e, f) = (chf::FromSliceError::new(n[0], n[1]), chf::FromSliceError { got: n[2], expected: n[3] });
                    let c = e.clone();
                    format!(
                        "\"out\":\"ok\",\"v\":[{},{},{},{},{},{}],\"eq\":[{},{},{}],\"txt\":{}",
                        e.got, e.expected, e.invalid_length(), e.expected_length(), c.got, c.expected, e == f, f == e, e == c, points(&e.to_string())
                    )
                })
                .unwrap_or("\"out\":\"panic\"".into());
                cx.e(format!("{{\"op\":\"err\",\"n\":[{},{},{},{}],{}}}", n[0], n[1], n[2], n[3], r));
            }
            // all accessors
            "V" => {
                let v = slot[p[1]];
                let r = guard(|| v.views());
                let t = match r {
                    Ok(l) => format!("\"out\":\"ok\",\"v\":[{}]", l.iter().map(|(n, b)| format!("[\"{}\",{}]", n, out::bytes(b))).collect::<Vec<_>>().join(",")),
                    Err(()) => "\"out\":\"panic\",\"v\":[]".into(),
                };
                cx.e(format!("{{\"op\":\"views\",\"s\":\"{}\",\"len\":{},{}}}", p[1], guard(T::len_const).unwrap_or(Some(0)).unwrap_or(T::N), t));
            }
            // index
            "X" => {
                let (a, b): (usize, usize) = (p[3].parse().unwrap(), p[4].parse().unwrap());
                let v = slot[p[1]];
                // the value itself against inaccessible memory
                let h = std::mem::size_of::<T>();
                let raw = unsafe { std::slice::from_raw_parts(&v as *const T as *const u8, h) };
                let pl = cx.arena.place(raw);
                let vr: &T = unsafe { &*(pl.as_ptr() as *const T) };
                let t = match guard(|| vr.idx(p[2], a, b)) {
                    Ok(None) => continue,
                    Ok(Some(b)) => format!("\"out\":\"ok\",\"v\":{}", out::bytes(&b)),
                    Err(()) => "\"out\":\"panic\",\"v\":[]".into(),
                };
                cx.e(format!("{{\"op\":\"idx\",\"s\":\"{}\",\"f\":\"{}\",\"a\":{},\"b\":{},{}}}", p[1], p[2], sat(a), sat(b), t));
            }
            // write through a mutable view in the middle of a buffer
            "U" => {
                let (lo, hi): (usize, usize) = (p[2].parse().unwrap(), p[3].parse().unwrap());
                let before: Vec<u8> = (0..lo + T::N + hi).map(|i| (i * 37 + 11) as u8).collect();
                let buf = cx.arena.place(&before);
                let v = slot[p[1]];
                match guard(|| T::write_through(&mut buf[lo..lo + T::N], v)) {
                    Ok(None) => continue,
                    r => cx.e(format!("{{\"op\":\"mut\",\"s\":\"{}\",\"lo\":{},\"before\":{},\"after\":{},\"out\":\"{}\"}}", p[1], lo, out::bytes(&before), out::bytes(buf), if r.is_ok() { "ok" } else { "panic" })),
                }
            }
            // swap two adjacent views
            "W" => {
                let before: Vec<u8> = (0..2 * T::N + 6).map(|i| (i * 73 + 5) as u8).collect();
                let buf = cx.arena.place(&before);
                let (a, b) = buf[3..3 + 2 * T::N].split_at_mut(T::N);
                match guard(|| T::swap_through(a, b)) {
                    Ok(None) => continue,
                    r => cx.e(format!("{{\"op\":\"swap\",\"lo\":3,\"before\":{},\"after\":{},\"out\":\"{}\"}}", out::bytes(&before), out::bytes(buf), if r.is_ok() { "ok" } else { "panic" })),
                }
            }
            // format: trait, fill, align, alt, zero flag, width, precision
            "F" => {
                let v = slot[p[1]];
                let r = guard(|| fmts::text(&v, &v, &v, &v, &p[2..]));
                let num = |t: &str| if t == "-" { "-1".to_string() } else { t.to_string() };
                let fill = p[3].parse::<u32>().unwrap();
                cx.e(format!(
                    "{{\"op\":\"fmt\",\"s\":\"{}\",\"tr\":\"{}\",\"fill\":{},\"al\":\"{}\",\"alt\":{},\"zero\":{},\"w\":{},\"p\":{},\"out\":\"{}\",\"t\":{}}}",
                    p[1], p[2], fill, p[4], p[5] == "1", p[6] == "1", num(p[7]), num(p[8]),
                    if r.is_ok() { "ok" } else { "panic" }, points(&r.unwrap_or_default())
                ));
            }
            // parse
            "P" => {
                let b = unhex(p[2]);
                let placed: &[u8] = cx.arena.place(&b);
                let s = std::str::from_utf8(placed).expect("plan gives utf-8");
                let t = match guard(|| T::parse(p[1], s).map(|r| r.map(|v| v.as_ref().to_vec()))) {
                    Ok(None) => continue,
                    Ok(Some(Ok(v))) => format!("\"out\":\"ok\",\"v\":{}", out::bytes(&v)),
                    Ok(Some(Err(_))) => "\"out\":\"error\",\"v\":[]".into(),
                    Err(()) => "\"out\":\"panic\",\"v\":[]".into(),
                };
                cx.e(format!("{{\"op\":\"parse\",\"rt\":\"{}\",\"b\":{},{}}}", p[1], out::bytes(&b), t));
            }
            // display, then parse back
            "R" => {
                let v = slot[p[1]];
                let r = guard(|| {
                    let t = match p[2] {
                        "display" => v.to_string(),
                        "lower" => format!("{:x}", v),
                        _ => format!("{:X}", v),
                    };
                    (T::parse("fromstr", &t).unwrap().map(|w| w.as_ref().to_vec()), t)
                });
                let t = match r {
                    Ok((Ok(w), t)) => format!("\"out\":\"ok\",\"v\":{},\"t\":{}", out::bytes(&w), points(&t)),
                    Ok((Err(_), t)) => format!("\"out\":\"error\",\"v\":[],\"t\":{}", points(&t)),
                    Err(()) => "\"out\":\"panic\",\"v\":[],\"t\":[]".into(),
                };
                cx.e(format!("{{\"op\":\"rt\",\"s\":\"{}\",\"tr\":\"{}\",{}}}", p[1], p[2], t));
            }
            // compare
            "E" => {
                let (a, b) = (slot[p[1]], slot[p[2]]);
                let r = guard(|| {
                    format!(
                        "\"out\":\"ok\",\"eq\":{},\"ne\":{},\"lt\":{},\"le\":{},\"gt\":{},\"ge\":{},\"cmp\":{},\"pcmp\":{},\"max\":{},\"min\":{},\"clamp\":{},\"heq\":{}",
                        a == b, a != b, a < b, a <= b, a > b, a >= b, ord(a.cmp(&b)),
                        a.partial_cmp(&b).map(ord).unwrap_or(99),
                        out::bytes(a.max(b).as_ref()), out::bytes(a.min(b).as_ref()),
                        out::bytes(if a <= b { a.clamp(a, b) } else { a.clamp(b, b) }.as_ref()),
                        hashed(&a) == hashed(&b)
                    )
                })
                .unwrap_or("\"out\":\"panic\"".into());
                cx.e(format!("{{\"op\":\"cmp\",\"a\":\"{}\",\"b\":\"{}\",{}}}", p[1], p[2], r));
            }
            // sort, and look up in a BTreeSet and a HashSet
            "Z" => {
                let l: Vec<T> = p[1].split(',').map(|s| slot[s]).collect();
                let r = guard(|| {
                    let mut m = l.clone();
                    m.sort();
                    let bt: std::collections::BTreeSet<T> = l.iter().copied().collect();
                    let hs: std::collections::HashSet<T> = l.iter().copied().collect();
                    format!(
                        "\"out\":\"ok\",\"v\":[{}],\"bt\":[{}],\"hs\":{},\"in\":{}",
                        m.iter().map(|x| out::bytes(x.as_ref())).collect::<Vec<_>>().join(","),
                        bt.iter().map(|x| out::bytes(x.as_ref())).collect::<Vec<_>>().join(","),
                        hs.len(),
                        l.iter().all(|x| bt.contains(x) && hs.contains(x) && m.binary_search(x).is_ok())
                    )
                })
                .unwrap_or("\"out\":\"panic\"".into());
                cx.e(format!("{{\"op\":\"sort\",\"l\":[{}],{}}}", p[1].split(',').map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(","), r));
            }
            // schema as JSON text (validation against it is done by the driver)
            "Q" => match guard(|| T::schema(p[1])) {
                Ok(None) => continue,
                Ok(Some(s)) => cx.e(format!("{{\"op\":\"schema\",\"kind\":\"{}\",\"n\":{},\"out\":\"ok\",\"js\":{}}}", p[1], T::N, s)),
                Err(()) => cx.e(format!("{{\"op\":\"schema\",\"kind\":\"{}\",\"n\":{},\"out\":\"panic\"}}", p[1], T::N)),
            },
            #[cfg(feature = "serde")]
            "S" => ser::serialise(p, &slot[p[1]], cx),
            #[cfg(feature = "serde")]
            "D" => ser::deserialise::<T>(p, cx),
            #[cfg(feature = "serde")]
            "J" => ser::format_in::<T>(p, cx),
            #[cfg(feature = "serde")]
            "K" => ser::format_round(p, &slot[p[1]], cx),
            #[cfg(not(feature = "serde"))]
            "S" | "D" | "J" | "K" => {}
            x => panic!("plan: {}", x),
        }
    }
}
/// Indices are written into the trace as numbers TLC can hold.
fn sat(n: usize) -> usize { n.min(1 << 30) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let plan = std::fs::read_to_string(&a[2]).expect("plan");
    let mut w = std::io::BufWriter::new(std::fs::File::create(&a[3]).expect("out"));
    std::panic::set_hook(Box::new(|_| {}));
    arena::install_crash_handler();
    let mut cx = Cx { arena: arena::Arena::new(1 << 16), ev: vec![] };
    let lines: Vec<(usize, Vec<&str>)> = plan.lines().enumerate().map(|(i, l)| (i + 1, l.split(' ').collect())).filter(|(_, p): &(usize, Vec<&str>)| !p[0].is_empty()).collect();
    let mut i = 0;
    while i < lines.len() {
        let head = &lines[i].1;
        assert_eq!(head[0], "T");
        let mut j = i + 1;
        while j < lines.len() && lines[j].1[0] != "T" {
            j += 1;
        }
        let body = &lines[i + 1..j];
        macro_rules! go { ($t:ty) => {{ run::<$t>(body, &mut cx); <$t as V>::N }}; }
        let n = match head[2] {
            "sha1" => go!(sha1::Hash),
            "sha256" => go!(sha256::Hash),
            "sha384" => go!(sha384::Hash),
            "sha512" => go!(sha512::Hash),
            "sha512_256" => go!(sha512_256::Hash),
            "ripemd160" => go!(ripemd160::Hash),
            "siphash24" => go!(siphash24::Hash),
            "sha256t" => go!(sha256t::Hash<Tg>),
            "midstate" => go!(sha256::Midstate),
            "hmac1" => go!(hmac::Hash<1>),
            "hmac5" => go!(hmac::Hash<5>),
            "hmac8" => go!(hmac::Hash<8>),
            "hmac20" => go!(hmac::Hash<20>),
            "hmac32" => go!(hmac::Hash<32>),
            "hmac48" => go!(hmac::Hash<48>),
            "hmac64" => go!(hmac::Hash<64>),
            "hmac100" => go!(hmac::Hash<100>),
            "hmac300" => go!(hmac::Hash<300>),
            "down" => go!(Down),
            x => panic!("type {}", x),
        };
        writeln!(w, "{{\"id\":\"{}\",\"ty\":\"{}\",\"n\":{},\"hm\":{},\"ev\":[{}]}}", head[1], head[2], n, head[2].starts_with("hmac"), cx.ev.join(",")).unwrap();
        cx.ev.clear();
        i = j;
    }
    w.flush().unwrap();
}
