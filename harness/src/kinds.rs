//! All engine sorts of the library behind one object-safe interface.
use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};
use std::any::Any;
use std::cell::RefCell;
use std::marker::PhantomData;

/// Static description of an engine type.
pub trait Kind: 'static {
    type E: HashEngine + Send + 'static;
    const NAME: &'static str;
    fn mid_bytes(m: &<Self::E as HashEngine>::Midstate) -> Vec<Vec<u8>>;
    /// Text that identifies the midstate (equal texts iff equal midstates).
    fn mid_text(m: &<Self::E as HashEngine>::Midstate) -> String;
    fn mid_from(_: &[u8]) -> Option<<Self::E as HashEngine>::Midstate> { None }
    fn mid_clone(m: &<Self::E as HashEngine>::Midstate) -> <Self::E as HashEngine>::Midstate;
    /// Resume; `inh` asks for the type's own function where there is one besides the trait's.
    fn resume(m: <Self::E as HashEngine>::Midstate, n: usize, _inh: bool) -> Self::E {
        <Self::E as HashEngine>::from_midstate(m, n)
    }
    /// `Hash::from_engine(e)`.
    fn from_engine(e: Self::E) -> Vec<u8>;
    /// One-shot on the hash type.
    fn one(d: &[u8]) -> Option<Vec<u8>>;
    fn fresh(rt: &str) -> Self::E;
    /// The result of writing through an I/O route: number reported, or an error text.
    fn write(e: &mut Self::E, rt: &str, d: &[u8]) -> Result<u64, String>;
    fn u64_of(_: Self::E) -> Option<u64> { None }
    fn keys(_: &Self::E) -> Option<(u64, u64)> { None }
}

macro_rules! fresh_impl {
    ($m:ident) => {
        fn fresh(rt: &str) -> Self::E {
            match rt {
                "default" => Default::default(),
                "engine" => $m::Hash::engine(),
                "inh" => $m::Engine::new(),
                _ => <$m::Engine as HashEngine>::new(),
            }
        }
    };
}

pub fn io_write<W>(e: &mut W, rt: &str, d: &[u8]) -> Result<u64, String>
where
    W: WriteBoth + HashEngine,
{
    match rt {
        "in" => {
            e.input(d);
            Ok(d.len() as u64)
        }
        _ => e.io(rt, d),
    }
}

/// Writes through the interfaces that this build provides (falls back to `input`).
pub trait WriteBoth {
    fn io(&mut self, rt: &str, d: &[u8]) -> Result<u64, String>;
}

/// Reader that delivers its content in irregular pieces.
pub struct Drip<'a>(pub &'a [u8], pub usize);
impl<'a> std::io::Read for Drip<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 = (self.1 * 7 + 3) % 97;
        let n = self.0.len().min(b.len()).min(self.1 + 1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

#[cfg(feature = "anyio")]
fn bio<W: bitcoin_io::Write + ?Sized>(e: &mut W, rt: &str, d: &[u8]) -> Result<u64, String> {
    let er = |x: bitcoin_io::Error| format!("{:?}", x);
    match rt {
        "w" => e.write(d).map(|n| n as u64).map_err(er),
        "wa" => e.write_all(d).map(|_| d.len() as u64).map_err(er),
        "fl" => e.flush().map(|_| 0).map_err(er),
        "bdyn" => {
            let (a, b) = d.split_at(d.len() / 3);
            let n = e.write(a).map_err(er)?;
            e.flush().map_err(er)?;
            e.write(b).map(|m| (n + m) as u64).map_err(er)
        }
        _ => unreachable!("route {}", rt),
    }
}
#[cfg(feature = "std")]
fn sio<W: std::io::Write + ?Sized>(e: &mut W, rt: &str, d: &[u8]) -> Result<u64, String> {
    let er = |x: std::io::Error| format!("{:?}", x);
    match rt {
        "sw" => e.write(d).map(|n| n as u64).map_err(er),
        "swa" => e.write_all(d).map(|_| d.len() as u64).map_err(er),
        "sfl" => e.flush().map(|_| 0).map_err(er),
        "scp" => std::io::copy(&mut Drip(d, 11), e).map_err(er),
        "sv" => {
            // vectored writes until everything is taken, with empty slices among the others; what one
            // reports must have been absorbed, and one with something to write must take something
            let mut at = 0;
            let mut turn = d.len();
            while at < d.len() {
                let r = &d[at..];
                let (a, b) = r.split_at(r.len() / 2);
                let bufs: &[&[u8]] = match turn % 5 {
                    0 => &[a, b],
                    1 => &[&[], a, &[], b],
                    2 => &[&[], &[], r],
                    3 => &[a, &[], &[], b, &[]],
                    _ => &[&r[..1], &[], &r[1..]],
                };
                let v: Vec<std::io::IoSlice> = bufs.iter().map(|x| std::io::IoSlice::new(x)).collect();
                let n = e.write_vectored(&v).map_err(er)?;
                if n == 0 {
                    return Err("a vectored write took nothing".into());
                }
                if n > r.len() {
                    return Ok((at + n) as u64);
                }
                at += n;
                turn += 1;
            }
            if d.is_empty() && e.write_vectored(&[std::io::IoSlice::new(d)]).map_err(er)? != 0 {
                return Ok(u64::MAX);
            }
            Ok(d.len() as u64)
        }
        "scc" => {
            let mut r = std::io::Read::chain(&d[..d.len() / 4], &d[d.len() / 4..]);
            std::io::copy(&mut r, e).map_err(er)
        }
        "sbuf" => {
            let mut b = std::io::BufWriter::with_capacity(13, e);
            std::io::Write::write_all(&mut b, d).map_err(er)?;
            std::io::Write::flush(&mut b).map_err(er)?;
            Ok(d.len() as u64)
        }
        "sdyn" => {
            let (a, b) = d.split_at(d.len() / 3);
            let n = e.write(a).map_err(er)?;
            e.flush().map_err(er)?;
            e.write(b).map(|m| (n + m) as u64).map_err(er)
        }
        "sfmt" => {
            match std::str::from_utf8(d) {
                Ok(t) => e.write_fmt(format_args!("{}", t)).map_err(er)?,
                Err(_) => e.write_all(d).map_err(er)?,
            }
            Ok(d.len() as u64)
        }
        "sby" => {
            // through by_ref and formatted writing layers
            let r = e;
            for c in d.chunks(5) {
                r.write_all(c).map_err(er)?;
            }
            Ok(d.len() as u64)
        }
        _ => unreachable!("route {}", rt),
    }
}

macro_rules! write_both {
    ($t:ty $(, $g:ident : $b:path)*) => {
        impl<$($g: $b + 'static),*> WriteBoth for $t {
            #[cfg(feature = "std")]
            fn io(&mut self, rt: &str, d: &[u8]) -> Result<u64, String> {
                match rt {
                    "sdyn" => sio(self as &mut dyn std::io::Write, rt, d),
                    "bdyn" => bio(self as &mut dyn bitcoin_io::Write, rt, d),
                    _ if rt.starts_with('s') => sio(self, rt, d),
                    _ => bio(self, rt, d),
                }
            }
            #[cfg(all(feature = "anyio", not(feature = "std")))]
            fn io(&mut self, rt: &str, d: &[u8]) -> Result<u64, String> {
                let rt = match rt { "sw" => "w", "sfl" => "fl", "sdyn" => "bdyn", r if r.starts_with('s') => "wa", r => r };
                if rt == "bdyn" { bio(self as &mut dyn bitcoin_io::Write, rt, d) } else { bio(self, rt, d) }
            }
            #[cfg(not(feature = "anyio"))]
            fn io(&mut self, rt: &str, d: &[u8]) -> Result<u64, String> {
                if rt == "fl" || rt == "sfl" { return Ok(0); }
                self.input(d);
                Ok(d.len() as u64)
            }
        }
    };
}
macro_rules! write_none {
    ($t:ty) => {
        impl WriteBoth for $t {
            fn io(&mut self, rt: &str, d: &[u8]) -> Result<u64, String> {
                if rt == "fl" || rt == "sfl" {
                    return Ok(0);
                }
                self.input(d);
                Ok(d.len() as u64)
            }
        }
    };
}
write_both!(sha1::Engine);
write_both!(sha256::Engine);
write_both!(sha512::Engine);
write_both!(ripemd160::Engine);
write_both!(siphash24::Engine);
write_none!(sha384::Engine);
write_none!(sha512_256::Engine);
write_both!(sha256t::Engine<T>, T: sha256t::Tag);
write_both!(hmac::Engine<E>, E: HashEngine);

macro_rules! arr_kind {
    ($k:ident, $m:ident, $name:literal, $n:literal) => {
        pub struct $k;
        impl Kind for $k {
            type E = $m::Engine;
            const NAME: &'static str = $name;
            fn mid_bytes(m: &[u8; $n]) -> Vec<Vec<u8>> { vec![m.to_vec()] }
            fn mid_text(m: &[u8; $n]) -> String { crate::out::hex(m) }
            fn mid_from(b: &[u8]) -> Option<[u8; $n]> { b.try_into().ok() }
            fn mid_clone(m: &[u8; $n]) -> [u8; $n] { *m }
            fn from_engine(e: $m::Engine) -> Vec<u8> { $m::Hash::from_engine(e).as_bytes().to_vec() }
            fn one(d: &[u8]) -> Option<Vec<u8>> { Some($m::Hash::hash(d).to_byte_array().to_vec()) }
            fresh_impl!($m);
            fn write(e: &mut Self::E, rt: &str, d: &[u8]) -> Result<u64, String> { io_write(e, rt, d) }
        }
    };
}
arr_kind!(S1, sha1, "sha1", 20);
arr_kind!(S384, sha384, "sha384", 64);
arr_kind!(S512, sha512, "sha512", 64);
arr_kind!(S512t, sha512_256, "sha512_256", 64);
arr_kind!(R160, ripemd160, "ripemd160", 20);

pub struct S256;
impl Kind for S256 {
    type E = sha256::Engine;
    const NAME: &'static str = "sha256";
    fn mid_bytes(m: &sha256::Midstate) -> Vec<Vec<u8>> { vec![m.to_byte_array().to_vec()] }
    fn mid_text(m: &sha256::Midstate) -> String { crate::out::hex(&m.to_byte_array()) }
    fn mid_from(b: &[u8]) -> Option<sha256::Midstate> { Some(sha256::Midstate::from_byte_array(b.try_into().ok()?)) }
    fn mid_clone(m: &sha256::Midstate) -> sha256::Midstate { *m }
    fn resume(m: sha256::Midstate, n: usize, inh: bool) -> sha256::Engine {
        if inh { sha256::Engine::from_midstate(m, n) } else { <sha256::Engine as HashEngine>::from_midstate(m, n) }
    }
    fn from_engine(e: sha256::Engine) -> Vec<u8> { sha256::Hash::from_engine(e).as_bytes().to_vec() }
    fn one(d: &[u8]) -> Option<Vec<u8>> { Some(sha256::Hash::hash(d).to_byte_array().to_vec()) }
    fresh_impl!(sha256);
    fn write(e: &mut Self::E, rt: &str, d: &[u8]) -> Result<u64, String> { io_write(e, rt, d) }
}

pub struct Sip;
impl Kind for Sip {
    type E = siphash24::Engine;
    const NAME: &'static str = "siphash24";
    fn mid_bytes(_: &siphash24::State) -> Vec<Vec<u8>> { vec![] }
    fn mid_text(m: &siphash24::State) -> String { format!("{:?}", m) }
    fn mid_clone(m: &siphash24::State) -> siphash24::State { m.clone() }
    fn from_engine(e: siphash24::Engine) -> Vec<u8> { siphash24::Hash::from_engine(e).as_bytes().to_vec() }
    fn one(d: &[u8]) -> Option<Vec<u8>> { Some(siphash24::Hash::hash(d).to_byte_array().to_vec()) }
    fresh_impl!(siphash24);
    fn write(e: &mut Self::E, rt: &str, d: &[u8]) -> Result<u64, String> { io_write(e, rt, d) }
    fn u64_of(e: siphash24::Engine) -> Option<u64> { Some(siphash24::Hash::from_engine_to_u64(e)) }
    fn keys(e: &siphash24::Engine) -> Option<(u64, u64)> { Some(e.keys()) }
}

thread_local! { pub static TAG: RefCell<Vec<u8>> = RefCell::new(Vec::new()); }
/// A tag chosen at run time.
#[derive(Clone)]
pub struct DynTag;
impl sha256t::Tag for DynTag {
    fn engine() -> sha256t::Engine<DynTag> {
        let m = TAG.with(|t| sha256::Midstate::hash_tag(&t.borrow()));
        sha256t::Engine::from_midstate(m, 64)
    }
}
pub struct T256;
impl Kind for T256 {
    type E = sha256t::Engine<DynTag>;
    const NAME: &'static str = "sha256t";
    fn mid_bytes(m: &sha256::Midstate) -> Vec<Vec<u8>> { S256::mid_bytes(m) }
    fn mid_text(m: &sha256::Midstate) -> String { S256::mid_text(m) }
    fn mid_from(b: &[u8]) -> Option<sha256::Midstate> { S256::mid_from(b) }
    fn mid_clone(m: &sha256::Midstate) -> sha256::Midstate { *m }
    fn from_engine(e: Self::E) -> Vec<u8> { sha256t::Hash::from_engine(e).as_bytes().to_vec() }
    fn one(d: &[u8]) -> Option<Vec<u8>> { Some(sha256t::Hash::<DynTag>::hash(d).to_byte_array().to_vec()) }
    fn fresh(rt: &str) -> Self::E {
        match rt {
            "default" => Default::default(),
            "engine" => sha256t::Hash::<DynTag>::engine(),
            _ => <Self::E as HashEngine>::new(),
        }
    }
    fn write(e: &mut Self::E, rt: &str, d: &[u8]) -> Result<u64, String> { io_write(e, rt, d) }
}

pub struct Hm<K>(PhantomData<K>);
pub trait HmName {
    const HNAME: &'static str;
    fn hfrom<E: HashEngine>(e: E) -> Vec<u8>;
}
macro_rules! hm {
    ($k:ident, $name:literal, $n:literal) => {
        impl Kind for Hm<$k> {
            type E = hmac::Engine<<$k as Kind>::E>;
            const NAME: &'static str = $name;
            fn mid_bytes(m: &hmac::Midstate<<$k as Kind>::E>) -> Vec<Vec<u8>> {
                let mut v = $k::mid_bytes(&m.inner);
                v.extend($k::mid_bytes(&m.outer));
                v
            }
            fn mid_text(m: &hmac::Midstate<<$k as Kind>::E>) -> String {
                format!("{}/{}", $k::mid_text(&m.inner), $k::mid_text(&m.outer))
            }
            fn mid_clone(m: &hmac::Midstate<<$k as Kind>::E>) -> hmac::Midstate<<$k as Kind>::E> {
                hmac::Midstate { inner: $k::mid_clone(&m.inner), outer: $k::mid_clone(&m.outer) }
            }
            fn from_engine(e: Self::E) -> Vec<u8> { hmac::Hash::<$n>::from_engine(e).as_bytes().to_vec() }
            fn one(_: &[u8]) -> Option<Vec<u8>> { None }
            fn fresh(rt: &str) -> Self::E {
                match rt {
                    "default" => Default::default(),
                    "engine" => hmac::Hash::<$n>::engine::<Self::E>(),
                    _ => <Self::E as HashEngine>::new(),
                }
            }
            fn write(e: &mut Self::E, rt: &str, d: &[u8]) -> Result<u64, String> { io_write(e, rt, d) }
        }
    };
}
hm!(S1, "hmac/sha1", 20);
hm!(S256, "hmac/sha256", 32);
hm!(S384, "hmac/sha384", 48);
hm!(S512, "hmac/sha512", 64);
hm!(S512t, "hmac/sha512_256", 32);
hm!(R160, "hmac/ripemd160", 20);
hm!(Sip, "hmac/siphash24", 8);
// HMAC is generic over any engine: over the tagged engine and over itself as well
hm!(T256, "hmac/sha256t", 32);
pub type HS256 = Hm<S256>;
hm!(HS256, "hmac/hmac/sha256", 32);
/// The tag under `hmac/sha256t`.
pub const BASE_TAG: &[u8] = b"tag";

/// Object-safe engine.
pub trait Eng: Send {
    fn input(&mut self, d: &[u8]);
    fn write(&mut self, rt: &str, d: &[u8]) -> Result<u64, String>;
    fn n(&self) -> usize;
    fn mid_bytes(&self) -> Vec<Vec<u8>>;
    fn mid_text(&self) -> String;
    fn capture(&self) -> Box<dyn Cap>;
    fn fin(self: Box<Self>, rt: &str) -> Vec<u8>;
    fn fin_u64(self: Box<Self>) -> Option<u64>;
    fn keys(&self) -> Option<(u64, u64)>;
    fn dup(&self) -> Box<dyn Eng>;
    /// `Clone::clone_from` from another engine of the same sort.
    fn dup_from(&mut self, o: &dyn Eng) -> bool;
    fn any(&self) -> &dyn Any;
}
/// A captured midstate.
pub trait Cap {
    fn resume(&self, n: usize, inh: bool) -> Box<dyn Eng>;
    fn text(&self) -> String;
}
pub struct Holder<K: Kind>(pub K::E);
impl<K: Kind> Eng for Holder<K> {
    fn input(&mut self, d: &[u8]) { self.0.input(d) }
    fn write(&mut self, rt: &str, d: &[u8]) -> Result<u64, String> { K::write(&mut self.0, rt, d) }
    fn n(&self) -> usize { self.0.n_bytes_hashed() }
    fn mid_bytes(&self) -> Vec<Vec<u8>> { K::mid_bytes(&self.0.midstate()) }
    fn mid_text(&self) -> String { K::mid_text(&self.0.midstate()) }
    fn capture(&self) -> Box<dyn Cap> { Box::new(CapHolder::<K>(self.0.midstate())) }
    fn fin(self: Box<Self>, rt: &str) -> Vec<u8> {
        if rt == "h" {
            K::from_engine(self.0)
        } else {
            self.0.finalize().as_ref().to_vec()
        }
    }
    fn fin_u64(self: Box<Self>) -> Option<u64> { K::u64_of(self.0) }
    fn keys(&self) -> Option<(u64, u64)> { K::keys(&self.0) }
    fn dup(&self) -> Box<dyn Eng> { Box::new(Holder::<K>(self.0.clone())) }
    fn dup_from(&mut self, o: &dyn Eng) -> bool {
        match o.any().downcast_ref::<Holder<K>>() {
            Some(h) => {
                self.0.clone_from(&h.0);
                true
            }
            None => false,
        }
    }
    fn any(&self) -> &dyn Any { self }
}
pub struct CapHolder<K: Kind>(<K::E as HashEngine>::Midstate);
impl<K: Kind> Cap for CapHolder<K> {
    fn resume(&self, n: usize, inh: bool) -> Box<dyn Eng> {
        Box::new(Holder::<K>(K::resume(K::mid_clone(&self.0), n, inh)))
    }
    fn text(&self) -> String { K::mid_text(&self.0) }
}

/// An engine sort together with its key, SipHash keys or tag.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sort {
    pub name: String,
    pub key: Option<Vec<u8>>,
    pub sip: (u64, u64),
}
macro_rules! with_kind {
    ($name:expr, $k:ident => $body:expr) => {
        match $name {
            "sha1" => { type $k = S1; $body }
            "sha256" => { type $k = S256; $body }
            "sha384" => { type $k = S384; $body }
            "sha512" => { type $k = S512; $body }
            "sha512_256" => { type $k = S512t; $body }
            "ripemd160" => { type $k = R160; $body }
            "siphash24" => { type $k = Sip; $body }
            "sha256t" => { type $k = T256; $body }
            "hmac/sha1" => { type $k = Hm<S1>; $body }
            "hmac/sha256" => { type $k = Hm<S256>; $body }
            "hmac/sha384" => { type $k = Hm<S384>; $body }
            "hmac/sha512" => { type $k = Hm<S512>; $body }
            "hmac/sha512_256" => { type $k = Hm<S512t>; $body }
            "hmac/ripemd160" => { type $k = Hm<R160>; $body }
            "hmac/siphash24" => { type $k = Hm<Sip>; $body }
            "hmac/sha256t" => { type $k = Hm<T256>; $body }
            "hmac/hmac/sha256" => { type $k = Hm<HS256>; $body }
            #[cfg(feature = "user")]
            n if n.contains('u') => with_user!(n, $k => $body),
            n => panic!("unknown sort {}", n),
        }
    };
}
macro_rules! with_plain {
    ($name:expr, $k:ident => $body:expr) => {
        match $name {
            "sha1" => { type $k = S1; $body }
            "sha256" => { type $k = S256; $body }
            "sha384" => { type $k = S384; $body }
            "sha512" => { type $k = S512; $body }
            "sha512_256" => { type $k = S512t; $body }
            "ripemd160" => { type $k = R160; $body }
            "siphash24" => { type $k = Sip; $body }
            "sha256t" => { type $k = T256; $body }
            "hmac/sha256" => { type $k = HS256; $body }
            #[cfg(feature = "user")]
            n if n.contains('u') => with_user_base!(n, $k => $body),
            n => panic!("unknown hash {}", n),
        }
    };
}

/// HMAC over one of the plain hash functions, without going through a [`Sort`] (which owns its key).
pub fn mac(alg: &str, key: &[u8], data: &[u8]) -> Vec<u8> {
    with_kind!(alg, K => {
        let mut e = hmac::Engine::<<K as Kind>::E>::new(key);
        e.input(data);
        e.finalize().as_ref().to_vec()
    })
}

/// An iterator that may be asked again after its end (it is not fused) and whose size hint says nothing.
struct Restless<'a>(&'a [Vec<u8>], usize);
impl<'a> Iterator for Restless<'a> {
    type Item = &'a [u8];
    fn next(&mut self) -> Option<&'a [u8]> {
        self.1 += 1;
        match self.1 - 1 {
            i if i < self.0.len() => Some(&self.0[i]),
            i if i == self.0.len() => None,
            _ => Some(b"after the end"),
        }
    }
}
/// A piece that shows its bytes once: whoever looks again sees something else.
struct Once(Vec<u8>, std::cell::Cell<bool>);
impl AsRef<[u8]> for Once {
    fn as_ref(&self) -> &[u8] { if self.1.replace(true) { b"again" } else { &self.0 } }
}
/// `hash_byte_chunks` through iterators and pieces of several kinds, in turn.
fn chunked<E: HashEngine>(parts: &[Vec<u8>]) -> Vec<u8> {
    thread_local!(static TURN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
    let t = TURN.with(|t| t.replace(t.get() + 1));
    match t % 6 {
        0 => E::hash_byte_chunks(parts.iter()).as_ref().to_vec(),
        1 => E::hash_byte_chunks(parts.to_vec()).as_ref().to_vec(),
        2 => E::hash_byte_chunks(Restless(parts, 0)).as_ref().to_vec(),
        3 => E::hash_byte_chunks(parts.iter().map(|p| Once(p.clone(), std::cell::Cell::new(false)))).as_ref().to_vec(),
        4 => {
            let mut q: std::collections::VecDeque<Box<[u8]>> = parts.iter().map(|p| p.clone().into_boxed_slice()).collect();
            q.rotate_left(0);
            E::hash_byte_chunks(q).as_ref().to_vec()
        }
        _ => E::hash_byte_chunks(parts.iter().filter(|p| !p.is_empty()).map(std::borrow::Cow::from)).as_ref().to_vec(),
    }
}

impl Sort {
    /// `sha256`, `siphash24:<k0>:<k1>`, `sha256t=<data>`, `hmac/sha256=<data>`.
    pub fn parse(t: &str) -> Sort {
        if let Some((n, k)) = t.split_once('=') {
            return Sort { name: n.into(), key: Some(crate::data::parse(k).bytes()), sip: (0, 0) };
        }
        let p: Vec<&str> = t.split(':').collect();
        if p.len() == 3 {
            return Sort { name: p[0].into(), key: None, sip: (p[1].parse().unwrap(), p[2].parse().unwrap()) };
        }
        Sort { name: t.into(), key: None, sip: (0, 0) }
    }
    pub fn set_tag(&self) {
        if self.name == "sha256t" || self.name == "sha256pu" {
            TAG.with(|t| *t.borrow_mut() = self.key.clone().unwrap_or_default());
        } else if self.name == "hmac/sha256t" {
            TAG.with(|t| *t.borrow_mut() = BASE_TAG.to_vec());
        }
    }
    pub fn fresh(&self, rt: &str) -> Box<dyn Eng> {
        self.set_tag();
        if self.name == "siphash24" && !matches!(rt, "default" | "engine" | "inh" | "trait") {
            return Box::new(Holder::<Sip>(siphash24::Engine::with_keys(self.sip.0, self.sip.1)));
        }
        if let (Some(h), Some(k)) = (self.name.strip_prefix("hmac/"), &self.key) {
            return with_plain!(h, K => {
                Box::new(Holder::<Hm<K>>(hmac::Engine::<<K as Kind>::E>::new(k)))
            });
        }
        with_kind!(self.name.as_str(), K => Box::new(Holder::<K>(K::fresh(rt))))
    }
    pub fn resume_bytes(&self, mid: &[u8], n: usize, inh: bool) -> Box<dyn Eng> {
        self.set_tag();
        with_kind!(self.name.as_str(), K => Box::new(Holder::<K>(K::resume(K::mid_from(mid).expect("midstate length"), n, inh))))
    }
    /// One-shot functions. `parts` are the pieces for the iterator route; other routes get them joined.
    pub fn one(&self, rt: &str, parts: &[Vec<u8>], joined: &[u8]) -> Vec<u8> {
        self.set_tag();
        // the generic one-shot functions know neither SipHash keys nor HMAC keys
        let generic = (self.key.is_none() || self.name == "sha256t" || self.name == "sha256pu") && self.sip == (0, 0);
        match (self.name.as_str(), rt) {
            ("siphash24", "keys") => siphash24::Hash::hash_with_keys(self.sip.0, self.sip.1, joined).to_byte_array().to_vec(),
            ("siphash24", "u64") => siphash24::Hash::hash_to_u64_with_keys(self.sip.0, self.sip.1, joined).to_le_bytes().to_vec(),
            ("siphash24", "asu64") => siphash24::Hash::hash_with_keys(self.sip.0, self.sip.1, joined).as_u64().to_le_bytes().to_vec(),
            ("siphash24", "fu64") =>
                siphash24::Hash::from_u64(siphash24::Hash::hash_to_u64_with_keys(self.sip.0, self.sip.1, joined))
                    .to_byte_array().to_vec(),
            ("sha256", "const") => sha256::Hash::const_hash(joined).to_byte_array().to_vec(),
            ("sha256t", "mid") => {
                let t = TAG.with(|t| t.borrow().clone());
                sha256::Midstate::hash_tag(&t).to_byte_array().to_vec()
            }
            (_, "chunks") if generic =>
                with_kind!(self.name.as_str(), K => chunked::<<K as Kind>::E>(parts)),
            (_, "eng") if generic =>
                with_kind!(self.name.as_str(), K => <<K as Kind>::E as HashEngine>::hash(joined).as_ref().to_vec()),
            (_, "hash") if generic && !self.name.starts_with("hmac/") =>
                with_kind!(self.name.as_str(), K => K::one(joined).unwrap()),
            (_, "chunks") => {
                let mut e = self.fresh("new");
                for p in parts {
                    e.input(p);
                }
                e.fin("h")
            }
            _ => {
                let mut e = self.fresh("new");
                e.input(joined);
                e.fin("h")
            }
        }
    }
    /// The block size of a user's engine (under any HMAC).
    fn user(&self) -> Option<usize> { self.name.rsplit('/').next()?.strip_prefix('u')?.parse().ok() }
    /// HMAC over something that is not one of the plain hash functions.
    pub fn nested(&self) -> bool { matches!(self.name.as_str(), "hmac/sha256t" | "hmac/hmac/sha256") }
    pub fn block(&self) -> usize {
        if let Some(b) = self.user() { b } else if self.name.ends_with("siphash24") { 8 } else if self.name.contains("384") || self.name.contains("512") { 128 } else { 64 }
    }
    /// Bytes the engine reports before any message byte.
    pub fn pre(&self) -> usize {
        if self.name == "sha256t" { 64 }
        else if self.user().is_some() { self.block() * self.name.matches("hmac/").count() }
        else if self.name == "sha256pu" { self.key.as_ref().unwrap().len() }
        else if self.nested() { 128 }
        else if self.name == "hmac/siphash24" { 32 }
        else if self.name.starts_with("hmac/") { self.block() } else { 0 }
    }
}
/// The block sizes the library itself declares.
pub fn declared_block(name: &str) -> usize {
    with_kind!(name, K => <<K as Kind>::E as HashEngine>::BLOCK_SIZE)
}
/// An engine sort as fields of a trace event.
pub fn sort_json(s: &Sort) -> String {
    if s.name == "sha256pu" {
        return format!("\"sort\":\"pre\",\"alg\":\"sha256\",\"k\":[],\"key\":{}", crate::out::bytes(s.key.as_deref().unwrap_or(&[])));
    }
    if s.user().is_some() && s.name.starts_with("hmac/hmac/") {
        let alg = s.name.rsplit('/').next().unwrap();
        return format!("\"sort\":\"hmacx\",\"alg\":\"{}\",\"k\":[],\"key\":{},\"base\":{{\"sort\":\"hmac\",\"alg\":\"{}\",\"k\":[],\"key\":[]}}",
            alg, crate::out::bytes(s.key.as_deref().unwrap_or(&[])), alg);
    }
    if s.nested() {
        let (base, key) = if s.name == "hmac/sha256t" { ("tag", BASE_TAG) } else { ("hmac", &[][..]) };
        return format!("\"sort\":\"hmacx\",\"alg\":\"sha256\",\"k\":[],\"key\":{},\"base\":{{\"sort\":\"{}\",\"alg\":\"sha256\",\"k\":[],\"key\":{}}}",
            crate::out::bytes(s.key.as_deref().unwrap_or(&[])), base, crate::out::bytes(key));
    }
    let alg = if s.name == "sha256t" { "sha256" } else { s.name.strip_prefix("hmac/").unwrap_or(&s.name) };
    let kind = if s.name == "sha256t" { "tag" } else if s.name.starts_with("hmac/") { "hmac" } else { "plain" };
    let k = if alg == "siphash24" && kind == "plain" {
        format!("[{},{}]", crate::out::limbs(s.sip.0), crate::out::limbs(s.sip.1))
    } else {
        "[]".into()
    };
    format!("\"sort\":\"{}\",\"alg\":\"{}\",\"k\":{},\"key\":{}", kind, alg, k, crate::out::bytes(s.key.as_deref().unwrap_or(&[])))
}
