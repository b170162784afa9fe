//! What a user of the library may plug into it: engines of any block and digest size (spec: User.tla), and a
//! tag whose engine starts after any number of blocks.
use crate::kinds::*;
use chf::{hmac, sha256, sha256t, HashEngine};

/// A hash function over blocks of `B` bytes with `D` bytes of state, digest and midstate.
#[derive(Clone)]
pub struct UserEngine<const B: usize, const D: usize> {
    h: [u8; D],
    buf: Vec<u8>,
    n: usize,
}
fn mix<const D: usize>(h: &mut [u8; D], b: u8) {
    let x = (h[0] as u32 * 5 + h[D - 1] as u32 * 3 + b as u32 * 7 + 1) % 251;
    h.rotate_left(1);
    h[D - 1] = x as u8;
}
impl<const B: usize, const D: usize> Default for UserEngine<B, D> {
    fn default() -> Self {
        let mut h = [0; D];
        for (i, x) in h.iter_mut().enumerate() {
            *x = (i + 1 + B) as u8;
        }
        UserEngine { h, buf: vec![], n: 0 }
    }
}
impl<const B: usize, const D: usize> HashEngine for UserEngine<B, D> {
    type Digest = [u8; D];
    type Midstate = [u8; D];
    const BLOCK_SIZE: usize = B;
    fn input(&mut self, data: &[u8]) {
        for b in data {
            self.buf.push(*b);
            if self.buf.len() == B {
                for b in self.buf.drain(..) {
                    mix(&mut self.h, b);
                }
            }
        }
        self.n += data.len();
    }
    fn n_bytes_hashed(&self) -> usize { self.n }
    fn finalize(mut self) -> [u8; D] {
        for b in &self.buf {
            mix(&mut self.h, *b);
        }
        for b in (self.n as u64).to_le_bytes() {
            mix(&mut self.h, b);
        }
        for _ in 0..D {
            mix(&mut self.h, 0);
        }
        self.h
    }
    fn midstate(&self) -> [u8; D] { self.h }
    fn from_midstate(h: [u8; D], n: usize) -> Self { UserEngine { h, buf: vec![], n } }
}

pub struct Usr<const B: usize, const D: usize>;
impl<const B: usize, const D: usize> Kind for Usr<B, D> {
    type E = UserEngine<B, D>;
    const NAME: &'static str = "user";
    fn mid_bytes(m: &[u8; D]) -> Vec<Vec<u8>> { vec![m.to_vec()] }
    fn mid_text(m: &[u8; D]) -> String { crate::out::hex(m) }
    fn mid_from(b: &[u8]) -> Option<[u8; D]> { b.try_into().ok() }
    fn mid_clone(m: &[u8; D]) -> [u8; D] { *m }
    fn from_engine(e: Self::E) -> Vec<u8> { e.finalize().to_vec() }
    fn one(d: &[u8]) -> Option<Vec<u8>> { Some(<Self::E as HashEngine>::hash(d).to_vec()) }
    fn fresh(rt: &str) -> Self::E {
        if rt == "default" { Default::default() } else { <Self::E as HashEngine>::new() }
    }
    fn write(e: &mut Self::E, _: &str, d: &[u8]) -> Result<u64, String> {
        e.input(d);
        Ok(d.len() as u64)
    }
}
type HE<const B: usize, const D: usize> = hmac::Engine<UserEngine<B, D>>;
impl<const B: usize, const D: usize> Kind for Hm<Usr<B, D>> {
    type E = HE<B, D>;
    const NAME: &'static str = "hmac/user";
    fn mid_bytes(m: &hmac::Midstate<UserEngine<B, D>>) -> Vec<Vec<u8>> { vec![m.inner.to_vec(), m.outer.to_vec()] }
    fn mid_text(m: &hmac::Midstate<UserEngine<B, D>>) -> String { format!("{:?}", Self::mid_bytes(m)) }
    fn mid_clone(m: &hmac::Midstate<UserEngine<B, D>>) -> hmac::Midstate<UserEngine<B, D>> {
        hmac::Midstate { inner: m.inner, outer: m.outer }
    }
    fn from_engine(e: Self::E) -> Vec<u8> { hmac::Hash::<D>::from_engine(e).as_bytes().to_vec() }
    fn one(_: &[u8]) -> Option<Vec<u8>> { None }
    fn fresh(rt: &str) -> Self::E {
        match rt {
            "default" => Default::default(),
            "engine" => hmac::Hash::<D>::engine::<Self::E>(),
            _ => <Self::E as HashEngine>::new(),
        }
    }
    fn write(e: &mut Self::E, rt: &str, d: &[u8]) -> Result<u64, String> { io_write(e, rt, d) }
}
impl<const B: usize, const D: usize> Kind for Hm<Hm<Usr<B, D>>> {
    type E = hmac::Engine<HE<B, D>>;
    const NAME: &'static str = "hmac/hmac/user";
    fn mid_bytes(m: &hmac::Midstate<HE<B, D>>) -> Vec<Vec<u8>> {
        [&m.inner, &m.outer].iter().flat_map(|x| Hm::<Usr<B, D>>::mid_bytes(x)).collect()
    }
    fn mid_text(m: &hmac::Midstate<HE<B, D>>) -> String { format!("{:?}", Self::mid_bytes(m)) }
    fn mid_clone(m: &hmac::Midstate<HE<B, D>>) -> hmac::Midstate<HE<B, D>> {
        hmac::Midstate { inner: Hm::<Usr<B, D>>::mid_clone(&m.inner), outer: Hm::<Usr<B, D>>::mid_clone(&m.outer) }
    }
    fn from_engine(e: Self::E) -> Vec<u8> { hmac::Hash::<D>::from_engine(e).as_bytes().to_vec() }
    fn one(_: &[u8]) -> Option<Vec<u8>> { None }
    fn fresh(rt: &str) -> Self::E {
        match rt {
            "default" => Default::default(),
            "engine" => hmac::Hash::<D>::engine::<Self::E>(),
            _ => <Self::E as HashEngine>::new(),
        }
    }
    fn write(e: &mut Self::E, rt: &str, d: &[u8]) -> Result<u64, String> { io_write(e, rt, d) }
}

/// A tag whose engine has absorbed the whole blocks chosen at run time.
#[derive(Clone)]
pub struct PreTag;
impl sha256t::Tag for PreTag {
    fn engine() -> sha256t::Engine<PreTag> {
        TAG.with(|t| {
            let t = t.borrow();
            let mut e = sha256::Engine::new();
            e.input(&t);
            <sha256t::Engine<PreTag> as HashEngine>::from_midstate(e.midstate(), t.len())
        })
    }
}
pub struct P256;
impl Kind for P256 {
    type E = sha256t::Engine<PreTag>;
    const NAME: &'static str = "sha256pu";
    fn mid_bytes(m: &sha256::Midstate) -> Vec<Vec<u8>> { S256::mid_bytes(m) }
    fn mid_text(m: &sha256::Midstate) -> String { S256::mid_text(m) }
    fn mid_from(b: &[u8]) -> Option<sha256::Midstate> { S256::mid_from(b) }
    fn mid_clone(m: &sha256::Midstate) -> sha256::Midstate { *m }
    fn from_engine(e: Self::E) -> Vec<u8> { sha256t::Hash::from_engine(e).as_bytes().to_vec() }
    fn one(d: &[u8]) -> Option<Vec<u8>> { Some(sha256t::Hash::<PreTag>::hash(d).to_byte_array().to_vec()) }
    fn fresh(rt: &str) -> Self::E {
        match rt {
            "default" => Default::default(),
            "engine" => sha256t::Hash::<PreTag>::engine(),
            _ => <Self::E as HashEngine>::new(),
        }
    }
    fn write(e: &mut Self::E, rt: &str, d: &[u8]) -> Result<u64, String> { io_write(e, rt, d) }
}

macro_rules! users {
    ($d:tt $($b:literal $n:literal $u:literal $h:literal $hh:literal;)*) => {
        macro_rules! with_user {
            ($d name:expr, $d k:ident => $d body:expr) => {
                match $d name {
                    $($u => { type $d k = $crate::user::Usr<$b, $n>; $d body })*
                    $($h => { type $d k = Hm<$crate::user::Usr<$b, $n>>; $d body })*
                    $($hh => { type $d k = Hm<Hm<$crate::user::Usr<$b, $n>>>; $d body })*
                    "sha256pu" => { type $d k = $crate::user::P256; $d body }
                    n => panic!("unknown user sort {}", n),
                }
            };
        }
        macro_rules! with_user_base {
            ($d name:expr, $d k:ident => $d body:expr) => {
                match $d name {
                    $($u => { type $d k = $crate::user::Usr<$b, $n>; $d body })*
                    $($h => { type $d k = Hm<$crate::user::Usr<$b, $n>>; $d body })*
                    n => panic!("unknown user hash {}", n),
                }
            };
        }
    };
}
users! { $
    1 1 "u1" "hmac/u1" "hmac/hmac/u1";
    2 1 "u2" "hmac/u2" "hmac/hmac/u2";
    3 2 "u3" "hmac/u3" "hmac/hmac/u3";
    4 4 "u4" "hmac/u4" "hmac/hmac/u4";
    5 3 "u5" "hmac/u5" "hmac/hmac/u5";
    7 7 "u7" "hmac/u7" "hmac/hmac/u7";
    8 4 "u8" "hmac/u8" "hmac/hmac/u8";
    13 9 "u13" "hmac/u13" "hmac/hmac/u13";
    16 16 "u16" "hmac/u16" "hmac/hmac/u16";
    31 16 "u31" "hmac/u31" "hmac/hmac/u31";
    32 20 "u32" "hmac/u32" "hmac/hmac/u32";
    33 33 "u33" "hmac/u33" "hmac/hmac/u33";
    48 28 "u48" "hmac/u48" "hmac/hmac/u48";
    63 32 "u63" "hmac/u63" "hmac/hmac/u63";
    64 64 "u64" "hmac/u64" "hmac/hmac/u64";
    65 40 "u65" "hmac/u65" "hmac/hmac/u65";
    72 72 "u72" "hmac/u72" "hmac/hmac/u72";
    96 1 "u96" "hmac/u96" "hmac/hmac/u96";
    100 64 "u100" "hmac/u100" "hmac/hmac/u100";
    104 28 "u104" "hmac/u104" "hmac/hmac/u104";
    112 56 "u112" "hmac/u112" "hmac/hmac/u112";
    120 20 "u120" "hmac/u120" "hmac/hmac/u120";
    127 100 "u127" "hmac/u127" "hmac/hmac/u127";
    128 128 "u128" "hmac/u128" "hmac/hmac/u128";
    129 32 "u129" "hmac/u129" "hmac/hmac/u129";
    136 32 "u136" "hmac/u136" "hmac/hmac/u136";
    144 64 "u144" "hmac/u144" "hmac/hmac/u144";
    192 24 "u192" "hmac/u192" "hmac/hmac/u192";
    256 32 "u256" "hmac/u256" "hmac/hmac/u256";
    257 64 "u257" "hmac/u257" "hmac/hmac/u257";
}
