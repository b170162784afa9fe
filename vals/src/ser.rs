//! A serializer and a deserializer that only record, in a human-readable and a binary variant, and
//! three real formats (JSON, bincode, CBOR).
use std::fmt;

use serde::de::{self, IntoDeserializer, Visitor};
use serde::{ser, Deserialize};

use crate::{guard, out, unhex, Cx, V};

#[derive(Debug)]
pub struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self { E(m.to_string()) }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self { E(m.to_string()) }
}

/// (kind, content): "str", "bytes" or "other"
type Datum = (&'static str, Vec<u8>);
struct Rec {
    hr: bool,
}
type Imp = ser::Impossible<Datum, E>;
macro_rules! other { ($($f:ident($($t:ty),*);)*) => {$(
    fn $f(self $(, _: $t)*) -> Result<Datum, E> { Ok(("other", vec![])) }
)*} }
impl ser::Serializer for Rec {
    type Ok = Datum;
    type Error = E;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    fn is_human_readable(&self) -> bool { self.hr }
    fn serialize_str(self, v: &str) -> Result<Datum, E> { Ok(("str", v.as_bytes().to_vec())) }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<Datum, E> { Ok(("str", v.to_string().into_bytes())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Datum, E> { Ok(("bytes", v.to_vec())) }
    other! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
        serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<Datum, E> { Ok(("other", vec![])) }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> Result<Datum, E> { Ok(("other", vec![])) }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Datum, E> { Ok(("other", vec![])) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, E> { Err(E("seq".into())) }
    fn serialize_tuple(self, _: usize) -> Result<Imp, E> { Err(E("tuple".into())) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, E> { Err(E("tuple".into())) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, E> { Err(E("tuple".into())) }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, E> { Err(E("map".into())) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, E> { Err(E("struct".into())) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, E> { Err(E("struct".into())) }
}

/// Hands one datum of a fixed kind to whatever visitor it gets.
struct Give<'a> {
    hr: bool,
    kind: &'a str,
    b: &'a [u8],
}
impl<'de> de::Deserializer<'de> for Give<'de> {
    type Error = E;
    fn is_human_readable(&self) -> bool { self.hr }
    fn deserialize_any<T: Visitor<'de>>(self, v: T) -> Result<T::Value, E> {
        let b = self.b;
        let s = || std::str::from_utf8(b).unwrap();
        match self.kind {
            "str" => v.visit_str(&s().to_string()),
            "bstr" => v.visit_borrowed_str(s()),
            "string" => v.visit_string(s().to_string()),
            "bytes" => v.visit_bytes(&self.b.to_vec()),
            "bbytes" => v.visit_borrowed_bytes(self.b),
            "buf" => v.visit_byte_buf(self.b.to_vec()),
            "seq" => v.visit_seq(de::value::SeqDeserializer::new(self.b.iter().copied())),
            "seqstr" => v.visit_seq(de::value::SeqDeserializer::new(vec![s().to_string()].into_iter())),
            "map" => v.visit_map(de::value::MapDeserializer::new(vec![(s().to_string(), 1u8)].into_iter())),
            "char" => v.visit_char(s().chars().next().unwrap()),
            "bool" => v.visit_bool(self.b.first() == Some(&1)),
            "u8" => v.visit_u8(self.b[0]),
            "u64" => v.visit_u64(self.b.iter().fold(0u64, |a, x| a << 8 | *x as u64)),
            "i64" => v.visit_i64(-1),
            "u128" => v.visit_u128(self.b.iter().take(16).fold(0u128, |a, x| a << 8 | *x as u128)),
            "f64" => v.visit_f64(1.5),
            "unit" => v.visit_unit(),
            "none" => v.visit_none(),
            "some" => v.visit_some(s().into_deserializer()),
            "newtype" => v.visit_newtype_struct(s().into_deserializer()),
            k => panic!("datum {}", k),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn outcome<T: V>(r: Result<Result<T, String>, ()>) -> String {
    match r {
        Ok(Ok(v)) => format!("\"out\":\"ok\",\"v\":{}", out::bytes(v.as_ref())),
        Ok(Err(_)) => "\"out\":\"error\",\"v\":[]".into(),
        Err(()) => "\"out\":\"panic\",\"v\":[]".into(),
    }
}

pub fn serialise<T: V>(p: &[&str], v: &T, cx: &mut Cx) {
    let hr = p[2] == "1";
    let t = match guard(|| v.serialize(Rec { hr })) {
        Ok(Ok((k, b))) => format!("\"out\":\"ok\",\"kind\":\"{}\",\"v\":{}", k, out::bytes(&b)),
        Ok(Err(_)) => "\"out\":\"error\",\"kind\":\"\",\"v\":[]".into(),
        Err(()) => "\"out\":\"panic\",\"kind\":\"\",\"v\":[]".into(),
    };
    cx.e(format!("{{\"op\":\"ser\",\"s\":\"{}\",\"hr\":{},{}}}", p[1], hr, t));
}
/// One input of a family; kinds `t1str` (text, human-readable), `t1bytes`, `b0bytes` (bytes, binary).
pub fn sweep_one<T: V>(kind: &str, b: &'static [u8]) -> Result<Result<(), &'static str>, ()> {
    let (hr, k) = match kind {
        "t1str" => (true, "bstr"),
        "t1bytes" => (true, "bbytes"),
        "b0bytes" => (false, "bbytes"),
        k => panic!("kind {}", k),
    };
    guard(|| match T::deserialize(Give { hr, kind: k, b }) {
        Ok(v) => v.as_ref().iter().all(|x| *x == 0).then_some(()).ok_or("wrong"),
        Err(_) => Err("error"),
    })
}
pub fn deserialise<T: V>(p: &[&str], cx: &mut Cx) {
    let hr = p[1] == "1";
    let b = unhex(p[3]);
    let pl: &'static [u8] = cx.arena.place(&b);
    let t = outcome(guard(|| T::deserialize(Give { hr, kind: p[2], b: pl }).map_err(|e| e.to_string())));
    cx.e(format!("{{\"op\":\"de\",\"hr\":{},\"kind\":\"{}\",\"b\":{},{}}}", hr, p[2], out::bytes(&b), t));
}
fn read<T: for<'a> Deserialize<'a>>(fmt: &str, b: &[u8]) -> Result<T, String> {
    match fmt {
        "json" => serde_json::from_slice(b).map_err(|e| e.to_string()),
        "jsonstr" => std::str::from_utf8(b).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(s).map_err(|e| e.to_string())),
        "jsonrd" => serde_json::from_reader(b).map_err(|e| e.to_string()),
        "jsonval" => serde_json::from_slice::<serde_json::Value>(b).and_then(serde_json::from_value).map_err(|e| e.to_string()),
        "bin" => bincode::deserialize(b).map_err(|e| e.to_string()),
        "binrd" => bincode::deserialize_from(b).map_err(|e| e.to_string()),
        "cbor" => ciborium::from_reader(b).map_err(|e| e.to_string()),
        f => panic!("format {}", f),
    }
}
fn write<T: serde::Serialize>(fmt: &str, v: &T) -> Result<Vec<u8>, String> {
    match fmt {
        "json" | "jsonstr" | "jsonrd" => serde_json::to_vec(v).map_err(|e| e.to_string()),
        "jsonval" => serde_json::to_value(v).map(|v| v.to_string().into_bytes()).map_err(|e| e.to_string()),
        "bin" | "binrd" => bincode::serialize(v).map_err(|e| e.to_string()),
        "cbor" => {
            let mut b = vec![];
            ciborium::into_writer(v, &mut b).map(|_| b).map_err(|e| e.to_string())
        }
        f => panic!("format {}", f),
    }
}
/// `J format kind decoded raw`
pub fn format_in<T: V>(p: &[&str], cx: &mut Cx) {
    let (dec, raw) = (unhex(p[3]), unhex(p[4]));
    let pl: &[u8] = cx.arena.place(&raw);
    let t = outcome(guard(|| read::<T>(p[1], pl)));
    cx.e(format!("{{\"op\":\"fin\",\"fmt\":\"{}\",\"kind\":\"{}\",\"b\":{},{}}}", p[1], p[2], out::bytes(&dec), t));
}
/// `K slot format`
pub fn format_round<T: V>(p: &[&str], v: &T, cx: &mut Cx) {
    let r = guard(|| {
        let raw = write(p[2], v)?;
        let back: T = read(p[2], &raw)?;
        // inside containers as well
        let l: Vec<Option<T>> = read(p[2], &write(p[2], &vec![Some(*v), None, Some(*v)])?)?;
        let m: std::collections::BTreeMap<T, u8> = read(p[2], &write(p[2], &std::collections::BTreeMap::from([(*v, 7u8)]))?)?;
        let mut backs = vec![back];
        backs.extend(l.into_iter().flatten());
        backs.extend(m.into_keys());
        Ok::<_, String>((raw, backs))
    });
    let t = match r {
        Ok(Ok((raw, l))) => format!("\"out\":\"ok\",\"raw\":{},\"v\":[{}]", out::bytes(&raw), l.iter().map(|x| out::bytes(x.as_ref())).collect::<Vec<_>>().join(",")),
        Ok(Err(_)) => "\"out\":\"error\",\"raw\":[],\"v\":[]".into(),
        Err(()) => "\"out\":\"panic\",\"raw\":[],\"v\":[]".into(),
    };
    cx.e(format!("{{\"op\":\"round\",\"s\":\"{}\",\"fmt\":\"{}\",{}}}", p[1], p[2], t));
}
