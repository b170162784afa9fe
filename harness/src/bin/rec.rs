//! rec k|u PLAN OUT: execute a plan on the real library and record one JSON line per trace.
//!   k: concrete traces (all bytes are logged; TraceK.tla recomputes every value)
//!   u: content traces (inputs are named, values are opaque; TraceU.tla checks consistency)
use chf_harness::arena::{install_crash_handler, Arena, LINE};
use chf_harness::data::{self, Desc};
use chf_harness::kinds::{sort_json as sort_json_k, Cap, Eng, Sort};
use chf_harness::out;
use std::collections::HashMap;
use std::io::{BufWriter, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

type Seg = (u64, usize, usize);
#[derive(Clone)]
struct Content {
    sort: Sort,
    segs: Vec<Seg>,
    n: usize,
    known: bool,
}
fn push(segs: &mut Vec<Seg>, s: Seg) {
    if s.2 == 0 {
        return;
    }
    if let Some(l) = segs.last_mut() {
        if l.0 == s.0 && l.1 + l.2 == s.1 {
            l.2 += s.2;
            return;
        }
    }
    segs.push(s);
}
fn trunc(c: &Content) -> Vec<Seg> {
    let mut keep = (c.n / c.sort.block() * c.sort.block()).saturating_sub(c.sort.pre());
    let mut v = vec![];
    for s in &c.segs {
        let t = s.2.min(keep);
        if t > 0 {
            v.push((s.0, s.1, t));
        }
        keep -= t;
    }
    v
}
fn content_bytes(segs: &[Seg]) -> Vec<u8> {
    let mut v = vec![];
    for s in segs {
        v.extend(data::stream(s.0, s.1, s.2));
    }
    v
}
fn seg_json(segs: &[Seg]) -> String {
    let p: Vec<String> =
        segs.iter().map(|s| format!("[{},{},{}]", s.0, out::limbs(s.1 as u64), out::limbs(s.2 as u64))).collect();
    format!("[{}]", p.join(","))
}
fn sort_text(s: &Sort) -> String {
    format!("{}|{}|{}:{}", s.name, out::hex(s.key.as_deref().unwrap_or(&[])), s.sip.0, s.sip.1)
}

struct Rec {
    k: bool,
    arena: Arena,
    slots: HashMap<u32, Box<dyn Eng>>,
    cont: HashMap<u32, Content>,
    regs: HashMap<u32, (Box<dyn Cap>, Content)>,
    ev: Vec<String>,
    refs: Vec<String>,
    mrefs: Vec<String>,
    rid: HashMap<(Sort, Vec<Seg>), usize>,
    mid: HashMap<(Sort, Vec<Seg>), usize>,
    turn: usize,
    digs: Vec<String>,
    dig_id: HashMap<String, usize>,
    /// complete traces of their own (segments of long messages)
    extra: Vec<String>,
    name: String,
}
impl Rec {
    fn intern(&mut self, d: String) -> usize {
        if let Some(i) = self.dig_id.get(&d) {
            return *i;
        }
        self.digs.push(d.clone());
        self.dig_id.insert(d, self.digs.len());
        self.digs.len()
    }
    /// Feed the first bytes of a stream in the given pieces through a route; returns (count, digest or "panic").
    fn feed(&mut self, sort: &Sort, all: &[u8], cuts: &[usize], rt: &str) -> (i64, String) {
        let total: usize = cuts.iter().sum();
        let p: &[u8] = self.arena.place(&all[..total]);
        let turn = self.turn;
        self.turn += 1;
        let r = catch_unwind(AssertUnwindSafe(|| {
            if rt == "chunks" {
                let mut at = 0;
                let mut parts = vec![];
                for c in cuts {
                    parts.push(p[at..at + c].to_vec());
                    at += c;
                }
                return ((sort.pre() + total) as i64, out::hex(&sort.one("chunks", &parts, p)));
            }
            let mut e = sort.fresh("new");
            let mut at = 0;
            for c in cuts {
                let q = &p[at..at + c];
                let got = if rt == "in" {
                    e.input(q);
                    *c as u64
                } else {
                    e.write(rt, q).unwrap_or(u64::MAX)
                };
                if got != *c as u64 {
                    return (-2, "short write".into());
                }
                at += c;
            }
            let n = e.n() as i64;
            (n, out::hex(&e.fin(if turn % 2 == 0 { "e" } else { "h" })))
        }));
        if p != &all[..total] {
            return (-3, "input changed".into());
        }
        r.unwrap_or((-1, "panic".into()))
    }
    fn feeds(&mut self, sort: &Sort, seed: u64, rt: &str, all: &[u8], list: &[Vec<usize>]) {
        let mut v = Vec::with_capacity(list.len());
        for cuts in list {
            let total: usize = cuts.iter().sum();
            let c = Content { sort: sort.clone(), segs: if total > 0 { vec![(seed, 0, total)] } else { vec![] }, n: sort.pre() + total, known: true };
            let rid = self.rid(&c);
            let (n, d) = self.feed(sort, all, cuts, rt);
            let di = self.intern(d);
            let cj: Vec<String> = cuts.iter().map(|c| c.to_string()).collect();
            v.push(format!("[[{}],{},{},{}]", cj.join(","), n, di, rid));
        }
        self.ev.push(format!("{{\"op\":\"feeds\",\"sort\":\"{}\",\"pre\":{},\"seed\":{},\"rt\":\"{}\",\"f\":[{}],\"out\":\"ok\"}}",
            sort_text(sort), sort.pre(), seed, rt, v.join(",")));
    }
    fn clear(&mut self) {
        self.digs.clear();
        self.dig_id.clear();
        self.slots.clear();
        self.cont.clear();
        self.regs.clear();
        self.ev.clear();
        self.refs.clear();
        self.mrefs.clear();
        self.rid.clear();
        self.mid.clear();
    }
    /// Reference digest of a content: one engine, one input.
    fn rid(&mut self, c: &Content) -> usize {
        let key = (c.sort.clone(), c.segs.clone());
        if let Some(i) = self.rid.get(&key) {
            return *i;
        }
        let b = content_bytes(&c.segs);
        let dig = catch_unwind(AssertUnwindSafe(|| {
            let mut e = c.sort.fresh("new");
            e.input(&b);
            out::hex(&e.fin("e"))
        }))
        .unwrap_or_else(|_| "panic".into());
        self.refs.push(format!("{{\"sort\":\"{}\",\"segs\":{},\"dig\":\"{}\"}}", sort_text(&c.sort), seg_json(&c.segs), dig));
        self.rid.insert(key, self.refs.len());
        self.refs.len()
    }
    fn mid(&mut self, c: &Content) -> usize {
        let segs = trunc(c);
        let key = (c.sort.clone(), segs.clone());
        if let Some(i) = self.mid.get(&key) {
            return *i;
        }
        let b = content_bytes(&segs);
        let m = catch_unwind(AssertUnwindSafe(|| {
            let mut e = c.sort.fresh("new");
            e.input(&b);
            e.mid_text()
        }))
        .unwrap_or_else(|_| "panic".into());
        self.mrefs.push(format!("{{\"sort\":\"{}\",\"segs\":{},\"mid\":{}}}", sort_text(&c.sort), seg_json(&segs), out::string(&m)));
        self.mid.insert(key, self.mrefs.len());
        self.mrefs.len()
    }
    fn observe(&mut self, s: u32, what: &str) -> String {
        self.turn += 1;
        let rt = if self.turn % 2 == 0 { "e" } else { "h" };
        let k = self.k;
        let want_d = what.contains('d');
        let want_m = what.contains('m');
        let e = &self.slots[&s];
        let r = catch_unwind(AssertUnwindSafe(|| {
            let n = e.n();
            let mut t = format!("\"n\":{}", out::limbs(n as u64));
            if want_m {
                if k {
                    let m: Vec<String> = e.mid_bytes().iter().map(|b| out::bytes(b)).collect();
                    t += &format!(",\"mid\":[{}]", m.join(","));
                } else {
                    t += &format!(",\"mid\":{}", out::string(&e.mid_text()));
                }
            }
            if want_d {
                let d = e.dup().fin(rt);
                t += &if k { format!(",\"dig\":{}", out::bytes(&d)) } else { format!(",\"dig\":\"{}\"", out::hex(&d)) };
            }
            if let Some((a, b)) = e.keys() {
                t += &format!(",\"keys\":[{},{}]", out::limbs(a), out::limbs(b));
            }
            t
        }));
        let mut t = match r {
            Ok(t) => format!("\"out\":\"ok\",{}", t),
            Err(_) => "\"out\":\"panic\"".to_string(),
        };
        if !k {
            let c = self.cont[&s].clone();
            if want_d {
                t += &format!(",\"rid\":{}", self.rid(&c));
            }
            if want_m {
                t += &format!(",\"mrid\":{}", self.mid(&c));
            }
        }
        format!("{{\"s\":{},{}}}", s, t)
    }
    fn step(&mut self, line: &str) {
        let f: Vec<&str> = line.split(' ').collect();
        let id = |i: usize| f[i].parse::<u32>().unwrap();
        match f[0] {
            "N" => {
                let sort = Sort::parse(f[2]);
                let rt = f.get(3).copied().unwrap_or("new");
                let r = catch_unwind(AssertUnwindSafe(|| sort.fresh(rt)));
                let o = if r.is_ok() { "ok" } else { "panic" };
                if let Ok(e) = r {
                    self.slots.insert(id(1), e);
                }
                let n = sort.pre();
                let sj = if self.k { sort_json_k(&sort) } else { format!("\"sort\":\"{}\",\"pre\":{},\"blk\":{}", sort_text(&sort), n, sort.block()) };
                self.ev.push(format!("{{\"op\":\"new\",\"s\":{},\"rt\":\"{}\",{},\"out\":\"{}\"}}", f[1], rt, sj, o));
                self.cont.insert(id(1), Content { sort, segs: vec![], n, known: true });
            }
            "I" => {
                let s = id(1);
                let d = data::parse(f[3]);
                let b = d.bytes();
                let p: &[u8] = self.arena.place(&b);
                let e = self.slots.get_mut(&s).unwrap();
                let rt = f[2];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if rt == "in" {
                        e.input(p);
                        Ok(p.len() as u64)
                    } else {
                        e.write(rt, p)
                    }
                }));
                let (o, ret) = match r {
                    _ if p != &b[..] => ("input changed", 0),
                    Ok(Ok(n)) => ("ok", n),
                    Ok(Err(_)) => ("error", 0),
                    Err(_) => ("panic", 0),
                };
                let flush = rt == "fl" || rt == "sfl";
                let c = self.cont.get_mut(&s).unwrap();
                if !flush {
                    c.n = c.n.wrapping_add(d.len());
                    if let Desc::Prng(a, o, n) = d {
                        push(&mut c.segs, (a, o, n));
                    } else {
                        c.known = false;
                    }
                }
                let dj = if self.k { out::bytes(if flush { &[] } else { &b }) } else {
                    match &d {
                        Desc::Prng(a, o, n) if !flush => format!("[{},{},{}]", a, out::limbs(*o as u64), out::limbs(*n as u64)),
                        _ => "[]".into(),
                    }
                };
                self.ev.push(format!("{{\"op\":\"in\",\"s\":{},\"rt\":\"{}\",\"d\":{},\"ret\":{},\"out\":\"{}\"}}",
                    f[1], rt, dj, out::limbs(ret), o));
            }
            "C" => {
                let (s, d) = (id(1), id(2));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if f.get(3) == Some(&"cf") {
                        if let Some(mut t) = self.slots.remove(&d) {
                            if t.dup_from(self.slots[&s].as_ref()) {
                                return t;
                            }
                        }
                    }
                    self.slots[&s].dup()
                }));
                let o = if r.is_ok() { "ok" } else { "panic" };
                if let Ok(e) = r {
                    self.slots.insert(d, e);
                }
                let c = self.cont[&s].clone();
                self.cont.insert(d, c);
                self.ev.push(format!("{{\"op\":\"clone\",\"s\":{},\"d\":{},\"out\":\"{}\"}}", f[1], f[2], o));
            }
            "X" => {
                self.slots.remove(&id(1));
                self.cont.remove(&id(1));
                self.ev.push(format!("{{\"op\":\"drop\",\"s\":{},\"out\":\"ok\"}}", f[1]));
            }
            "M" => {
                let e = &self.slots[&id(1)];
                let c = self.cont[&id(1)].clone();
                let cap = e.capture();
                self.regs.insert(id(2), (cap, c));
                self.ev.push(format!("{{\"op\":\"cap\",\"s\":{},\"r\":{},\"out\":\"ok\"}}", f[1], f[2]));
            }
            "R" => {
                let s = id(1);
                let (cap, c) = &self.regs[&id(2)];
                let al = c.n / c.sort.block() * c.sort.block();
                let n: usize = if f[3] == "t" { al } else { f[3].parse().unwrap() };
                c.sort.set_tag();
                let r = catch_unwind(AssertUnwindSafe(|| cap.resume(n, f.get(4) == Some(&"i"))));
                let o = if r.is_ok() { "ok" } else { "panic" };
                let same = match &r {
                    Ok(e) => e.mid_text() == cap.text(),
                    Err(_) => true,
                };
                let mut c = Content { segs: trunc(c), n, ..c.clone() };
                c.known &= n == al;
                if let Ok(e) = r {
                    self.slots.insert(s, e);
                    self.cont.insert(s, c);
                }
                self.ev.push(format!("{{\"op\":\"res\",\"s\":{},\"r\":{},\"n\":{},\"same\":{},\"out\":\"{}\"}}",
                    f[1], f[2], out::limbs(n as u64), same, o));
            }
            "B" => {
                let s = id(1);
                let sort = Sort::parse(f[2]);
                let mid = data::parse(f[3]).bytes();
                let n: usize = f[4].parse().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| sort.resume_bytes(&mid, n, f.get(5) == Some(&"i"))));
                let o = if r.is_ok() { "ok" } else { "panic" };
                if let Ok(e) = r {
                    self.slots.insert(s, e);
                }
                self.ev.push(format!("{{\"op\":\"resb\",\"s\":{},{},\"mid\":{},\"n\":{},\"out\":\"{}\"}}",
                    f[1], sort_json_k(&sort), out::bytes(&mid), out::limbs(n as u64), o));
                self.cont.insert(s, Content { sort, segs: vec![], n, known: false });
            }
            "F" => {
                let s = id(1);
                let e = self.slots.remove(&s).unwrap();
                let c = self.cont.remove(&s).unwrap();
                let rt = f[2];
                let r = catch_unwind(AssertUnwindSafe(|| match rt {
                    "u" => e.fin_u64().map(|u| u.to_le_bytes().to_vec()).unwrap_or_default(),
                    _ => e.fin(rt),
                }));
                let (o, d) = match r {
                    Ok(d) => ("ok", d),
                    Err(_) => ("panic", vec![]),
                };
                let t = if self.k { format!("\"dig\":{}", out::bytes(&d)) } else { format!("\"dig\":\"{}\",\"rid\":{}", out::hex(&d), self.rid(&c)) };
                self.ev.push(format!("{{\"op\":\"fin\",\"s\":{},\"rt\":\"{}\",{},\"out\":\"{}\"}}", f[1], rt, t, o));
            }
            "G" => {
                let sort = Sort::parse(f[1]);
                let parts: Vec<Desc> = f[3].split(',').map(data::parse).collect();
                let pb: Vec<Vec<u8>> = parts.iter().map(|d| d.bytes()).collect();
                let all: Vec<u8> = pb.concat();
                let p: &[u8] = self.arena.place(&all);
                let rt = f[2];
                let r = catch_unwind(AssertUnwindSafe(|| sort.one(rt, &pb, p)));
                let (o, d) = match r {
                    _ if p != &all[..] => ("input changed", vec![]),
                    Ok(d) => ("ok", d),
                    Err(_) => ("panic", vec![]),
                };
                if self.k {
                    self.ev.push(format!("{{\"op\":\"one\",\"rt\":\"{}\",{},\"d\":{},\"dig\":{},\"out\":\"{}\"}}",
                        rt, sort_json_k(&sort), out::bytes(&all), out::bytes(&d), o));
                } else {
                    let mut segs = vec![];
                    for q in &parts {
                        if let Desc::Prng(a, o, n) = q {
                            push(&mut segs, (*a, *o, *n));
                        }
                    }
                    let c = Content { n: all.len() + sort.pre(), segs: segs.clone(), sort: sort.clone(), known: true };
                    let rid = self.rid(&c);
                    let raw: Vec<String> = parts.iter().map(|q| match q {
                        Desc::Prng(a, o, n) => format!("[{},{},{}]", a, out::limbs(*o as u64), out::limbs(*n as u64)),
                        _ => "[]".into(),
                    }).collect();
                    self.ev.push(format!("{{\"op\":\"one\",\"rt\":\"{}\",\"sort\":\"{}\",\"parts\":[{}],\"dig\":\"{}\",\"rid\":{},\"out\":\"{}\"}}",
                        rt, sort_text(&sort), raw.join(","), out::hex(&d), rid, o));
                }
            }
            "O" => {
                let what = f.get(2).copied().unwrap_or("nmd");
                let mut ids: Vec<u32> = if f[1] == "*" { self.slots.keys().copied().collect() } else { f[1].split(',').map(|x| x.parse().unwrap()).collect() };
                ids.sort();
                ids.retain(|i| self.slots.contains_key(i));
                let o: Vec<String> = ids.iter().map(|i| self.observe(*i, what)).collect();
                self.ev.push(format!("{{\"op\":\"obs\",\"o\":[{}],\"out\":\"ok\"}}", o.join(",")));
            }
            // one message through several one-shot routes
            "H" => {
                let sort = Sort::parse(f[1]);
                let b = data::parse(f[2]).bytes();
                let mut v = vec![];
                for rt in f[3].split(',') {
                    let p: &[u8] = self.arena.place(&b);
                    let parts = [b[..b.len() / 3].to_vec(), b[b.len() / 3..].to_vec()];
                    let r = catch_unwind(AssertUnwindSafe(|| sort.one(rt, &parts, p)));
                    v.push(match r {
                        _ if p != &b[..] => format!("{{\"rt\":\"{}\",\"out\":\"input changed\"}}", rt),
                        Ok(d) => format!("{{\"rt\":\"{}\",\"out\":\"ok\",\"dig\":{}}}", rt, out::bytes(&d)),
                        Err(_) => format!("{{\"rt\":\"{}\",\"out\":\"panic\"}}", rt),
                    });
                }
                self.ev.push(format!("{{\"op\":\"ones\",{},\"d\":{},\"digs\":[{}],\"out\":\"ok\"}}", sort_json_k(&sort), out::bytes(&b), v.join(",")));
            }
            // a long message in segments, each a trace of its own: W sort data segment-size [route]
            "W" => {
                let sort = Sort::parse(f[1]);
                let b = data::parse(f[2]).bytes();
                let seg: usize = f[3].parse().unwrap();
                let rt = f.get(4).copied().unwrap_or("in");
                let name = self.name.clone();
                let mut e = sort.fresh("new");
                let mut at = 0;
                let mut i = 0;
                loop {
                    let end = (at + seg).min(b.len());
                    let last = end == b.len();
                    let mids = |e: &Box<dyn Eng>| { let m: Vec<String> = e.mid_bytes().iter().map(|x| out::bytes(x)).collect(); format!("[{}]", m.join(",")) };
                    let m0 = mids(&e);
                    let n0 = e.n();
                    // the bytes in the engine's buffer are re-stated so that each segment starts at a block
                    let blk = sort.block();
                    let back = n0 % blk;
                    let p: &[u8] = self.arena.place(&b[at..end]);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        if rt == "in" { e.input(p) } else { e.write(rt, p).map(|_| ()).unwrap_or(()) }
                        let mut t = format!("\"m1\":{},\"n1\":{}", mids(&e), out::limbs(e.n() as u64));
                        if last {
                            t += &format!(",\"dig\":{}", out::bytes(&e.dup().fin("h")));
                        }
                        t
                    }));
                    let t = match r {
                        Ok(t) => format!("\"out\":\"ok\",{}", t),
                        Err(_) => "\"out\":\"panic\"".to_string(),
                    };
                    self.extra.push(format!("{{\"id\":\"{}/{}\",\"ev\":[{{\"op\":\"seg\",{},\"first\":{},\"m0\":{},\"n0\":{},\"back\":{},\"d\":{},{}}}]}}",
                        name, i, sort_json_k(&sort), at == 0, m0, out::limbs(n0 as u64), out::bytes(&b[at - back.min(at)..at]), out::bytes(&b[at..end]), t));
                    if t.contains("panic") || last {
                        break;
                    }
                    at = end;
                    i += 1;
                }
            }
            // a ladder: every prefix of a stream (from, to, step), each rung a trace of its own that goes on
            // from the state recorded at the previous one; at every rung the digest of the prefix by all
            // given routes: Y sort seed from to step routes
            "Y" => {
                let sort = Sort::parse(f[1]);
                let seed: u64 = f[2].parse().unwrap();
                let num = |i: usize| f[i].parse::<usize>().unwrap();
                let (from, to, step) = (num(3), num(4), num(5));
                let b = data::stream(seed, 0, to);
                let name = self.name.clone();
                let mut e = sort.fresh("new");
                let blk = sort.block();
                let mids = |e: &Box<dyn Eng>| { let m: Vec<String> = e.mid_bytes().iter().map(|x| out::bytes(x)).collect(); format!("[{}]", m.join(",")) };
                let mut at = 0;
                let mut end = from;
                while end <= to {
                    let (m0, n0) = (mids(&e), e.n());
                    let back = n0 % blk;
                    let p: &[u8] = self.arena.place(&b[at..end]);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        e.input(p);
                        (mids(&e), e.n())
                    }));
                    let mut seen: Vec<(Vec<u8>, Vec<&str>)> = vec![];
                    let mut bad = r.is_err();
                    for rt in f[6].split(',') {
                        let q: &[u8] = self.arena.place(&b[..end]);
                        let parts = [b[..end / 3].to_vec(), b[end / 3..end].to_vec()];
                        let r = catch_unwind(AssertUnwindSafe(|| match rt {
                            "e" | "h" => e.dup().fin(rt),
                            _ => sort.one(rt, &parts, q),
                        }));
                        match r {
                            Ok(d) if q == &b[..end] => match seen.iter_mut().find(|x| x.0 == d) {
                                Some(x) => x.1.push(rt),
                                None => seen.push((d, vec![rt])),
                            },
                            _ => bad = true,
                        }
                    }
                    let t = match r {
                        Ok((m1, n1)) if !bad => format!("\"out\":\"ok\",\"m1\":{},\"n1\":{}", m1, out::limbs(n1 as u64)),
                        _ => "\"out\":\"panic\"".to_string(),
                    };
                    let digs: Vec<String> = seen.iter().map(|(d, r)| format!("{{\"rt\":\"{}\",\"dig\":{}}}", r.join(","), out::bytes(d))).collect();
                    self.extra.push(format!("{{\"id\":\"{}/{}\",\"ev\":[{{\"op\":\"seg\",{},\"first\":{},\"m0\":{},\"n0\":{},\"back\":{},\"d\":{},\"digs\":[{}],{}}}]}}",
                        name, end, sort_json_k(&sort), at == 0, m0, out::limbs(n0 as u64), out::bytes(&b[at - back.min(at)..at]), out::bytes(&b[at..end]), digs.join(","), t));
                    if bad {
                        break;
                    }
                    at = end;
                    end += step;
                }
            }
            // all pairs (first piece, second piece) plus a fixed last piece: E sort seed route a-b c-d tail
            "E" => {
                let sort = Sort::parse(f[1]);
                let seed: u64 = f[2].parse().unwrap();
                let rg = |t: &str| { let (a, b) = t.split_once('-').unwrap(); (a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap()) };
                let ((a, b), (c, d)) = (rg(f[4]), rg(f[5]));
                let tail: usize = f[6].parse().unwrap();
                let all = data::stream(seed, 0, b + d + tail);
                let mut list = vec![];
                for x in a..=b {
                    for y in c..=d {
                        list.push(if tail > 0 { vec![x, y, tail] } else { vec![x, y] });
                    }
                }
                self.feeds(&sort, seed, f[3], &all, &list);
            }
            // all sequences of up to `depth` pieces with sizes from a list: Q sort seed route sizes depth
            "Q" => {
                let sort = Sort::parse(f[1]);
                let seed: u64 = f[2].parse().unwrap();
                let sizes: Vec<usize> = f[4].split(',').map(|x| x.parse().unwrap()).collect();
                let depth: usize = f[5].parse().unwrap();
                let all = data::stream(seed, 0, sizes.iter().max().unwrap() * depth);
                let mut list: Vec<Vec<usize>> = vec![vec![]];
                let mut level: Vec<Vec<usize>> = vec![vec![]];
                for _ in 0..depth {
                    let mut next = vec![];
                    for p in &level {
                        for z in &sizes {
                            let mut q = p.clone();
                            q.push(*z);
                            next.push(q);
                        }
                    }
                    list.extend(next.iter().cloned());
                    level = next;
                }
                self.feeds(&sort, seed, f[3], &all, &list);
            }
            // one given list of pieces: L sort seed route n,n,n..
            "L" => {
                let sort = Sort::parse(f[1]);
                let seed: u64 = f[2].parse().unwrap();
                let cuts: Vec<usize> = f[4].split(',').map(|x| x.parse().unwrap()).collect();
                let all = data::stream(seed, 0, cuts.iter().sum());
                self.feeds(&sort, seed, f[3], &all, &[cuts]);
            }
            _ => panic!("bad plan line {}", line),
        }
    }
}

/// Execute a plan; one JSON line per trace.
fn run(k: bool, plan: &str, w: &mut dyn std::io::Write) {
    let mut r = Rec {
        k,
        arena: Arena::new(8 << 20),
        slots: HashMap::new(),
        cont: HashMap::new(),
        regs: HashMap::new(),
        ev: vec![],
        refs: vec![],
        mrefs: vec![],
        rid: HashMap::new(),
        mid: HashMap::new(),
        turn: 0,
        digs: vec![],
        dig_id: HashMap::new(),
        extra: vec![],
        name: String::new(),
    };
    let mut cur: Option<String> = None;
    let flush = |r: &mut Rec, cur: &Option<String>, w: &mut dyn std::io::Write| {
        if let Some(id) = cur {
            for t in r.extra.drain(..) {
                writeln!(w, "{}", t).unwrap();
            }
            if k {
                if !r.ev.is_empty() {
                    writeln!(w, "{{\"id\":\"{}\",\"ev\":[{}]}}", id, r.ev.join(",")).unwrap();
                }
            } else {
                let digs: Vec<String> = r.digs.iter().map(|d| format!("\"{}\"", d)).collect();
                writeln!(
                    w,
                    "{{\"id\":\"{}\",\"ref\":[{}],\"mref\":[{}],\"digs\":[{}],\"ev\":[{}]}}",
                    id, r.refs.join(","), r.mrefs.join(","), digs.join(","), r.ev.join(",")
                )
                .unwrap();
            }
        }
        r.clear();
    };
    let mut skip = false;
    for (i, line) in plan.lines().enumerate() {
        LINE.store(i + 1, Ordering::Relaxed);
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        if let Some(id) = line.strip_prefix("T ") {
            flush(&mut r, &cur, w);
            cur = Some(id.to_string());
            r.name = id.to_string();
            skip = false;
            continue;
        }
        if skip {
            continue;
        }
        // After an unexpected panic the rest of the trace has no engine to work on.
        if catch_unwind(AssertUnwindSafe(|| r.step(line))).is_err() {
            r.ev.push(format!("{{\"op\":\"stuck\",\"line\":{},\"out\":\"panic\"}}", i + 1));
            skip = true;
        }
    }
    flush(&mut r, &cur, w);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_crash_handler();
    std::panic::set_hook(Box::new(|_| {}));
    let plan = std::fs::read_to_string(&a[2]).unwrap();
    let k = a[1].starts_with('k');
    let threads: usize = a[1][1..].parse().unwrap_or(1);
    let mut w = BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    if threads == 1 {
        run(k, &plan, &mut w);
    } else {
        // the same plan on several threads at once; every recording that differs from the first is kept
        let plan = std::sync::Arc::new(plan);
        let bar = std::sync::Arc::new(std::sync::Barrier::new(threads));
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (plan, bar) = (plan.clone(), bar.clone());
                std::thread::spawn(move || {
                    let mut v = vec![];
                    bar.wait();
                    run(k, &plan, &mut v);
                    v
                })
            })
            .collect();
        let outs: Vec<Vec<u8>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        w.write_all(&outs[0]).unwrap();
        let base: Vec<&[u8]> = outs[0].split(|b| *b == b'\n').collect();
        for (t, o) in outs.iter().enumerate().skip(1) {
            for (i, l) in o.split(|b| *b == b'\n').enumerate() {
                if base.get(i) != Some(&l) && !l.is_empty() {
                    let l = String::from_utf8_lossy(l).replacen("{\"id\":\"", &format!("{{\"id\":\"thread{}:", t), 1);
                    writeln!(w, "{}", l).unwrap();
                }
            }
        }
    }
    w.flush().unwrap();
}
