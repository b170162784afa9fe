//! big [w]TOTAL OUT: really absorb TOTAL zero bytes, once as a single slice and once in pieces, for
//! every sort given on the remaining arguments; record counts, midstates and digests.
//! Each run becomes a "seg" event (TraceK) for its last bytes and both runs of a sort must agree
//! on everything ("same" event).  `cTOTAL,..` compares the const evaluator with the engine instead,
//! `kTOTAL,..` HMAC keys of these lengths with their digests as keys, `tTOTAL,..` tags with their definition.  With `w` both runs are single writes (either interface).
use chf_harness::arena::{install_crash_handler, zero_map};
use chf_harness::kinds::{Eng, Sort};
use chf_harness::out;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn mids(e: &dyn Eng) -> String {
    let m: Vec<String> = e.mid_bytes().iter().map(|x| out::bytes(x)).collect();
    format!("[{}]", m.join(","))
}

/// The const evaluator against the engine on zero bytes of the given totals, in parallel.
fn consts(totals: &str, file: &str) {
    let ts: Vec<usize> = totals.split(',').map(|x| x.parse().unwrap()).collect();
    let z: &'static [u8] = zero_map(*ts.iter().max().unwrap());
    let hs: Vec<_> = ts
        .iter()
        .flat_map(|&t| [(t, true), (t, false)])
        .map(|(t, c)| {
            std::thread::spawn(move || {
                catch_unwind(AssertUnwindSafe(|| {
                    let h = if c { chf::sha256::Hash::const_hash(&z[..t]) } else { chf::sha256::Hash::hash(&z[..t]) };
                    format!("\"out\":\"ok\",\"dig\":{}", out::bytes(h.as_byte_array()))
                }))
                .unwrap_or_else(|_| "\"out\":\"panic\"".into())
            })
        })
        .collect();
    let rs: Vec<String> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let mut w = std::fs::File::create(file).unwrap();
    for (i, t) in ts.iter().enumerate() {
        writeln!(w, "{{\"id\":\"const {}\",\"ev\":[{{\"op\":\"same\",\"out\":\"ok\",\"a\":{{{}}},\"b\":{{{}}}}}]}}", t, rs[2 * i], rs[2 * i + 1]).unwrap();
    }
}

/// Keys (`k`) and tags (`t`) of the given lengths against their definition through the key's (tag's) own digest.
fn lengths(mode: char, totals: &str, file: &str, sorts: &[String]) {
    use chf::{sha256, HashEngine};
    let ts: Vec<usize> = totals.split(',').map(|x| x.parse().unwrap()).collect();
    let z: &'static [u8] = zero_map(*ts.iter().max().unwrap());
    let jobs: Vec<(String, usize)> = sorts.iter().flat_map(|s| ts.iter().map(move |&t| (s.clone(), t))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res = std::sync::Mutex::new(vec![String::new(); jobs.len()]);
    let fin = |r: std::thread::Result<Vec<u8>>| r.map(|d| format!("\"out\":\"ok\",\"dig\":{}", out::bytes(&d))).unwrap_or_else(|_| "\"out\":\"panic\"".into());
    std::thread::scope(|sc| {
        for _ in 0..std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) {
            sc.spawn(|| loop {
                let j = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if j >= jobs.len() {
                    break;
                }
                let (s, t) = (&jobs[j].0, jobs[j].1);
                let (x, y) = if mode == 't' {
                    (catch_unwind(|| sha256::Midstate::hash_tag(&z[..t]).to_byte_array().to_vec()),
                     catch_unwind(|| {
                         let h = sha256::Hash::hash(&z[..t]);
                         let mut e = sha256::Engine::new();
                         e.input(h.as_byte_array());
                         e.input(h.as_byte_array());
                         e.midstate().to_byte_array().to_vec()
                     }))
                } else {
                    (catch_unwind(AssertUnwindSafe(|| chf_harness::kinds::mac(s, &z[..t], b"message"))),
                     catch_unwind(AssertUnwindSafe(|| {
                         let mut e = Sort::parse(s).fresh("new");
                         e.input(&z[..t]);
                         let k = e.fin("e");
                         chf_harness::kinds::mac(s, &k, b"message")
                     })))
                };
                res.lock().unwrap()[j] = format!("\"a\":{{{}}},\"b\":{{{}}}", fin(x), fin(y));
            });
        }
    });
    let mut w = std::fs::File::create(file).unwrap();
    for (j, r) in jobs.iter().zip(res.lock().unwrap().iter()) {
        writeln!(w, "{{\"id\":\"{}{} {}\",\"ev\":[{{\"op\":\"same\",\"out\":\"ok\",{}}}]}}", mode, j.0, j.1, r).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_crash_handler();
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(ts) = a[1].strip_prefix('c') {
        return consts(ts, &a[2]);
    }
    for m in ['k', 't'] {
        if let Some(ts) = a[1].strip_prefix(m) {
            return lengths(m, ts, &a[2], &a[3..]);
        }
    }
    let io = a[1].starts_with('w');
    let total: usize = a[1].trim_start_matches('w').parse().unwrap();
    let z: &'static [u8] = zero_map(total);
    let sorts: Vec<String> = a[3..].to_vec();
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let res = std::sync::Arc::new(std::sync::Mutex::new(vec![String::new(); sorts.len() * 2]));
    let hs: Vec<_> = (0..std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .map(|_| {
            let (sorts, next, res) = (sorts.clone(), next.clone(), res.clone());
            std::thread::spawn(move || loop {
                let j = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if j >= sorts.len() * 2 {
                    break;
                }
                let sort = Sort::parse(&sorts[j / 2]);
                let whole = j % 2 == 0;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut e = sort.fresh("new");
                    if whole && !io {
                        e.input(z);
                    } else if io {
                        // one huge write: the number reported goes into the record
                        let n = e.write(if whole { "w" } else { "sw" }, z).unwrap_or(u64::MAX);
                        if n != total as u64 {
                            return format!("\"out\":\"short\",\"ret\":{}", out::limbs(n));
                        }
                    } else {
                        let mut at = 0;
                        let mut step = 1 << 20;
                        while at < total {
                            let end = (at + step).min(total);
                            e.input(&z[at..end]);
                            at = end;
                            step = (1 << 20) + 4097 * (at % 7);
                        }
                    }
                    let blk = sort.block();
                    let n = e.n();
                    format!(
                        "\"out\":\"ok\",\"m0\":{},\"n0\":{},\"back\":{},\"m1\":{},\"n1\":{},\"dig\":{},\"text\":{}",
                        mids(&*e), out::limbs(n as u64), out::bytes(&vec![0; (total + sort.pre()) % blk]), mids(&*e),
                        out::limbs(n as u64), out::bytes(&e.dup().fin("h")), out::string(&e.mid_text())
                    )
                }))
                .unwrap_or_else(|_| "\"out\":\"panic\"".into());
                res.lock().unwrap()[j] = r;
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let res = res.lock().unwrap();
    let mut w = std::fs::File::create(&a[2]).unwrap();
    for (i, s) in sorts.iter().enumerate() {
        let sort = Sort::parse(s);
        let j = chf_harness::kinds::sort_json(&sort);
        let ev = |t: &str| format!("{{\"op\":\"total\",{},\"total\":{},\"d\":[],\"first\":false,{}}}", j, out::limbs(total as u64), t);
        writeln!(w, "{{\"id\":\"{} whole\",\"ev\":[{}]}}", s, ev(&res[2 * i])).unwrap();
        writeln!(w, "{{\"id\":\"{} pieces\",\"ev\":[{}]}}", s, ev(&res[2 * i + 1])).unwrap();
        writeln!(w, "{{\"id\":\"{} both\",\"ev\":[{{\"op\":\"same\",\"out\":\"ok\",\"a\":{{{}}},\"b\":{{{}}}}}]}}", s, res[2 * i], res[2 * i + 1]).unwrap();
    }
}
