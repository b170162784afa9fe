//! race MODE PLAN OUT: several threads make their first use of the library at the same moment.
//! Plan lines: `T name`, then `Z sort data threads`.  MODE `t` runs all traces in this process;
//! `Y sort data count` computes the digest `count` times over in this process.
//! a number N runs every trace in N fresh processes and keeps the distinct recordings.
use chf_harness::kinds::{sort_json, Sort};
use chf_harness::{data, out};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

fn trace(name: &str, sort: &str, msg: &str, threads: usize) -> String {
    let b = data::parse(msg).bytes();
    let here = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|i| {
            let (here, b, sort) = (here.clone(), b.clone(), Sort::parse(sort));
            std::thread::spawn(move || {
                here.fetch_add(1, Ordering::SeqCst);
                while here.load(Ordering::SeqCst) < threads {
                    if cfg!(miri) { std::thread::yield_now() } else { std::hint::spin_loop() }
                }
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut e = sort.fresh(if i % 2 == 0 || sort.name.contains("hmac") || sort.name == "siphash24" { "new" } else { "default" });
                    e.input(&b[..b.len() / 2]);
                    let mut f = e.dup();
                    e.input(&b[b.len() / 2..]);
                    f.input(&b[b.len() / 2..]);
                    vec![("engine", e.fin("e")), ("clone", f.fin("h")), ("again", sort.one("hash", &[b.clone()], &b))]
                }));
                match r {
                    Ok(v) => v.iter().map(|(rt, d)| format!("{{\"rt\":\"{}\",\"out\":\"ok\",\"dig\":{}}}", rt, out::bytes(d))).collect::<Vec<_>>(),
                    Err(_) => vec!["{\"rt\":\"engine\",\"out\":\"panic\"}".to_string()],
                }
            })
        })
        .collect();
    let digs: Vec<String> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    format!("{{\"id\":\"{}\",\"ev\":[{{\"op\":\"ones\",{},\"d\":{},\"digs\":[{}],\"out\":\"ok\"}}]}}", name, sort_json(&Sort::parse(sort)), out::bytes(&b), digs.join(","))
}

/// Very many digests in one process, engines that move between threads in the middle of a message, and
/// one engine that lives through all of it.
fn soak(name: &str, sort: &str, msg: &str, count: usize) -> String {
    let b = data::parse(msg).bytes();
    let half = b.len() / 2;
    let s = Sort::parse(sort);
    let mut old = s.fresh("new");
    old.input(&b[..half]);
    let mut seen: Vec<(String, Result<Vec<u8>, ()>)> = vec![];
    let mut add = |rt: String, r: Result<Vec<u8>, ()>| {
        if seen.len() < 12 && !seen.iter().any(|x| x.1 == r) {
            seen.push((rt, r));
        }
    };
    for i in 0..count {
        add(format!("digest {}", i), catch_unwind(AssertUnwindSafe(|| s.one("hash", &[b.clone()], &b))).map_err(|_| ()));
        if i % 4096 == 0 || i < 20 {
            let mut e = s.fresh("new");
            let mut lent: Vec<_> = vec![];
            for cut in b.chunks(b.len() / 3 + 1) {
                let cut = cut.to_vec();
                // keep a clone behind in this thread while the engine travels
                lent.push(e.dup());
                match std::thread::spawn(move || { e.input(&cut); e }).join() {
                    Ok(x) => e = x,
                    Err(_) => { e = s.fresh("new"); add(format!("travelling {}", i), Err(())); break }
                }
            }
            add(format!("travelled {}", i), catch_unwind(AssertUnwindSafe(|| e.fin("e"))).map_err(|_| ()));
            for (k, mut f) in lent.into_iter().enumerate() {
                let rest = b[(k * (b.len() / 3 + 1)).min(b.len())..].to_vec();
                add(format!("left behind {}", i), std::thread::spawn(move || { f.input(&rest); f.fin("h") }).join().map_err(|_| ()));
            }
        }
    }
    add("old".into(), catch_unwind(AssertUnwindSafe(|| { old.input(&b[half..]); old.fin("h") })).map_err(|_| ()));
    let digs: Vec<String> = seen.iter().map(|(rt, r)| match r {
        Ok(d) => format!("{{\"rt\":\"{}\",\"out\":\"ok\",\"dig\":{}}}", rt, out::bytes(d)),
        Err(()) => format!("{{\"rt\":\"{}\",\"out\":\"panic\"}}", rt),
    }).collect();
    format!("{{\"id\":\"{}\",\"ev\":[{{\"op\":\"ones\",{},\"d\":{},\"digs\":[{}],\"out\":\"ok\"}}]}}", name, sort_json(&s), out::bytes(&b), digs.join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    chf_harness::arena::install_crash_handler();
    if a[1] == "one" {
        println!("{}", trace(&a[2], &a[3], &a[4], a[5].parse().unwrap()));
        return;
    }
    let plan = std::fs::read_to_string(&a[2]).unwrap();
    let mut w = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
    let mut name = "";
    for line in plan.lines() {
        let f: Vec<&str> = line.split(' ').collect();
        match f[0] {
            "T" => name = f[1],
            "Z" if a[1] == "t" => writeln!(w, "{}", trace(name, f[1], f[2], f[3].parse().unwrap())).unwrap(),
            "Y" => writeln!(w, "{}", soak(name, f[1], f[2], f[3].parse().unwrap())).unwrap(),
            "Z" => {
                let mut seen: Vec<Vec<u8>> = vec![];
                for _ in 0..a[1].parse::<usize>().unwrap() {
                    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("one").arg(name).args(&f[1..]).output().unwrap();
                    if !o.status.success() {
                        eprintln!("{}", String::from_utf8_lossy(&o.stderr));
                        std::process::exit(70);
                    }
                    if !seen.contains(&o.stdout) {
                        w.write_all(&o.stdout).unwrap();
                        seen.push(o.stdout);
                    }
                }
            }
            "" => {}
            x => panic!("plan: {}", x),
        }
    }
    w.flush().unwrap();
}
