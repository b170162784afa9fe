//! Records what `fixed_time_eq` returns and which instructions it executes.
//!
//! Plan lines: `T name`; `P len align seed diffs` (one comparison; diffs is `-` or `pos:mask,..`);
//! `S len align seed step` (one flipped bit at each of many positions);
//! `D len align seed dists step` (two differences some distance apart, runs of differences);
//! `R byte` (all 256 one-byte partners of a byte); `U n m` (slices of different lengths);
//! `V n k` (lengths n and n + 2^k).
//! The instruction path is the hash of all program counters seen while single-stepping the call.
use chf::cmp::fixed_time_eq;
use chf_harness::arena::*;
use chf_harness::data;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

#[inline(never)]
extern "C" fn call(a: *const u8, n: usize, b: *const u8) -> u64 {
    unsafe { fixed_time_eq(std::slice::from_raw_parts(a, n), std::slice::from_raw_parts(b, n)) as u64 }
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod step {
    use std::ffi::c_void;
    static mut HASH: u64 = 0;
    static mut COUNT: u64 = 0;
    // glibc's layout: handler, mask, flags, restorer
    #[repr(C)]
    struct GAct {
        h: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(n: i32, a: *const GAct, o: *mut GAct) -> i32;
    }
    /// gregs start 40 bytes into the context; RIP is register 16.
    extern "C" fn on_trap(_: i32, _: *mut c_void, uc: *mut c_void) {
        unsafe {
            let rip = *((uc as *const u8).add(40) as *const u64).add(16);
            HASH = (HASH ^ rip).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
            COUNT += 1;
        }
    }
    pub fn install() -> bool {
        let a = GAct { h: on_trap as extern "C" fn(i32, *mut c_void, *mut c_void) as usize, mask: [0; 16], flags: 4 | 0x10000000, restorer: 0 };
        unsafe { sigaction(5, &a, std::ptr::null_mut()) == 0 }
    }
    /// Result, hash of the path, number of instructions.
    #[inline(never)]
    pub fn run(a: *const u8, n: usize, b: *const u8) -> (u64, u64, u64) {
        unsafe {
            HASH = 1;
            COUNT = 0;
            let r: u64;
            std::arch::asm!(
                "pushfq", "or qword ptr [rsp], 0x100", "popfq",
                "call {f}",
                "pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq",
                f = sym super::call,
                in("rdi") a, in("rsi") n, in("rdx") b, lateout("rax") r,
                clobber_abi("C"),
            );
            (r, HASH, COUNT)
        }
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod step {
    pub fn install() -> bool { false }
    pub fn run(a: *const u8, n: usize, b: *const u8) -> (u64, u64, u64) { (super::call(a, n, b), 0, 0) }
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    install_crash_handler();
    std::panic::set_hook(Box::new(|_| {}));
    let steps = av[1] == "p" && step::install();
    let plan = std::fs::read_to_string(&av[2]).unwrap();
    let mut w = std::io::BufWriter::new(std::fs::File::create(&av[3]).unwrap());
    let (mut aa, mut ab) = (Arena::new(2 << 20), Arena::new(2 << 20));
    if steps {
        // settle whatever is resolved on first use
        for n in [0usize, 1, 64, 5000] {
            let (x, y) = (vec![1u8; n], vec![2u8; n]);
            step::run(x.as_ptr(), n, y.as_ptr());
            step::run(x.as_ptr(), n, x.as_ptr());
        }
    }
    let zeros = zero_map(if plan.contains("\nV ") { ((1u64 << 33) + (1 << 20)) as usize } else { 1 });
    let mut ev: Vec<String> = vec![];
    let mut name = String::new();
    let mut flush = |name: &str, ev: &mut Vec<String>| {
        if !name.is_empty() {
            writeln!(w, "{{\"id\":\"{}\",\"ev\":[{}]}}", name, ev.join(",")).unwrap();
        }
        ev.clear();
    };
    for (i, line) in plan.lines().enumerate() {
        LINE.store(i + 1, Ordering::Relaxed);
        let f: Vec<&str> = line.split(' ').collect();
        match f[0] {
            "T" => {
                flush(&name, &mut ev);
                name = f[1].to_string();
            }
            // slices always end at the same two addresses (before a guard page), minus the given shift
            "P" => {
                let n: usize = f[1].parse().unwrap();
                let shift: usize = f[2].parse().unwrap();
                let x = match f[3].strip_prefix('f') {
                    Some(v) => vec![v.parse::<u8>().unwrap(); n],
                    None => data::stream(f[3].parse().unwrap(), 0, n),
                };
                let mut y = x.clone();
                let mut ds = vec![];
                if f[4] != "-" {
                    for d in f[4].split(',') {
                        let (p, m) = d.split_once(':').unwrap();
                        let (p, m): (usize, u8) = (p.parse().unwrap(), m.parse().unwrap());
                        y[p] ^= m;
                        ds.push(format!("[{},{}]", p, m));
                    }
                }
                let (pa, pb) = (aa.end(&x, shift), ab.end(&y, shift));
                let r = catch_unwind(AssertUnwindSafe(|| if steps { step::run(pa.as_ptr(), n, pb.as_ptr()) } else { (fixed_time_eq(pa, pb) as u64, 0, 0) }));
                let intact = &pa[..] == &x[..] && &pb[..] == &y[..];
                match r {
                    Ok((r, h, c)) => {
                        let path = if steps { format!("{:016x}/{}", h, c) } else { String::new() };
                        ev.push(format!("{{\"op\":\"cmp\",\"n\":{},\"al\":{},\"diffs\":[{}],\"res\":{},\"path\":\"{}\",\"intact\":{},\"out\":\"ok\"}}", n, shift, ds.join(","), r != 0, path, intact));
                    }
                    Err(_) => ev.push(format!("{{\"op\":\"cmp\",\"n\":{},\"out\":\"panic\"}}", n)),
                }
            }
            "R" => {
                let a: u8 = f[1].parse().unwrap();
                let n: usize = f[2].parse().unwrap();
                let at: usize = f[3].parse().unwrap();
                let mut x = data::stream(5, 0, n);
                x[at] = a;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut t = vec![];
                    for b in 0..=255u8 {
                        let mut y = x.clone();
                        y[at] = b;
                        if fixed_time_eq(aa.end(&x, 0), ab.end(&y, 0)) {
                            t.push(b.to_string());
                        }
                    }
                    t
                }));
                ev.push(match r {
                    Ok(t) => format!("{{\"op\":\"row\",\"a\":{},\"eq\":[{}],\"out\":\"ok\"}}", a, t.join(",")),
                    Err(_) => format!("{{\"op\":\"row\",\"out\":\"panic\"}}"),
                });
            }
            // one flipped bit at every `step`-th position: which positions are called equal?
            "S" => {
                let n: usize = f[1].parse().unwrap();
                let al: usize = f[2].parse().unwrap();
                let stride: usize = f[4].parse().unwrap();
                let x = data::stream(f[3].parse().unwrap(), 0, n);
                let (pa, pb) = (aa.end(&x, al), ab.end(&x, al));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut t = vec![];
                    let mut count = 0;
                    let mut p = 0;
                    while p < n {
                        for q in [p, n - 1 - p] {
                            pb[q] ^= 1 << ((q * 7 + q / 256) % 8);
                            if std::hint::black_box(fixed_time_eq(pa, pb)) {
                                t.push(q.to_string());
                            }
                            pb[q] = x[q];
                            count += 1;
                        }
                        p += stride;
                    }
                    t.truncate(5);
                    (t, count, fixed_time_eq(pa, pb))
                }));
                ev.push(match r {
                    Ok((t, c, same)) => format!("{{\"op\":\"sweep\",\"n\":{},\"count\":{},\"equal\":[{}],\"same\":{},\"out\":\"ok\"}}", n, c, t.join(","), same),
                    Err(_) => format!("{{\"op\":\"sweep\",\"n\":{},\"out\":\"panic\"}}", n),
                });
            }
            // two equal differences `dist` apart, at many places (they must not cancel), and `run`
            // equal or complementary differences in a row
            "D" => {
                let n: usize = f[1].parse().unwrap();
                let al: usize = f[2].parse().unwrap();
                let x = data::stream(f[3].parse().unwrap(), 0, n);
                let dists: Vec<usize> = f[4].split(',').map(|d| d.parse().unwrap()).collect();
                let stride: usize = f[5].parse().unwrap();
                let (pa, pb) = (aa.end(&x, al), ab.end(&x, al));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let (mut t, mut count) = (vec![], 0);
                    for &d in &dists {
                        let mut p = 0;
                        while p + d < n {
                            for (u, v) in [(1u8, 1u8), (128, 128), (1, 255), (85, 85), (255, 255)] {
                                // as bit differences, and as differences of the byte values
                                for add in [false, true] {
                                    for (q, m) in [(p, u), (p + d, v)] {
                                        pb[q] = if add { x[q].wrapping_add(m) } else { x[q] ^ m };
                                    }
                                    if std::hint::black_box(fixed_time_eq(pa, pb)) {
                                        t.push(p.to_string());
                                    }
                                    count += 1;
                                }
                            }
                            pb[p] = x[p];
                            pb[p + d] = x[p + d];
                            p += stride;
                        }
                        // d equal differences in a row
                        for m in [1u8, 128, 255] {
                            if d <= n {
                                for q in 0..d {
                                    pb[q] ^= m;
                                }
                                if d > 0 && std::hint::black_box(fixed_time_eq(pa, pb)) {
                                    t.push("0".into());
                                }
                                for q in 0..d {
                                    pb[q] = x[q];
                                }
                                count += 1;
                            }
                        }
                    }
                    t.truncate(5);
                    (t, count, fixed_time_eq(pa, pb))
                }));
                ev.push(match r {
                    Ok((t, c, same)) => format!("{{\"op\":\"sweep\",\"n\":{},\"count\":{},\"equal\":[{}],\"same\":{},\"out\":\"ok\"}}", n, c, t.join(","), same),
                    Err(_) => format!("{{\"op\":\"sweep\",\"n\":{},\"out\":\"panic\"}}", n),
                });
            }
            "U" => {
                let (n, m): (usize, usize) = (f[1].parse().unwrap(), f[2].parse().unwrap());
                let (x, y) = (vec![7u8; n], vec![7u8; m]);
                let r = catch_unwind(AssertUnwindSafe(|| fixed_time_eq(aa.end(&x, 0), ab.end(&y, 0))));
                ev.push(format!("{{\"op\":\"uneq\",\"n\":{},\"m\":{},\"out\":\"{}\"}}", n, m, if r.is_ok() { "ok" } else { "panic" }));
            }
            // lengths that differ by a power of two (read-only zero pages: nothing is touched unless it is compared)
            "V" => {
                let (n, k): (usize, u32) = (f[1].parse().unwrap(), f[2].parse().unwrap());
                let z = &zeros[..n + (1usize << k)];
                let out: Vec<&str> = [(&z[..n], z), (z, &z[..n])].iter()
                    .map(|(x, y)| if catch_unwind(AssertUnwindSafe(|| fixed_time_eq(x, y))).is_ok() { "\"ok\"" } else { "\"panic\"" }).collect();
                ev.push(format!("{{\"op\":\"far\",\"n\":{},\"k\":{},\"outs\":[{}],\"out\":\"ok\"}}", n, k, out.join(",")));
            }
            "" => {}
            _ => panic!("bad plan line {}", line),
        }
    }
    flush(&name, &mut ev);
    w.flush().unwrap();
}
