"""Checks of the comparison function, the I/O interfaces, build configurations and memory safety."""
import hashlib, json, os, random, shutil
from core import CONFIGS, Infra, MAIN, Violation
from plans import ALGS, NESTED, BLOCK, HASHES, K0, K1, LENLEN, MIDLEN, Plan, block, hists, keyed, pieces_of
import vals


def rng_of(c, salt):
    return random.Random("%s/%s/%d" % (c.pid, salt, c.seed))


# ------------------------------------------------------------------------ C14 fixed-time comparison
def ct_pairs(rng, n, many):
    """Difference patterns for slices of n bytes: nothing, one place, several, everything."""
    d = ["-"] * 3
    if n == 0:
        return d
    pos = range(n) if many else sorted(set([0, 1, n - 2, n - 1, n // 2] + [rng.randrange(n) for _ in range(4)]) & set(range(n)))
    for p in pos:
        d.append("%d:%d" % (p, rng.choice((1 << rng.randrange(8), rng.randrange(1, 256)))))
    d.append("0:255")
    d.append("%d:255" % (n - 1))
    d.append("%d:128" % (n - 1))
    some = range(n) if n <= 4096 else sorted(rng.sample(range(n), 4096))
    d.append(",".join("%d:%d" % (p, rng.randrange(1, 256)) for p in some))
    d.append(",".join("%d:255" % p for p in some))
    for _ in range(4 if many else 2):
        q = sorted(rng.sample(list(some), rng.randrange(1, min(len(some), 40) + 1)))
        d.append(",".join("%d:%d" % (p, rng.choice((1, 16, 128, rng.randrange(1, 256)))) for p in q))
    return d


def c14(c):
    c.model("MC_CtEq")
    c.control("MC_CtEq", "leaves the loop at the first difference", {"Early": "TRUE"})
    cfgs = ["std-rel", "std-dev"] if c.quick else ["std-rel", "std-dev", "nostd-rel", "nostd-small-dev"]
    dirs = c.build(cfgs)
    rng = rng_of(c, "ct")
    rel, dev, ex = [], [], []
    k = [0]

    def trace(ls, n, many, al, fills):
        k[0] += 1
        ls.append("T n%d.%d" % (n, k[0]))
        for i, d in enumerate(ct_pairs(rng, n, many)):
            ls.append("P %d %d %s %s" % (n, al, fills[i % len(fills)](), d))

    def rnd():
        return str(rng.randrange(1 << 30))
    fills = [rnd, lambda: "f0", rnd, lambda: "f255", rnd]
    for n in range(0, 73 if c.quick else 200):
        trace(rel, n, True, 0, fills)
        trace(rel, n, False, rng.randrange(1, 16), fills)
    for n in (20, 28, 32, 48, 64):
        for p in range(n):
            rel.append("T b%d.%d" % (n, p))
            rel.extend("P %d 0 %s %d:%d" % (n, rnd(), p, 1 << b) for b in range(8))
            rel.append("P %d 0 %s 0:1" % (n, rnd()))
    for n in (95, 96, 97, 127, 128, 129, 160, 191, 192, 200, 255, 256, 257, 300, 384, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384 + rng.randrange(99)):
        trace(rel, n, False, 0, fills)
    for n in ((65537,) if c.quick else (65535, 65536, 65537, 131072, 262144)):
        for half in range(3):
            rel.append("T big%d.%d" % (n, half))
            for d in ("-", "%d:1" % rng.randrange(n), "0:255", "%d:2" % (n - 1))[:2 if half < 2 else 4]:
                rel.append("P %d 0 %s %s" % (n, rnd(), d))
    for n in list(range(0, 34)) + [48, 64] + ([100, 128, 256, 257] if not c.quick else [130]):
        trace(dev, n, n in (5, 20, 32) and not c.quick, 0, fills)
    for b in range(256):
        ex += ["T row%d" % b, "R %d 1 0" % b, "R %d 32 %d" % (b, rng.randrange(32)), "R %d %d 0" % (b, rng.randrange(1, 100))]
    for n in range(0, 70):
        for m in (n + 1, n - 1, 0, 2 * n, rng.randrange(200)):
            if m >= 0:
                ex += ["T un%d.%d" % (n, m), "U %d %d" % (n, m), "U %d %d" % (m, n), "U %d %d" % (n, n)]
    for n in [1 << i for i in range(8, 21)]:
        for q in (0, 1, -1):
            ex += ["T long%d" % (n + q), "P %d 0 %s -" % (n + q, rnd())] + ["P %d %d %s %d:%d" % (n + q, rng.randrange(9), rnd(), x, 1 << rng.randrange(8)) for x in (0, n + q - 1, rng.randrange(n + q), rng.randrange(n + q))] + ["U %d %d" % (n, n + q)]
    # lengths that differ by a power of two
    for e in range(0, 34):
        ex += ["T far%d" % e] + ["V %d %d" % (n, e) for n in (0, 1, 20, 32, 64, 255, 256, rng.randrange(1 << 16))]
    # every position of slices of every length class (sampled positions beyond 8 KiB)
    for n in list(range(1, 300)) + [511, 512, 513, 777, 1000, 1024, 1031, 2048, 4096, 4099, 8192 + rng.randrange(99)]:
        ex += ["T sweep%d" % n, "S %d %d %s 1" % (n, rng.randrange(9), rnd())]
    for n in list(range(2, 80)) + [96, 128, 200, 256, 257, 300, 512, 1000, 1024]:
        ds = range(1, n) if n < 80 else sorted({1, 2, 3, 4, 7, 8, 12, 16, 24, 32, 48, 64, 65, 96, 127, 128, 192, 255, 256, 257, 511, 512, n // 2, n - 1, n} & set(range(n + 1)))
        ex += ["T pairs%d" % n, "D %d %d %s %s %d" % (n, rng.randrange(9), rnd(), ",".join(map(str, ds)), 1 if n < 80 or not c.quick else 5)]
    for n in (65536, 131072) if c.quick else (65536, 131072, 1 << 18, 1 << 19):
        ex += ["T runs%d" % n, "D %d 0 %s 32768,%d,%d,65536,65535,256 %d" % (n, rnd(), n, n // 2, n // 8 + 1)]
    for n, k in ((16384, 2000), (32768 + rng.randrange(999), 1500), (65536, 1000), (65537, 1000), (131075, 600), (262144, 300), (1 << 20, 80)):
        ex += ["T sweep%d" % n, "S %d %d %s %d" % (n, rng.randrange(9), rnd(), max(1, (n // k if c.quick else n // (4 * k)) | 1))]
    for cfg, d in dirs.items():
        r = c.record_sharded({cfg: d}, "p", dev if "dev" in cfg else rel, "paths-" + cfg, "ct")
        for f in r:
            for line in open(f):
                if any(e["op"] == "cmp" and e["out"] == "ok" and e["path"].endswith("/0") for e in json.loads(line)["ev"]):
                    raise Infra("no instruction was seen: single-stepping does not work here")
        c.validate("TraceC", r)
    c.validate("TraceC", c.record(dirs, "e", ex, "exact", binary="ct"))


# ------------------------------------------------------------------------------ C15 I/O interfaces
WRITERS = ["sha1", "sha256", "sha512", "ripemd160"] + ["siphash24:%d:%d" % (K0, K1), "sha256t=x746167"] + ["hmac/%s=x6b6579" % a for a in ALGS + NESTED]
IO_ROUTES = ["in", "w", "wa", "fl", "sw", "swa", "sfl", "scp", "scc", "sv", "sbuf", "sdyn", "bdyn", "sfmt"]


def gen_io(c, depth, simulate=None):
    args = ["-simulate", "num=%d" % simulate, "-depth", str(depth + 1), "-seed", str(c.seed * 7 + 1)] if simulate else []
    r = c.tlc("GenIo", over={"Depth": str(depth)}, args=args, workers=1 if simulate else None)
    hs = hists(r["out"])
    if simulate:
        # TLC evaluates the emitting invariant on all successors of the last state: keep one each
        hs = list({str(h[:-1]): h for h in hs}.values())
    if not hs:
        raise Infra("GenIo produced nothing:\n" + r["out"][-1500:])
    c.models.append({"model": "GenIo%s depth %d" % (" simulated" if simulate else "", depth), "states": r["distinct"], "histories": len(hs), "wall_s": round(r["wall"], 1)})
    if not simulate:
        c.states += r["distinct"]
        c.transitions += r["generated"]
    return hs


def io_lines(h, s, rng, dense, seed):
    sz = pieces_of(s)
    at, ls = 0, ["N 1 %s" % s]
    for o in h:
        n = sz[o["p"]]
        ls.append("I 1 %s p%d:%d:%d" % (o["rt"], seed, at, n))
        if o["rt"] not in ("fl", "sfl"):
            at += n
        if dense:
            ls.append("O 1")
    return ls + ["O 1", "F 1 h"]


def c15(c):
    c.model("MC_Io")
    c.control("MC_Io", "a writer that takes one byte at most", {"Cap": "1"})
    c.control("MC_Io", "a vectored write that may take nothing", {"VecAll": "FALSE"})
    dirs = c.build(MAIN)
    rng = rng_of(c, "io")
    # every pair of operations (all of them for every engine when thorough, dealt out otherwise) and long runs
    p = Plan("g")
    pairs = gen_io(c, 2)
    for i, h in enumerate(pairs):
        for s in (WRITERS if not c.quick else [WRITERS[(i + j) % len(WRITERS)] for j in (0, 4, 9)]):
            p.t(*io_lines(h, s, rng, True, i))
    for i, h in enumerate(gen_io(c, 30, simulate=300 if c.quick else 3000)):
        p.t(*io_lines(h, WRITERS[i % len(WRITERS)], rng, i % 3 == 0, i))
    # one write of every size, by every route that hands over one buffer
    for s in WRITERS:
        for n in list(range(0, 140 if c.quick else 300)) + [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]:
            rt = rng.choice(["w", "sw", "w", "sw", "wa", "swa", "sdyn", "bdyn", "scc", "scp"])
            p.t("N 1 %s" % s, "I 1 in p1:0:%d" % rng.randrange(3), "I 1 %s p2:0:%d" % (rt, n), "O 1")
        for n in [(1 << k) + d for k in range(11, 23 if c.quick else 25) for d in (-1, 0, 1)] + [3 << 20, 65000, 100000]:
            for rt in ("w", "sw", rng.choice(["wa", "swa", "scc", "scp", "sbuf", "sv"])):
                if n < 1 << 20 or rng.random() < (0.15 if c.quick else 0.5):
                    p.t("N 1 %s" % s, "I 1 in p1:0:%d" % rng.randrange(130), "I 1 %s p2:0:%d" % (rt, n), "I 1 %s p2:%d:5" % (rt, n), "O 1", "F 1 h")
    c.validate("TraceU", c.record({k: v for k, v in dirs.items() if k != "std-dev" and k != "nostd-small-dev"}, "u", p.lines, "writes"))
    # the same kinds of sequences with the actual digests, in all configurations
    k = Plan("k")
    for i, h in enumerate(gen_io(c, 8, simulate=280 if c.quick else 2000)):
        k.t(*io_lines(h, WRITERS[i % len(WRITERS)], rng, i % 2 == 0, i))
    for s in WRITERS:
        txt = "The quick brown fox jumps over the lazy dog. " * 9
        for n in (0, 1, 44, 64, 128, 300):
            k.t("N 1 %s" % s, "I 1 sfmt x%s" % txt[:n].encode().hex(), "I 1 fl x", "I 1 sfl x", "O 1 nmd", "F 1 h")
    c.validate("TraceK", c.record(dirs, "k", k.lines, "digests"))
    # and writes of more than 2^32 bytes
    sorts = ["sha256", "siphash24:1:2", "sha1", "sha256t=x74"] if c.quick else WRITERS
    total = (1 << 32) + 4097
    c.validate("TraceK", c.record({k: v for k, v in dirs.items() if k == "std-rel"}, "w%d" % total, None, "huge", binary="big", tail=sorts, timeout=800))
    return {"largest_single_write_bytes": total}


# --------------------------------------------------- C17 no stray panics, no foreign memory accesses
def edge_lines(s, rng, n, m=None):
    """Every operation an engine offers, on a message of n bytes after m buffered ones."""
    b = block(s)
    m = rng.randrange(b) if m is None else m
    return ["N 1 %s" % s, "I 1 in p1:0:%d" % m, "I 1 in p1:%d:%d" % (m, n), "C 1 2", "O 1,2 nmd", "F 2 h", "M 1 1", "R 3 1 t", "O 3 n", "F 1 e"]


def ct_exact(rng, lens):
    ls = []
    for n in lens:
        ls += ["T n%d" % n, "P %d %d %d -" % (n, rng.randrange(8), rng.randrange(1 << 30))]
        for x in sorted({0, n - 1, n // 2} & set(range(n))):
            ls.append("P %d %d %d %d:%d" % (n, rng.randrange(8), rng.randrange(1 << 30), x, 1 << rng.randrange(8)))
        ls += ["U %d %d" % (n, n + 1), "U %d 0" % (n + 1)]
    return ls


def miri_engine_plan(c, rng, lite=False):
    """Engine operations for the interpreter: few blocks, all edges."""
    p = Plan("m")
    big = not c.quick
    for a in HASHES:
        b = BLOCK[a]
        ns = sorted({0, 1, b - 17, b - 9, b - 8, b - 1, b, b + 1, rng.randrange(b)}) + ([2 * b - 1, 2 * b, 3 * b + 5] if big or b == 64 else [])
        if lite and not big:
            ns = [0, rng.randrange(1, b), b + 1] if a in ("sha384", "sha512_256") else [0, b - 9, b, b + rng.randrange(b)]
        for n in ns:
            p.t(*edge_lines(a, rng, n, rng.choice([0, 1, b - 1])))
        p.t("H %s p1:1:%d %s" % (a, b + 3, "hash" if lite else "hash,eng,chunks,fin"))
        p.t("B 1 %s f7:%d %d i" % (a, MIDLEN[a], b), "B 2 %s f7:%d %d" % (a, MIDLEN[a], b + 1), "O 1 nm")
        if a not in ("sha384", "sha512_256"):
            for rt in ("w", "swa", "scp")[:1 if lite else 3]:
                p.t("N 1 %s" % a, "I 1 %s p4:3:%d" % (rt, rng.randrange(b)), "O 1 nd")
    pairs = [(x, y) for x in range(0, 9) for y in range(0, 18 if not big else 41)]
    for i, (x, y) in enumerate(pairs if not lite or big else rng.sample(pairs, 40)):
        s = "siphash24:%d:%d" % (K0, K1) if i % 3 else "siphash24"
        p.t("N 1 %s" % s, "I 1 in p%d:0:%d" % (x, x), "I 1 in p%d:%d:%d" % (x, x + 1, y), "O 1 nd", "F 1 %s" % "uhe"[i % 3])
    for n in list(range(0, 20)) + [63, 64, 65] if not lite else (0, 1, 7, 8, 13, 64):
        p.t("H siphash24 p1:%d:%d hash,eng,chunks,fin,u64,fu64,asu64,keys" % (n % 8, n))
    for a in ALGS:
        B = 32 if a == "siphash24" else BLOCK[a]
        for n in (0, B - 1, B, B + 1) if not lite else (rng.randrange(B), B + 1):
            p.t("N 1 hmac/%s=p3:1:%d" % (a, n), "I 1 %s p1:0:%d" % (rng.choice(["in", "w"]), rng.choice([0, 1, 3])), "F 1 h")
        p.t("N 1 hmac/%s" % a, "M 1 1", "R 2 1 t", "C 2 3", "O 3 n")
    p.t("G sha256t=x746167 mid x", "H sha256t=x746167 p1:0:5 hash,eng,chunks", "N 1 sha256t=x746167", "I 1 w p1:0:70", "M 1 1", "R 2 1 t", "C 2 1", "O 1,2 nd")
    for n in (0, 1, 55, 56, 63, 64, 65, 119, 120, 128) if not c.quick else (0, 56) if lite else (0, 55, 56, 64, 119):
        p.t("H sha256 p1:0:%d const,hash" % n)
    return p.lines


def small_values(c, rng, more=0):
    """Every operation on values of every type, a few times (for the interpreter)."""
    from vals import TYPES, VPlan, hx, ht, rnd
    p = VPlan("s")
    for ty, n in TYPES.items():
        for i in range(1 + more):
            v, w = rnd(rng, n), rnd(rng, n)
            h = v.hex()
            ls = ["B a arr %s" % hx(v), "B b %s %s" % (rng.choice(["slice", "arr"]), hx(w)), "V a"]
            p.t(ty, ls + ["B a ref %s" % hx(w), "V a", "B a mut %s" % hx(v), "B b zero %s" % hx(v), "V b", "B b default %s" % hx(v), "B b clone %s" % hx(w), "E a b", "E a a"])
            ls = ls[:2] + ["U a 0 0", "U a %d 0" % rng.randrange(1, 9), "U b %d %d" % (rng.randrange(9), rng.randrange(9)), "W", "X a a 0 0", "X a i 0 0", "X a i %d 0" % (n - 1), "X b i %d 0" % n,
                           "X b r %d %d" % (n // 2, n), "X b f %d 0" % n, "X a t 0 %d" % (n + 1), "X a ri 0 %d" % (n - 1), "X a ti 0 %d" % n]
            p.t(ty, ls)
            ls = ls[:2] + ["R a display", "R b upper", "F a display 42 r 0 0 %d -" % (2 * n + 3), "F b debug 32 n 0 0 - -"]
            if not ty.startswith("hmac"):
                ls += ["F b lower 48 c 1 0 %d %d" % (2 * n + 4, 2 * n - 1), "F a upper 32 n 0 0 - 1"]
            p.t(ty, ls)
            p.t(ty, ["P fromstr %s" % ht(x) for x in (h, h.upper(), h[:-1], h + "0", h[:-1] + "g", "", h[:-2] + "é" if n > 1 else "é")] +
                ["L %s" % hx(rnd(rng, k)) for k in (n, n - 1, n + 1, 0)] + (["P fromhex %s" % ht(h), "P fromhex %s" % ht(h[2:])] if ty == "midstate" else []))
    return p.lines


def c17(c):
    c.model("MC_Sip")
    c.control("MC_Sip", "loads eight bytes for every tail", {"Over": "TRUE"})
    from checks import unbounded
    unbounded(c, "block", "sip")
    from concurrent.futures import ThreadPoolExecutor
    rng = rng_of(c, "m")
    ex = ThreadPoolExecutor(3)
    eng = miri_engine_plan(c, rng)
    ctl = ct_exact(rng, list(range(0, 20)) + [32, 64])
    val = small_values(c, rng)
    c.miri_sysroot()
    jobs = [ex.submit(c.miri, "x64-sha", [("rec", "k", eng)], ("std",), "harness", None, "-C target-feature=+sha,+sse2,+ssse3,+sse4.1", 3),
            ex.submit(c.miri, "x64-portable", [("rec", "k", eng), ("ct", "e", ctl)], ("io",), "harness", None, None, 3),
            ex.submit(c.miri, "x64-values", [("val", "v", val)], ("std",), "vals", None, None, 3)]
    dirs = c.build(MAIN)
    vd = vals.vbuild(c, cfgs=["std-dev", "bare-rel"])
    # natively: inputs against inaccessible pages, all residues and small lengths
    p = Plan("g")
    for s in HASHES + ["siphash24:%d:%d" % (K0, K1), "sha256t=x746167"]:
        b = block(s)
        for m in sorted({0, 1, b // 2, b - 1}):
            for n in range(0, b + 3) if b < 128 else list(range(0, b + 3, 3)) + [b - 1, b, b + 1]:
                p.t(*edge_lines(s, rng, n, m))
    for a in ALGS:
        B = 32 if a == "siphash24" else BLOCK[a]
        for n in range(0, 2 * B + 2, 1 if B < 128 else 3):
            p.t("N 1 hmac/%s=p3:1:%d" % (a, n), "I 1 in p1:0:%d" % rng.randrange(2 * B), "M 1 1", "R 2 1 t", "C 1 3", "O 3 nmd")
    for n in range(0, 200):
        p.t("H sha256 p1:0:%d const,hash" % n)
        p.t("H siphash24:%d:%d p1:%d:%d keys,u64,fu64,asu64,fin" % (K1, K0, n % 16, n))
        p.t("G sha256t=p1:0:%d mid x" % n)
    c.validate("TraceK", c.record(dirs, "k", p.lines, "guarded"))
    u = Plan("u")
    for s in HASHES + ["siphash24:%d:%d" % (K0, K1)] + ["hmac/sha256=x6b", "sha256t=x74"]:
        b = block(s)
        u.t("E %s %d in 0-%d 0-%d 0" % (s, rng.randrange(999), min(b, 24), 2 * b + 9 if b < 128 else b + 5))
        for rt in ("w", "swa", "scp", "scc", "sv", "sbuf", "chunks") if s not in ("sha384", "sha512_256") else ("chunks",):
            u.t("E %s %d %s %d-%d 0-30 %d" % (s, rng.randrange(999), rt, b - 5, b, rng.randrange(1, 9)))
        for n in [(1 << k) + d for k in range(8, 22) for d in (-1, 0, 1)]:
            u.t("L %s %d in %d,%d" % (s, rng.randrange(999), rng.randrange(b), n))
    c.validate("TraceU", c.record(dirs, "u", u.lines, "pieces"))
    c.validate("TraceC", c.record({k: v for k, v in dirs.items() if k in ("std-dev", "std-rel")}, "e", ct_exact(rng, list(range(0, 300)) + [4095, 4096, 4097, 65536]), "compare", binary="ct"))
    c.validate("TraceV", c.record(vd, "v", small_values(c, rng, 3 if c.quick else 40), "values", binary="val"))
    # every string, slice and datum the value properties use: none of them may panic
    for name, plan in (("strings", vals.parse_plan), ("slices", vals.bytes_plan), ("data", vals.data_plan)):
        vp = vals.VPlan(name[:2])
        plan(c, rng, vp)
        c.validate("TraceV", c.record(vd, "v", vp.lines, name, binary="val"))
    main, quirk = vals.VPlan("tx"), vals.VPlan("tq")
    vals.text_plan(c, rng, main, quirk)
    c.validate("TraceV", c.record(vd, "v", main.lines, "texts", binary="val"))
    rec = c.record(vd, "v", quirk.lines, "hmac-texts", binary="val")
    try:
        c.validate("TraceV", rec, keep=True)
    except Violation:     # C10's listed finding; a panic is rejected either way
        c.validate("TraceV", rec, env={"KNOWN": "hmac-fmt"})
    specs = [["TraceK"], ["TraceK", "TraceC"], ["TraceV"]]
    n = 0
    for j, sp in zip(jobs, specs):
        for r, m in zip(j.result(), sp):
            if r:
                c.validate(m, r)
                n += 1
    c.log("Miri recordings", n)
    return {"miri_recordings": n}


# ----------------------------------------------------------------- C09 builds and platforms agree
FEATS = ["std", "alloc", "io", "small-hash", "serde", "schemars"]


def hash_of(*a):
    return int(hashlib.sha256(repr(a).encode()).hexdigest(), 16)


def feature_subsets(c, plan):
    """Do all 64 feature subsets compile, and compute the same?"""
    import itertools
    from concurrent.futures import ThreadPoolExecutor
    from core import CACHE, VERIF, sh
    subsets = [list(s) for k in range(len(FEATS) + 1) for s in itertools.combinations(FEATS, k)]
    W = 8

    def worker(i):
        out = []
        for s in sorted(subsets, key=lambda s: ("schemars" in s, "serde" in s, "std" in s, s))[i * len(subsets) // W:(i + 1) * len(subsets) // W]:
            cmd = ["cargo", "check", "--offline", "-q", "--manifest-path", os.path.join(VERIF, "featcheck", "Cargo.toml")] + (["--features", ",".join(s)] if s else [])
            rc, o, e = sh(cmd, env={"CARGO_TARGET_DIR": os.path.join(CACHE, "target", "feat-%d" % i)}, timeout=600)
            out.append((s, rc, e))
            if rc != 0:
                continue
            # what this build computes: unoptimised for every subset, optimised for some
            for rel in (False, True) if not c.quick or pick(s) else (False,):
                tgt = os.path.join(CACHE, "target", "featrec-%d" % i)
                cmd = ["cargo", "build", "--offline", "-q", "--bin", "rec", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")] + (["--features", ",".join(s)] if s else []) + (["--release"] if rel else [])
                rc2, o, e = sh(cmd, env={"CARGO_TARGET_DIR": tgt}, timeout=600)
                if rc2 != 0:
                    raise Violation("the public interface no longer compiles for a caller with features %s" % (",".join(s) or "(none)"), e[-3000:])
                name = "+".join(s or ["none"]) + ("-rel" if rel else "-dev")
                b = os.path.join(c.dir, "rec-" + name)
                os.makedirs(b)
                os.rename(os.path.join(tgt, "release" if rel else "debug", "rec"), os.path.join(b, "rec"))
                bins[name] = b
        return out
    bins = {}
    pick = lambda s: hash_of(c.seed, ",".join(s)) % 8 == 0
    with ThreadPoolExecutor(W) as ex:
        done = [x for r in ex.map(worker, range(W)) for x in r]
    bad = [(s, e) for s, rc, e in done if rc != 0]
    if len(bad) == len(done):
        raise Infra("no feature subset compiles: " + bad[0][1][-1500:])
    if bad:
        p = os.path.join(c.dir, "features.log")
        with open(p, "w") as f:
            for s, e in bad:
                f.write("== features: %s\n%s\n" % (",".join(s) or "(none)", e))
        raise Violation("%d of %d feature combinations do not compile, the first: %s" % (len(bad), len(done), ",".join(bad[0][0]) or "(none)"), bad[0][1][:2500], [p])
    c.log("all", len(done), "feature subsets compile")
    c.validate("TraceK", c.record(bins, "k", plan, "subsets"))
    for b in bins.values():
        shutil.rmtree(b)
    return len(done), len(bins)


def c09(c):
    import vals
    from concurrent.futures import ThreadPoolExecutor
    c.model("KAT")
    rng = rng_of(c, "k")
    q = Plan("q")
    for s in HASHES:
        for k in (0, BLOCK[s] - LENLEN[s] - 1, BLOCK[s] - LENLEN[s], BLOCK[s], rng.randrange(9 * BLOCK[s])):
            q.t("H %s p%d:0:%d hash,eng,chunks,fin" % (s, rng.randrange(1 << 20), k))
        q.t("B 1 %s f7:%d %d" % (s, MIDLEN[s], BLOCK[s] << rng.randrange(40)), "I 1 in p1:0:%d" % rng.randrange(2 * BLOCK[s]), "O 1 nmd")
    for k in (0, 7, 8, 8 + rng.randrange(40)):
        q.t("H siphash24:%d:%d p%d:0:%d keys,u64,fu64,asu64,fin" % (rng.randrange(1 << 64), rng.randrange(1 << 64), k, k))
        q.t("H sha256 p%d:0:%d const,hash" % (k, k * 9))
    for a in ALGS:
        for k in (3, BLOCK[a] + 1):
            q.t("H hmac/%s=p1:0:%d p%d:0:%d fin" % (a, k, k, rng.randrange(100)))
    q.t("G sha256t=p1:0:9 mid x", "H sha256t=p1:0:9 p2:0:%d hash,eng,chunks,fin" % rng.randrange(150))
    for s in keyed():
        b = block(s)
        k = rng.randrange(b)
        q.t("N 1 %s" % s, "I 1 in p1:0:%d" % (b + k), "C 1 2", "I 1 in p2:0:%d" % (b - k), "M 1 1", "R 3 1 t", "I 3 in p3:0:5", "I 2 in p4:0:%d" % (2 * b), "O * nmd", "F 1 h", "F 2 e")
    n, nb = feature_subsets(c, q.lines)
    ex = ThreadPoolExecutor(6)
    eng = miri_engine_plan(c, rng, lite=True)
    ctl = ct_exact(rng, [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32])
    val = small_values(c, rng)
    targets = ["s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"] + ([] if c.quick else ["powerpc64-unknown-linux-gnu", "aarch64-unknown-linux-gnu"])
    runs = []
    for t in targets:
        def go(t=t):
            a = c.miri(t.split("-")[0], [("rec", "k", eng), ("ct", "e", ctl)], ("io",) if t[0] == "s" else ("io", "small-hash"), "harness", t, None, 3, 800, False)
            b = c.miri(t.split("-")[0] + "-values", [("val", "v", val)], ("std",) if t[0] == "s" else (), "vals", t, None, 3, 800, False)
            return a + b
        runs.append(ex.submit(go))
    # processors with some, all or none of the instructions the hardware path needs, standard library included
    cpu = Plan("x")
    for k in (0, 55, 64, 65 + rng.randrange(60), 200):
        cpu.t("H sha256 p%d:0:%d hash,fin" % (rng.randrange(1 << 20), k))
    cpu.t("H hmac/sha256=p1:0:%d p2:0:3 fin" % rng.randrange(90), "H sha256t=x746167 p1:0:%d hash" % rng.randrange(90))
    for a in ALGS:
        cpu.t("H %s p%d:0:%d hash" % (a, rng.randrange(1 << 20), rng.randrange(BLOCK[a])))
    cpus = {"none": (None, ""), "sse41": (None, "+ssse3,+sse4.1"), "sha": (None, "+sha"), "sha-ssse3": (None, "+sha,+ssse3"), "avx2": (None, "+avx2,+bmi2"), "x86-all": ("i686-unknown-linux-gnu", "+sha,+sse2,+ssse3,+sse4.1")}
    if not c.quick:
        cpus.update({"all": (None, "+sha,+sse2,+ssse3,+sse4.1"), "x86-sse41": ("i686-unknown-linux-gnu", "+ssse3,+sse4.1"), "x86-sha": ("i686-unknown-linux-gnu", "+sha,+ssse3"), "avx512": (None, "+avx512f,+avx512bw"), "everything": (None, "+sha,+avx2,+bmi2,+aes,+pclmulqdq")})
    c.miri_sysroot()
    c.miri_sysroot("i686-unknown-linux-gnu")
    cpuruns = {k: ex.submit(c.miri, "cpu-" + k, [("rec", "k", cpu.lines)], ("std",), "harness", t, "-C target-feature=" + f if f else None, 1) for k, (t, f) in cpus.items()}
    # byte counts up to 2^32, and beyond, on a 32-bit target
    near, wide = Plan("n"), Plan("w")
    for q in HASHES + ["siphash24:1:2"]:
        b = block(q)
        # (finalising runs the padding through the same counter, so "up to" leaves room for two blocks)
        for pl, k, z in ((near, b - 1, 4), (wide, b + 3, 1)):
            at = (1 << 32) - z * b
            start = ["N 2 %s" % q, "I 2 in p1:0:8", "M 2 1", "R 1 1 %d" % at] if q.startswith("sip") else ["B 1 %s f9:%d %d" % (q, MIDLEN[q], at)]
            pl.t(*(start + ["I 1 in p1:0:%d" % k, "O 1 nmd"]))
    dirs = c.build(list(CONFIGS))
    vd = c.build(["std-dev", "bare-rel", "alloc-dev", "nostd-small-dev"] if c.quick else list(CONFIGS), crate="vals")
    p = Plan("c")
    for s in HASHES:
        b = BLOCK[s]
        for k in list(range(0, 2 * b + 2, 1 if b == 64 or not c.quick else 3)) + [3 * b - 1, 5 * b, 7 * b + 3] + [rng.randrange(40 * b) for _ in range(15 if c.quick else 200)]:
            p.t("H %s p%d:%d:%d hash,eng,chunks,fin" % (s, rng.randrange(1 << 30), k % 7, k))
        for _ in range(12 if c.quick else 100):
            p.t(*edge_lines(s, rng, rng.randrange(4 * b)))
        for f in (0, 255, 128):
            p.t("H %s f%d:%d hash" % (s, f, rng.randrange(3 * b)))
        for _ in range(10 if c.quick else 100):
            m = bytes(rng.randrange(256) for _ in range(MIDLEN[s]))
            p.t("B 1 %s x%s %d" % (s, m.hex(), b * rng.randrange(1 << rng.randrange(1, 50))), "I 1 in p1:0:%d" % rng.randrange(2 * b), "O 1 nmd")
    for i in range(0, 90):
        p.t("H siphash24:%d:%d p%d:%d:%d keys,u64,fu64,asu64,fin" % (rng.randrange(1 << 64), rng.randrange(1 << 64), i, i % 8, i))
        p.t("H sha256 p%d:0:%d const,hash" % (i, 2 * i))
    for a in ALGS:
        B = 32 if a == "siphash24" else BLOCK[a]
        for k in (0, 1, B - 1, B, B + 1, 3 * B):
            p.t("H hmac/%s=p1:0:%d p%d:0:%d fin" % (a, k, k, rng.randrange(3 * B)))
    for k in (0, 1, 7, 31, 55, 56, 64, 100):
        p.t("G sha256t=p1:0:%d mid x" % k, "H sha256t=p1:0:%d p2:0:%d hash,eng,chunks,fin" % (k, rng.randrange(150)))
    c.validate("TraceK", c.record(dirs, "k", p.lines, "builds"))
    c.validate("TraceV", c.record(vd, "v", small_values(c, rng, 2 if c.quick else 20), "values", binary="val"))
    for k, j in cpuruns.items():
        if j.result()[0]:
            c.validate("TraceK", j.result()[0])
    m = 0
    for t, j in zip(targets, runs):
        for r, spec in zip(j.result(), ["TraceK", "TraceC", "TraceV"]):
            if r:
                c.validate(spec, r)
                m += 1
    near, wide = c.miri("i686", [("rec", "k", near.lines), ("rec", "k", wide.lines)], ("io", "small-hash"), "harness", "i686-unknown-linux-gnu", None, 3, 600, False)
    if near:
        c.validate("TraceK", near)
    if wide:
        what = vals.known(c, "len32")
        try:
            c.validate("TraceK", wide, keep=True)
        except Violation:
            if not what:
                raise
            # exactly the listed history: a 32-bit target absorbing past 2^32 bytes; the steps before it must conform
            for f in wide:
                ts = [json.loads(x) for x in open(f)]
                with open(f, "w") as w:
                    for t in ts:
                        k = next(i for i, e in enumerate(t["ev"]) if e["op"] == "in" and e["s"] == 1 or i == len(t["ev"]) - 1)
                        w.write(json.dumps({"id": t["id"], "ev": t["ev"][:k]}) + "\n")
            c.validate("TraceK", wide)
            c.known.append(what)
    return {"feature_subsets_compiled": n, "feature_subset_builds_recorded": nb, "foreign_platform_recordings": m, "configurations": list(dirs)}
