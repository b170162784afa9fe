"""The checks, one function per property.  Each builds the recorders from /repo's working tree,
records real executions, and lets TLC decide them against the specification; it also checks the
specification's own models."""
import os, random
import vals, more
from core import Infra, MAIN, Violation, SPEC
from plans import (ALGS, NESTED, BLOCK, HASHES, K0, K1, LENLEN, MIDLEN, USER, USER_BIG, Plan, alg_of, around, block, hist_lines, hists, keyed)


def rng_of(c, salt):
    return random.Random("%s/%s/%d" % (c.pid, salt, c.seed))


# ------------------------------------------------------------------------------------------ models
def mc_chf(c, sorts, msg=None):
    """Exhaustive engine machine, one small instance per sort."""
    for s in sorts:
        over = {"Sorts": '{"%s"}' % s, "MaxMsg": str(msg or (5 if c.quick else 7))}
        c.model("MC_Chf", over=over, name="MC_Chf[%s]" % s)


def gen_hists(c, depth, slots=2, regs=1, pieces="{1, 2, 3}", kinds="{1}", simulate=None, salt=0):
    over = {"Depth": str(depth), "NSlots": str(slots), "NRegs": str(regs), "Pieces": pieces, "Kinds": kinds}
    args = []
    if simulate:
        args = ["-simulate", "num=%d" % simulate, "-depth", str(depth + 2), "-seed", str(c.seed * 1000 + salt)]
    r = c.tlc("GenHist", over=over, args=args, workers=1 if simulate else None)
    hs = hists(r["out"])
    if simulate:
        # TLC evaluates the emitting invariant on all successors of the last state: keep one each
        seen, one = set(), []
        for h in hs:
            k = str(h[:-1])
            if k not in seen:
                seen.add(k)
                one.append(h)
        hs = one
    if not hs or (not simulate and not r["ok"]):
        raise Infra("GenHist produced nothing:\n" + r["out"][-1500:] + r["err"][-500:])
    if not simulate:
        c.states += r["distinct"]
        c.transitions += r["generated"]
        c.models.append({"model": "GenHist depth %d" % depth, "states": r["distinct"], "transitions": r["generated"], "histories": len(hs), "wall_s": round(r["wall"], 1)})
    else:
        c.models.append({"model": "GenHist simulated, depth %d" % depth, "histories": len(hs), "wall_s": round(r["wall"], 1)})
    return hs


# ------------------------------------------------------------------------------------- C01 digests
def c01(c):
    c.model("KAT")
    c.model("MC_Pad")
    unbounded(c, "block", "pad")
    dirs = c.build(MAIN)
    rng = rng_of(c, "k")
    p = Plan("d")
    top = 260 if c.quick else 2200
    for a in HASHES:
        b = BLOCK[a]
        # every length, each computed from the state recorded one byte earlier
        p.t("Y %s %d 0 %d 1 hash,eng,chunks,e,h" % (a, rng.randrange(1 << 30), 3100 if c.quick else 20000))
        p.t("Y %s %d %d %d 61 hash,eng,chunks,e,h" % (a, rng.randrange(1 << 30), rng.randrange(61), 20000 if c.quick else 200000))
        for n in range(top + 1):
            p.t("H %s p%d:%d:%d hash,eng,chunks,fin" % (a, rng.randrange(1 << 30), rng.randrange(8), n))
        # special contents around every boundary
        for n in around(b, 2, 3 * b) + [b - LENLEN[a] + d for d in (-2, -1, 0, 1)] + [2 * b - LENLEN[a] + d for d in (-2, -1, 0, 1)]:
            for f in (0, 255, 128, 1, 0x36):
                p.t("H %s f%d:%d hash,eng" % (a, f, n))
        # one bit set, every position of a block (first, then second block)
        for blk in (0, 1):
            for bit in range(0, 8 * b, 1 if not c.quick else (3 if b == 64 else 7)):
                m = bytearray((blk + 1) * b)
                m[blk * b + bit // 8] |= 1 << (bit % 8)
                p.t("H %s x%s hash" % (a, m.hex()))
        for _ in range(100 if c.quick else 1500):
            n = rng.choice([rng.randrange(2 * b), rng.randrange(20 * b), rng.randrange(60 * b)])
            p.t("H %s p%d:0:%d hash,eng,chunks,fin" % (a, rng.randrange(1 << 30), n))
        # message words at the extremes, where carries happen
        for _ in range(60 if c.quick else 600):
            w = b"".join(bytes([rng.choice((0, 255, 128, 127, 1))]) * rng.choice((1, 4, 8)) for _ in range(40))[:rng.randrange(1, 150)]
            p.t("H %s x%s hash,fin" % (a, w.hex()))
        # repeated blocks
        w = bytes(rng.randrange(256) for _ in range(b))
        for k in (2, 3, 5):
            p.t("H %s x%s hash" % (a, (w * k).hex()))
        # one long message, in segments
        size = (192 << 10 if b == 64 else 96 << 10) if c.quick else (3 << 20 if b == 64 else 1 << 20)
        p.t("W %s p%d:0:%d %d" % (a, rng.randrange(1 << 30), size + rng.randrange(b), 5 * 1024 + 37))
    c.validate("TraceK", c.record(dirs, "k", p.lines, "digests"))
    # very long one-piece messages against the same message in pieces
    u = Plan("l")
    for a in HASHES:
        for n in [(1 << k) + d for k in range(10, 23) for d in (-1, 0, 1)] + [(1 << k) + rng.randrange(-9, 9) for k in (23, 24)]:
            u.t("L %s %d in %d,%d,%d" % (a, rng.randrange(1 << 30), n // 3, n // 5, n - n // 3 - n // 5), "L %s %d in %d" % (a, rng.randrange(1 << 30), n))
            u.t("G %s %s p%d:0:%d" % (a, rng.choice(["hash", "eng", "chunks", "fin"]), rng.randrange(1 << 30), n))
    c.validate("TraceU", c.record({k: v for k, v in dirs.items() if k.endswith("rel")}, "u", u.lines, "long"))
    return {"really_absorbed_bytes": huge(c, dirs, HASHES)}


# -------------------------------------------------------------------------------- C02 long messages
def c02(c):
    c.model("KAT")
    c.model("MC_Words", over={"Limbs": "{1, 65535}"} if c.quick else None)
    mc_chf(c, ["plain"])
    unbounded(c, "block", "pad")
    dirs = c.build(MAIN)
    rng = rng_of(c, "k")
    p = Plan("n")

    def cont(b):
        return max(0, rng.choice([0, 1, b - 17, b - 16, b - 9, b - 8, b - 1, b, b + 1, 2 * b - 9, rng.randrange(3 * b)]))
    for a in HASHES:
        b = BLOCK[a]
        ns = set()
        for k in range(8, 61):
            for d in (-b, 0, b):
                ns.add((1 << k) + d)
        for k in range(16, 61, 4):
            ns.add((1 << k) - b + (1 << (k - 8)))
        for _ in range(60 if c.quick else 500):
            ns.add(rng.randrange(1 << rng.randrange(10, 60)) // b * b)
        ns.add((1 << 61) - b)
        ns.add((1 << 61) - 2 * b)
        ns.add((1 << 61) - 8 * b)
        for n in sorted(ns):
            if n % b or n < 0:
                continue
            k = cont(b)
            if n + k + 1 >= 1 << 61:
                k = b - 2
            mid = bytes(rng.randrange(256) for _ in range(MIDLEN[a]))
            p.t("B 1 %s x%s %d%s" % (a, mid.hex(), n, rng.choice(["", " i"])), "O 1 n", "I 1 in p%d:0:%d" % (rng.randrange(999), k), "O 1 nmd", "C 1 2", "I 2 in x00", "F 1 h", "F 2 e")
        # every residue, at counts of every magnitude
        for r in range(b):
            for n in (rng.randrange(1 << rng.randrange(12, 28)) // b * b, rng.randrange(1 << rng.randrange(28, 60)) // b * b) if c.quick else [rng.randrange(1 << k) // b * b for k in range(12, 60, 3)]:
                p.t("B 1 %s f%d:%d %d" % (a, rng.randrange(256), MIDLEN[a], n), "I 1 in p%d:0:%d" % (rng.randrange(999), r), "O 1 nmd")
    # every other kind of engine, resumed from a real capture at a huge count
    for s in keyed():
        b = block(s)
        for k in range(8, 61, 3 if c.quick else 1):
            for d in (-b, 0, b):
                n = (1 << k) + d
                m = cont(b)
                p.t("N 1 %s" % s, "I 1 in p1:0:%d" % (2 * b), "M 1 1", "R 2 1 %d" % n, "O 2 n", "I 2 in p2:0:%d" % m, "O 2 nmd", "F 2 h")
    c.validate("TraceK", c.record(dirs, "k", p.lines, "counts"))
    # and really absorbing more than 2^32 bytes
    return {"really_absorbed_bytes": huge(c, dirs, HASHES + ["siphash24:%d:%d" % (K0, K1), "sha256t=x746167", "hmac/sha256=x6b"])}


def huge(c, dirs, sorts):
    """Absorb more than 2^32 bytes, as one slice and in pieces, with real engines; judged by TraceK."""
    big = {k: v for k, v in dirs.items() if k in (["std-rel"] if c.quick else ["std-rel", "nostd-rel", "std-small-rel"])}
    total = (1 << 32) + 100 if c.quick else (1 << 33) + 4133
    for cfg in big:
        c.validate("TraceK", c.record({cfg: big[cfg]}, str(total), None, "big", binary="big", tail=sorts, timeout=800))
    return total * len(sorts) * 2 * len(big)


# -------------------------------------------------------------------------------- C03 partitions
def feeds(c, rng, sorts, full=True):
    p = Plan("f")
    for s in sorts:
        b = block(s)
        seed = rng.randrange(1 << 30)
        if b == 8:
            p.t("E %s %d in 0-17 0-40 0" % (s, seed))
            p.t("E %s %d in 0-9 0-33 %d" % (s, seed, 5))
            p.t("E %s %d w 0-9 0-33 1" % (s, seed))
            p.t("E %s %d sw 0-9 0-33 9" % (s, seed))
            p.t("E %s %d chunks 0-9 0-20 3" % (s, seed))
            for d in ("in", "swa", "chunks"):
                p.t("Q %s %d %s 0,1,3,7,8,9,15 4" % (s, rng.randrange(1 << 30), d))
        elif full:
            for x in range(0, b + 1, 8):
                p.t("E %s %d in %d-%d 0-%d 0" % (s, seed, x, min(x + 7, b), 2 * b + 9))
            for rt, tail in (("w", 1), ("sw", b - 1), ("chunks", 7), ("scp", 3)):
                lo = rng.randrange(b - 8)
                p.t("E %s %d %s %d-%d %d-%d %d" % (s, seed, rt, lo, lo + 8, b - 20, b + 20, tail))
                p.t("E %s %d %s 0-4 0-12 %d" % (s, seed, rt, tail))
                p.t("E %s %d %s %d-%d 0-12 %d" % (s, seed, rt, b - 4, b, tail))
            for d in ("in", "swa", "chunks"):
                p.t("Q %s %d %s 0,1,%d,%d,%d,%d 4" % (s, rng.randrange(1 << 30), d, b - LENLEN[alg_of(s)], b - 1, b, b + 1))
        # larger pieces after every few buffered bytes: 2 to 20 blocks, and around larger powers of two
        if full:
            hi = 20 if b < 128 else 10
            for x in (0, 1, b - 1, rng.randrange(b)) if c.quick else range(b):
                p.t("E %s %d in %d-%d %d-%d %d" % (s, seed, x, x, 2 * b, hi * b + 1, rng.choice([0, 1, 3])))
            for k in range(11, 17):
                x = rng.randrange(b)
                p.t("E %s %d %s %d-%d %d-%d 1" % (s, seed, rng.choice(["in", "w", "chunks"]), x, x + 1, (1 << k) - x - 3, (1 << k) + 3))
        # byte by byte, in equal pieces of every size, and random longer partitions
        for z in (1, 2, 3, 5, 7, b - 1, b, b + 1, 2 * b, 3 * b - 1):
            n = 4 * b + 11
            q = [z] * (n // z) + ([n % z] if n % z else [])
            p.t("L %s %d %s %s" % (s, rng.randrange(1 << 30), rng.choice(["in", "w", "chunks"]), ",".join(map(str, q))))
        for i in range(40 if c.quick else 400):
            hi = rng.choice([b, 4 * b, 40 * b, 300 * b])
            q = [rng.choice([0, 1, b - 1, b, b + 1, rng.randrange(hi), rng.randrange(hi)]) for _ in range(rng.randrange(1, 9))]
            p.t("L %s %d %s %s" % (s, rng.randrange(1 << 30), rng.choice(["in", "in", "w", "wa", "swa", "sby", "chunks"]), ",".join(map(str, q))))
        q = [rng.randrange(1 << 19) for _ in range(6)]
        p.t("L %s %d in %s" % (s, rng.randrange(1 << 30), ",".join(map(str, q))))
    return p


def c03(c):
    mc_chf(c, ["plain", "word", "hmac5", "tag"])
    c.model("MC_Sip")
    unbounded(c, "block", "sip")
    dirs = c.build(MAIN)
    rng = rng_of(c, "u")
    p = feeds(c, rng, HASHES + ["siphash24:%d:%d" % (K0, K1), "sha256t=x746167", "hmac/siphash24=x6b6579"])
    for s in ["hmac/%s=x6b6579" % a for a in (HASHES if c.quick else []) + NESTED]:
        b = block(s)
        p.t("E %s 5 in %d-%d 0-%d 0" % (s, b - 3, b, b + 9))
        p.t("E %s 5 w 0-3 %d-%d 2" % (s, b - 9, b + 1))
        p.t("Q %s 5 in 0,1,%d,%d 4" % (s, b - 1, b))
        p.t("L %s 5 swa %s" % (s, ",".join(str(rng.randrange(9 * b)) for _ in range(7))))
    # the iterator route exists for engines without a key of their own: also the unkeyed ones
    for s in ["siphash24"] + ["hmac/%s" % a for a in ALGS + NESTED]:
        b = block(s)
        p.t("E %s 5 chunks 0-%d 0-%d %d" % (s, min(b, 9), 2 * b + 3 if b < 64 else b // 4, rng.randrange(9)))
        p.t("E %s 5 chunks %d-%d %d-%d %d" % (s, b - 3, b, b - 3, b + 3, rng.randrange(9)))
        p.t("Q %s 5 chunks 0,1,%d,%d 4" % (s, b - 1, b))
        for _ in range(6):
            p.t("L %s 5 chunks %s" % (s, ",".join(str(rng.choice([0, 1, b, rng.randrange(9 * b)])) for _ in range(rng.randrange(1, 12)))))
    # very many pieces
    for s in HASHES + ["siphash24", "siphash24:%d:%d" % (K0, K1), "sha256t=x746167", "hmac/sha256", "hmac/sha512=x6b"]:
        for n in (255, 256, 257, 1000, 4097) + (() if c.quick else (65535, 65536, 65537)):
            for rt in ("in", "chunks"):
                p.t("L %s 6 %s %s" % (s, rt, ",".join(str(rng.choice([0, 1, 1, 2, 3, rng.randrange(20)])) for _ in range(n))))
    for s in [rng.choice(HASHES), "siphash24"] if c.quick else []:
        p.t("L %s 7 chunks %s" % (s, ",".join(str(rng.choice([0, 1])) for _ in range(65537))))
    if not c.quick:
        p += feeds(c, rng, ["hmac/%s=x6b6579" % a for a in HASHES])
    c.validate("TraceU", c.record(dirs, "u", p.lines, "feeds"))
    # a few through the concrete specification, so that the digests themselves are right
    k = Plan("k")
    for s in keyed():
        b = block(s)
        for i in range(12 if c.quick else 60):
            cuts = [rng.choice([0, 1, b - 1, b, b + 1, rng.randrange(2 * b)]) for _ in range(rng.randrange(2, 6))]
            at, ls = 0, ["N 1 %s" % s]
            for z in cuts:
                ls.append("I 1 %s p%d:%d:%d" % (rng.choice(["in", "w", "sw", "sv"]), i, at, z))
                at += z
            k.t(*(ls + ["O 1 nmd", "F 1 h"]))
    c.validate("TraceK", c.record(dirs, "k", k.lines, "pieces"))
    return {"really_absorbed_bytes": huge(c, dirs, HASHES + ["siphash24", "sha256t=x746167", "hmac/sha256=x6b"])}


def unbounded(c, *what):
    """Index arithmetic for every length, by induction (Apalache)."""
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for w in what:
        jobs += {"block": [("C64", "BInit", "BNext", "BInv"), ("C128", "BInit", "BNext", "BInv"), ("CGap", "BInit", "BNext", "BInv", "forgets what it has consumed")],
                 "sip": [("C64", "SInit", "SNext", "SInv"), ("COver", "SInit", "SNext", "SInv", "loads eight bytes for every tail")],
                 "pad": [("C64", "PInit", None, "PInv"), ("C128", "PInit", None, "PInv"), ("CPad", "PInit", None, "PInv", "an extra block at the edge")],
                 "const": [("C64", "PInit", None, "PInv"), ("CConst", "PInit", None, "PInv", "no room for the first padding byte")]}[w]
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda j: c.inductive("Unbounded", *j), jobs))


# ------------------------------------------------------------------------------ C04 independence
def odd_sort(rng):
    """A sort with a key or tag of its own, or an HMAC without one."""
    k = "p%d:0:%d" % (rng.randrange(1 << 20), rng.choice([0, 1, 20, 63, 64, 65, 128, 129, 300]))
    return rng.choice(["sha256t=" + k, "hmac/%s=%s" % (rng.choice(ALGS + NESTED), k), "hmac/%s" % rng.choice(ALGS + NESTED),
                       "siphash24:%d:%d" % (rng.randrange(1 << 64), rng.randrange(1 << 64)), "siphash24"])


def sibling(rng, s):
    """The same kind of engine under another key or tag."""
    n = s.split("=")[0].split(":")[0]
    if n == "siphash24":
        return "siphash24:%d:%d" % (rng.randrange(1 << 64), rng.randrange(1 << 64))
    if n in HASHES:
        return s
    return "%s=p%d:0:%d" % (n, rng.randrange(1 << 20), rng.randrange(140))


def histories(c, dirs, depth_all, depth_rr, nsim, regs=1, routes=("in",), threads=True):
    rng = rng_of(c, "hist")
    sorts = keyed()
    p = Plan("h")
    hs = gen_hists(c, depth_all, regs=regs)
    for s in sorts:
        for i, h in enumerate(hs):
            p.t(*hist_lines(h, lambda q: s, i % 2 == 0, rng, routes))
    hs = gen_hists(c, depth_rr, regs=regs, pieces="{0, 1, 2, 3}" if not c.quick else "{1, 2, 3}")
    for i, h in enumerate(hs):
        s = sorts[(i + c.seed) % len(sorts)]
        p.t(*hist_lines(h, lambda q: s, False, rng, routes))
    c.validate("TraceU", c.record(dirs, "u", p.lines, "histories"))
    # long histories over three slots and mixed sorts
    q = Plan("s")
    hs = gen_hists(c, 36, slots=3, regs=2, pieces="{0, 1, 2, 3, 4, 5, 6}", kinds="{1, 2, 3, 4}", simulate=nsim)
    for h in hs:
        pool = sorts + [odd_sort(rng) for _ in range(6)]
        mine = [rng.choice(pool) for _ in range(2)]
        mine += [mine[0] if rng.random() < 0.5 else sibling(rng, mine[0]), rng.choice(pool)]
        q.t(*hist_lines(h, lambda k: mine[k - 1], rng.random() < 0.4, rng, routes))
    c.validate("TraceU", c.record(dirs, "u", q.lines, "long"))
    if threads:
        t = {k: v for k, v in dirs.items() if k.endswith("rel") or k == "std-dev"}
        c.validate("TraceU", c.record(t, "u8", q.lines + p.lines[:20000], "threads"))


def c04(c):
    mc_chf(c, ["plain", "hmac5"])
    dirs = c.build(MAIN)
    # clones taken with every number of buffered bytes, by both ways of cloning, and then driven apart
    rng = rng_of(c, "clone")
    p = Plan("c")
    for s in keyed():
        b = block(s)
        for r in range(b):
            k = b * rng.choice([0, 0, 1, 2, 5]) + r
            p.t("N 1 %s" % s, "N 3 %s" % s, "I 1 in p1:0:%d" % k, "I 3 in p9:0:%d" % rng.randrange(2 * b), "C 1 2", "C 1 3 cf", "O *",
                "I 1 in p2:0:%d" % rng.choice([0, 1, b - r, b]), "I 2 in p3:0:%d" % rng.choice([1, b - r, b + 1]), "O *", "F 1 h", "I 3 in p4:0:%d" % rng.randrange(2 * b), "O *")
        # overwriting a live engine: what it held before, against what the source holds
        cl = [0, 1, b // 2, b - 1, b, b + 1, 2 * b - 1, rng.randrange(3 * b), rng.randrange(20 * b)]
        for x in cl:
            for y in cl + ([] if c.quick else [rng.randrange(9 * b) for _ in range(20)]):
                p.t("N 1 %s" % s, "N 2 %s" % s, "I 1 in p1:0:%d" % x, "I 2 in p2:0:%d" % y, "C 1 2 cf", "O *", "I 2 in p3:0:%d" % rng.choice([0, 1, b, rng.randrange(2 * b)]), "O *", "C 2 1 cf", "I 1 in p4:0:1", "O *")
    c.validate("TraceU", c.record(dirs, "u", p.lines, "clones"))
    histories(c, dirs, 4 if c.quick else 5, 5, 400 if c.quick else 4000)
    # first use of the library by several threads at the same moment: in fresh processes, and under an
    # interpreter that reports data races and explores other schedules
    z, m = Plan("z"), Plan("z")
    for s in keyed():
        b = block(s)
        z.t("Z %s p%d:0:%d 4" % (s, rng.randrange(999), 3 * b + 17))
        m.t("Z %s p%d:0:%d 2" % (s, rng.randrange(999), b + 1))
    for cfg in ("std-rel", "nostd-rel", "std-dev"):
        if cfg in dirs:
            c.validate("TraceK", c.record({cfg: dirs[cfg]}, "25" if c.quick else "400", z.lines, "cold", binary="race"))
    # very many digests in one process, with engines that travel between threads in the middle of a message
    y = Plan("y")
    for s in keyed():
        y.t("Y %s p%d:0:%d %d" % (s, rng.randrange(999), block(s) + rng.randrange(1, 30), 1 << (18 if c.quick else 24)))
    for cfg in ("std-rel", "nostd-rel"):
        if cfg in dirs:
            c.validate("TraceK", c.record({cfg: dirs[cfg]}, "t", y.lines, "soak", binary="race"))
    for k in range(1 if c.quick else 4):
        for r in c.miri("race%d" % k, [("race", "t", m.lines)], ("std",), shards=6, flags="-Zmiri-preemption-rate=0.05"):
            if r:
                c.validate("TraceK", r)


# -------------------------------------------------------------------------- C05 capture and resume
def c05(c):
    mc_chf(c, ["plain", "word", "hmac5", "hmacw", "tag", "hmact", "hmach"])
    dirs = c.build(MAIN)
    rng = rng_of(c, "k")
    p = Plan("m")
    for s in keyed() + ["hmac/%s" % a for a in ALGS + NESTED] + ["sha256t=x", "siphash24:0:0"]:
        b = block(s)
        rep = s in keyed()
        for j in range(0, 5 if rep else 2):
            for m in ([0, 1, b - 1, b, b + 1, 2 * b + 3] if b == 8 or j < 2 else [0, b + 1]):
                inh = " i" if (j + m) % 2 else ""
                p.t("N 1 %s" % s, "I 1 in p1:0:%d" % (j * b), "O 1 nmd", "M 1 1", "R 2 1 t" + inh, "O 2 nmd", "I 2 in p2:0:%d" % m, "I 1 in p2:0:%d" % m, "O 1,2 nmd", "F 2 h", "F 1 e")
        # midstates while bytes are buffered
        for r in (1, b - 1, b // 2):
            p.t("N 1 %s" % s, "I 1 in p3:0:%d" % (b + r), "O 1 nm", "I 1 in p3:%d:%d" % (b + r, b), "O 1 nm", "M 1 1", "R 2 1 t", "O 2 nm", "I 2 in p4:0:%d" % (b + 2), "O 2 nmd")
        # capture chains: resume, go on, capture again
        ls = ["N 1 %s" % s]
        for i in range(6):
            ls += ["I 1 in p%d:0:%d" % (10 + i, b * rng.randrange(1, 3)), "M 1 %d" % (i % 2), "R 1 %d t" % (i % 2), "O 1 nm"]
        p.t(*(ls + ["I 1 in p20:0:%d" % rng.randrange(2 * b), "O 1 nmd", "F 1 h"]))
        # refusals: every residue, several magnitudes
        if b > 8 and rep:
            ls = ["N 1 %s" % s, "I 1 in p1:0:%d" % b, "M 1 1"]
            for r in range(1, b):
                for base in ((0, 1 << 40) if r % 4 else (0, b, 7 * b, 1 << 32, 1 << 40)):
                    ls.append("R 2 1 %d%s" % (base + r, " i" if r % 2 else ""))
            p.t(*(ls + ["O 1 nmd"]))
    for a in HASHES:
        b = BLOCK[a]
        for i in range(30 if c.quick else 300):
            mid = bytes(rng.choice((0, 255, rng.randrange(256))) if i % 3 else rng.randrange(256) for _ in range(MIDLEN[a]))
            n = b * rng.choice([0, 1, 2, rng.randrange(1 << 20)])
            p.t("B 1 %s x%s %d%s" % (a, mid.hex(), n, " i" if i % 2 else ""), "O 1 nm", "I 1 in p1:0:%d" % rng.randrange(2 * b), "O 1 nmd")
        ls = []
        for r in range(1, b):
            ls.append("B 1 %s x%s %d%s" % (a, "11" * MIDLEN[a], rng.choice([0, b, 3 * b, 1 << 31]) + r, " i" if r % 2 else ""))
        p.t(*ls)
    c.validate("TraceK", c.record(dirs, "k", p.lines, "resume"))
    # longer prefixes and generated histories in which captures are frequent
    u = Plan("r")
    for s in keyed():
        b = block(s)
        for j in list(range(0, 40, 1 if not c.quick else 3)) + [64, 127, 128, 129, 1000]:
            m = rng.choice([0, 1, b - 1, b, rng.randrange(5 * b)])
            u.t("N 1 %s" % s, "I 1 %s p1:0:%d" % (rng.choice(["in", "w"]), j * b), "M 1 1", "R 2 1 t", "O *", "I 2 in p2:0:%d" % m, "C 2 3", "M 2 2", "R 4 2 t", "O *", "I 4 in p9:0:%d" % (b + 1), "O *")
    c.validate("TraceU", c.record(dirs, "u", u.lines, "prefixes"))
    # a ladder of long prefixes, and captures at counts of every magnitude (reached by resuming)
    w, v = Plan("w"), Plan("v")
    for s in keyed():
        b = block(s)
        for k in range(5, 17):
            j = (1 << k) + rng.randrange(-1, 2)
            w.t("N 1 %s" % s, "I 1 in p1:0:%d" % (j * b), "M 1 1", "R 2 1 t%s" % rng.choice(["", " i"]), "O *", "I 2 in p2:0:%d" % rng.choice([0, 1, rng.randrange(3 * b)]), "O *")
        for k in range(8, 61, 4 if c.quick else 1):
            n = ((1 << k) + rng.randrange(-2, 3) * b) // b * b
            m = rng.randrange(2 * b)
            v.t("N 1 %s" % s, "I 1 in p1:0:%d" % b, "M 1 1", "R 2 1 %d" % n, "I 2 in p2:0:%d" % b, "M 2 2", "R 3 2 %d" % (n + b), "O 2,3 nm", "I 2 in p3:0:%d" % m, "I 3 in p3:0:%d" % m, "O 2,3 nmd", "F 2 h", "F 3 e")
    c.validate("TraceU", c.record({k: x for k, x in dirs.items() if k.endswith("rel")}, "u", w.lines, "ladder"))
    c.validate("TraceK", c.record(dirs, "k", v.lines, "magnitudes"))
    histories(c, dirs, 3 if c.quick else 4, 4 if c.quick else 5, 200 if c.quick else 2500, regs=2, threads=False)


# ---------------------------------------------------------------------------------- C06 SipHash
def c06(c):
    c.model("KAT")
    c.model("MC_Sip")
    unbounded(c, "sip")
    dirs = c.build(MAIN)
    rng = rng_of(c, "k")
    M = (1 << 64) - 1
    keys = [(0, 0), (K0, K1), (M, M), (1, 0), (0, 1), (1 << 63, 0), (0, 1 << 63), (0xff, 0xff00), (M, 0), (0, M), (K1, K0), (K0, K0)]
    keys += [(1 << i, 0) for i in range(0, 64, 5)] + [(0, 1 << i) for i in range(0, 64, 5)]
    keys += [(rng.randrange(M), rng.randrange(M)) for _ in range(20 if c.quick else 200)]
    p = Plan("s")
    for i, (a, b) in enumerate(keys):
        s = "siphash24:%d:%d" % (a, b)
        lens = list(range(0, 530)) if i < 2 else (list(range(0, 70)) if i < 4 else sorted(rng.sample(range(0, 300), 12)))
        for n in lens:
            p.t("H %s p%d:%d:%d keys,u64,fu64,asu64%s" % (s, rng.randrange(1 << 30), rng.randrange(8), n, ",hash,eng,chunks,fin" if (a, b) == (0, 0) else ",fin"))
        n1, n2 = rng.randrange(40), rng.randrange(40)
        p.t("N 1 %s" % s, "O 1 nd", "I 1 in p1:0:%d" % n1, "O 1 nd", "C 1 2", "I 1 in p1:%d:%d" % (n1, n2), "O 1,2 nd", "F 1 u", "F 2 h")
        for f in (0, 255, 128):
            p.t("H %s f%d:%d keys,u64" % (s, f, rng.randrange(40)))
    for rt in ("new", "default", "engine", "inh", "trait"):
        p.t("N 1 siphash24 %s" % rt, "O 1 nd", "I 1 in p1:0:13", "O 1 nd", "F 1 u")
    for n in (600, 1023, 1024, 1025, 2000, 4095, 4096) + ((65535, 65536, 65537) if not c.quick else (8191, 8192)):
        p.t("H siphash24:%d:%d p7:0:%d keys,u64" % (K0, K1, n))
    # single set bits of a message: every bit of every tail position
    for n in (8, 15, 16, 7, 4, 3) if c.quick else range(1, 33):
        for bit in range(8 * n):
            m = bytearray(n)
            m[bit // 8] |= 1 << (bit % 8)
            p.t("H siphash24:%d:%d x%s keys,u64" % (K0, K1, m.hex()))
    # all pairs of (buffered bytes, piece) with the integer form at the end
    for a in range(0, 17):
        for b in range(0, 27 if c.quick else 41):
            p.t("N 1 siphash24:%d:%d" % (K0, K1), "I 1 in p%d:0:%d" % (a, a), "I 1 in p%d:%d:%d" % (a, a, b), "C 1 2", "F 1 u", "F 2 h")
    c.validate("TraceK", c.record(dirs, "k", p.lines, "sip"))
    c.validate("TraceU", c.record(dirs, "u", feeds(c, rng, ["siphash24:%d:%d" % (K0, K1), "siphash24:0:0", "siphash24:%d:1" % M]).lines, "feeds"))
    return {"really_absorbed_bytes": huge(c, dirs, ["siphash24:%d:%d" % (K0, K1), "siphash24"])}


# ------------------------------------------------------------------------------------- C07 HMAC
def c07(c):
    c.model("KAT")
    c.model("MC_Hmac")
    mc_chf(c, ["hmac5", "hmacw", "hmact", "hmach"])
    dirs = c.build(MAIN)
    rng = rng_of(c, "k")
    p = Plan("h")
    for a in ALGS + NESTED:
        B = 32 if a == "siphash24" else BLOCK[alg_of(a)]
        lens = list(range(0, B + 4)) + [2 * B - 1, 2 * B, 2 * B + 1, 5 * B, 300]
        for n in lens:
            for m in ([rng.choice([0, 1, B - 9, B - 1, B, rng.randrange(2 * B)])] if c.quick and B == 128 else [0, rng.choice([1, B - 9, B - 8, B - 1, B, B + 1, rng.randrange(3 * B)])]):
                p.t("H hmac/%s=p%d:0:%d p%d:0:%d fin" % (a, rng.randrange(1 << 20), n, rng.randrange(1 << 20), m))
        for m in around(B, 1, 2 * B) + [rng.randrange(5 * B) for _ in range(10)]:
            p.t("H hmac/%s=p3:0:%d p%d:0:%d fin" % (a, rng.choice([7, B, B + 1]), rng.randrange(1 << 20), m))
        # every message length, step by step
        if a != "siphash24":
            p.t("Y hmac/%s=p%d:0:%d %d 0 %d 1 e,h" % (a, rng.randrange(1 << 20), rng.choice([5, 20, B, B + 1]), rng.randrange(1 << 30), (140 if a in NESTED else 280) if c.quick else 2000))
            p.t("Y hmac/%s %d %d %d 59 e,h,eng,chunks" % (a, rng.randrange(1 << 30), rng.randrange(59), 3000 if c.quick else 20000))
        # keys of many blocks
        for n in [1000, 1023, 1024, 1025, 16 * B, 16 * B + 1, 2047, 2048, 2049, 4096, 4097, rng.randrange(3000, 9000)] + ([] if c.quick else [16383, 16385, 65535, 65536, 65537]):
            p.t("H hmac/%s=p%d:0:%d p6:0:%d fin" % (a, rng.randrange(1 << 20), n, rng.choice([0, 3, B, rng.randrange(B)])))
        for f in (0, 0x36, 0x5c, 255):
            for n in (1, B, B + 1):
                p.t("H hmac/%s=f%d:%d p5:0:%d fin" % (a, f, n, rng.randrange(B)))
        for rt in ("default", "engine", "trait"):
            n = rng.randrange(2 * B)
            p.t("N 1 hmac/%s %s" % (a, rt), "O 1 nmd", "I 1 in p1:0:%d" % n, "O 1 nmd", "F 1 h")
        p.t("H hmac/%s p1:0:%d eng,chunks,fin" % (a, rng.randrange(2 * B)))
        for i in range(6 if c.quick else 40):
            n, at = rng.choice([0, 1, 20, B - 1, B, B + 1, 3 * B]), 0
            ls = ["N 1 hmac/%s=p9:%d:%d" % (a, i, n), "O 1 nmd"]
            for _ in range(rng.randrange(1, 5)):
                k = rng.choice([0, 1, B - 1, B, B + 1, rng.randrange(2 * B)])
                ls.append("I 1 %s p%d:%d:%d" % (rng.choice(["in", "w", "sw"]), i, at, k))
                at += k
            p.t(*(ls + ["C 1 2", "O 1,2 nmd", "F 1 e", "F 2 h"]))
    c.validate("TraceK", c.record(dirs, "k", p.lines, "hmac"))
    if c.quick:
        # very long keys, one algorithm by one
        q = Plan("y")
        for a in ALGS:
            q.t("H hmac/%s=p%d:0:%d p6:0:%d fin" % (a, rng.randrange(1 << 20), 65530 + rng.randrange(10) if a in ("siphash24", "sha256", "sha512") else 20000 + rng.randrange(99), rng.randrange(9)))
        c.validate("TraceK", c.record({k: v for k, v in dirs.items() if k in ("std-rel", "nostd-small-dev")}, "k", q.lines, "keys"))
    # a key longer than a block counts as its digest: keys around every power of two
    rel = {k: v for k, v in dirs.items() if k == "std-rel"}
    ns = sorted({n + d for n in [1 << k for k in range(8, 21 if c.quick else 25)] for d in (-1, 0, 1, 8, 20, 32, 33, 64, 65, 128, 129, rng.randrange(200))})
    c.validate("TraceK", c.record(rel, "k" + ",".join(map(str, ns)), None, "longkeys", binary="big", tail=ALGS, timeout=800))
    c.validate("TraceK", c.record(rel, "k%d,%d" % ((1 << 32) + rng.randrange(64), (1 << 32) + 65), None, "hugekeys", binary="big", tail=["sha256"] if c.quick else ["sha256", "sha512", "siphash24"], timeout=800))
    u = Plan("u")
    for a in ALGS + NESTED:
        B = BLOCK[alg_of(a)]
        for n in (0, 5, B, B + 1, 200):
            s = "hmac/%s=p4:0:%d" % (a, n)
            u.t("Q %s %d in 0,1,%d,%d,%d 4" % (s, rng.randrange(1 << 30), B - 1, B, B + 1))
            u.t("E %s %d %s 0-%d %d-%d 1" % (s, rng.randrange(1 << 30), rng.choice(["in", "w"]), min(B, 9), B - 5, B + 5))
            u.t("L %s %d swa %s" % (s, rng.randrange(1 << 30), ",".join(str(rng.randrange(40 * B)) for _ in range(6))))
    c.validate("TraceU", c.record(dirs, "u", u.lines, "feeds"))
    return {"really_absorbed_bytes": huge(c, dirs, ["hmac/sha256=x6b6579", "hmac/siphash24=x6b6579"] if c.quick else ["hmac/%s=x6b6579" % a for a in ALGS])}


# ---------------------------------------------------------------------- C08 const and tagged SHA-256
CONST_MAIN = """
fn bytes(v: &[u8]) -> String { let t: Vec<String> = v.iter().map(|b| b.to_string()).collect(); format!("[{}]", t.join(",")) }
fn main() {
    use std::io::Write;
    let a: Vec<String> = std::env::args().collect();
    let mut w = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for (i, (m, d)) in HASHES.iter().enumerate() {
        writeln!(w, "{{\\"id\\":\\"const{}\\",\\"ev\\":[{{\\"op\\":\\"one\\",\\"rt\\":\\"const\\",\\"sort\\":\\"plain\\",\\"alg\\":\\"sha256\\",\\"k\\":[],\\"key\\":[],\\"d\\":{},\\"dig\\":{},\\"out\\":\\"ok\\"}}]}}", i, bytes(m), bytes(&d.to_byte_array())).unwrap();
    }
    for (i, (m, d)) in TAGS.iter().enumerate() {
        writeln!(w, "{{\\"id\\":\\"tag{}\\",\\"ev\\":[{{\\"op\\":\\"one\\",\\"rt\\":\\"mid\\",\\"sort\\":\\"tag\\",\\"alg\\":\\"sha256\\",\\"k\\":[],\\"key\\":{},\\"d\\":[],\\"dig\\":{},\\"out\\":\\"ok\\"}}]}}", i, bytes(m), bytes(&d.to_byte_array())).unwrap();
    }
    for (i, (t, m, d)) in tagged().iter().enumerate() {
        writeln!(w, "{{\\"id\\":\\"tagged{}\\",\\"ev\\":[{{\\"op\\":\\"one\\",\\"rt\\":\\"hash\\",\\"sort\\":\\"tag\\",\\"alg\\":\\"sha256\\",\\"k\\":[],\\"key\\":{},\\"d\\":{},\\"dig\\":{},\\"out\\":\\"ok\\"}}]}}", i, bytes(t), bytes(m), bytes(d)).unwrap();
    }
}
"""


def const_crate(c, rng):
    """A program whose digests are computed by the compiler."""
    def lit(b):
        return "&[" + ",".join(str(x) for x in b) + "]"
    lens = list(range(0, 131)) + [183, 184, 191, 192, 193, 247, 248, 256, 300, 513] if c.quick else list(range(0, 520))
    msgs = [bytes(rng.randrange(256) for _ in range(n)) for n in lens] + [b"\0" * 64, b"\xff" * 119, b"\x80" * 55]
    tags = [bytes(rng.randrange(256) for _ in range(n)) for n in [0, 1, 2, 9, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 118, 119, 120, 127, 128, 200]] + [b"TapLeaf", b"BIP0340/challenge"]
    src = ["#![allow(long_running_const_eval)]", "use chf::{sha256, sha256t, HashEngine as _};"]
    src.append("const HASHES: [(&[u8], sha256::Hash); %d] = [" % len(msgs))
    src += ["(%s, sha256::Hash::const_hash(%s))," % (lit(m), lit(m)) for m in msgs]
    src.append("];\nconst TAGS: [(&[u8], sha256::Midstate); %d] = [" % len(tags))
    src += ["(%s, sha256::Midstate::hash_tag(%s))," % (lit(t), lit(t)) for t in tags]
    src.append("];")
    body = []
    for i, t in enumerate(tags):
        src.append("#[derive(Clone)] struct T%d; impl sha256t::Tag for T%d { fn engine() -> sha256t::Engine<T%d> { const M: sha256::Midstate = sha256::Midstate::hash_tag(%s); sha256t::Engine::from_midstate(M, 64) } }" % (i, i, i, lit(t)))
        for n in (0, rng.randrange(1, 140)):
            m = bytes(rng.randrange(256) for _ in range(n))
            body.append("v.push((%s, %s, sha256t::Hash::<T%d>::hash(%s).to_byte_array()));" % (lit(t), lit(m), i, lit(m)))
            for make in ("Default::default()", "chf::HashEngine::new()", "sha256t::Hash::<T%d>::engine()" % i, "<T%d as sha256t::Tag>::engine()" % i):
                m = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 140)))
                body.append("{ let mut e: sha256t::Engine<T%d> = %s; e.input(%s); v.push((%s, %s, sha256t::Hash::from_engine(e).to_byte_array())); }" % (i, make, lit(m), lit(t), lit(m)))
    src.append("fn tagged() -> Vec<(&'static [u8], &'static [u8], [u8; 32])> { let mut v: Vec<(&'static [u8], &'static [u8], [u8; 32])> = vec![]; %s v }" % "\n".join(body))
    src.append(CONST_MAIN)
    return "\n".join(src)


def c08(c):
    c.model("KAT")
    c.model("MC_Pad")
    mc_chf(c, ["tag"])
    unbounded(c, "const")
    dirs = c.build(MAIN)
    rng = rng_of(c, "k")
    p = Plan("c")
    top = 200 if c.quick else 1500
    p.t("Y sha256 %d 0 %d 1 const,hash" % (rng.randrange(1 << 30), 3000 if c.quick else 20000))
    p.t("Y sha256 %d %d %d 67 const,h" % (rng.randrange(1 << 30), rng.randrange(67), 20000 if c.quick else 100000))
    p.t("Y sha256t=p%d:0:%d %d 0 %d 1 hash,eng,chunks,e,h" % (rng.randrange(1 << 20), rng.randrange(50), rng.randrange(1 << 30), 1500 if c.quick else 6000))
    p.t("Y sha256t=p%d:0:%d %d 0 %d 53 hash,eng,chunks,e,h" % (rng.randrange(1 << 20), rng.randrange(50), rng.randrange(1 << 30), 10000 if c.quick else 100000))
    for n in range(top + 1):
        p.t("H sha256 p%d:0:%d const,hash" % (rng.randrange(1 << 30), n))
    for n in around(64, 2, 256) + [53, 54, 55, 56, 57, 117, 118, 119, 120, 121]:
        for f in (0, 255, 128, 1):
            p.t("H sha256 f%d:%d const,hash" % (f, n))
    for _ in range(60 if c.quick else 1000):
        p.t("H sha256 p%d:0:%d const,hash" % (rng.randrange(1 << 30), rng.choice([rng.randrange(3000), rng.randrange(300)])))
    p.t("H sha256 p5:0:%d const" % (20000 + rng.randrange(64)))
    for bit in range(0, 512, 3 if c.quick else 1):
        m = bytearray(64)
        m[bit // 8] |= 1 << (bit % 8)
        p.t("H sha256 x%s const" % m.hex())
    for n in range(0, 140 if c.quick else 400):
        t = "p%d:0:%d" % (rng.randrange(1 << 20), n)
        p.t("G sha256t=%s mid x" % t, "H sha256t=%s p%d:0:%d hash,eng,chunks,fin" % (t, rng.randrange(1 << 20), rng.choice([0, 1, 55, 56, 63, 64, 65, rng.randrange(200)])))
    for n in [255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4096, 5000 + rng.randrange(64)] + ([] if c.quick else [16384, 65535, 65536, 65537]):
        t = "p%d:0:%d" % (rng.randrange(1 << 20), n)
        p.t("G sha256t=%s mid x" % t, "H sha256t=%s p%d:0:%d hash,eng" % (t, rng.randrange(1 << 20), rng.randrange(100)))
    for m in range(0, 200 if c.quick else 600):
        p.t("H sha256t=x5461704c656166 p%d:0:%d hash,eng,chunks,fin" % (rng.randrange(1 << 20), m))
    # engines of different tags side by side, made by every route
    for i in range(20 if c.quick else 200):
        ls = []
        for j in range(1, 7):
            n = rng.randrange(1, 80)
            ls += ["N %d sha256t=p%d:0:%d %s" % (j, rng.randrange(1 << 20), rng.choice([0, 1, 7, 32, 64, rng.randrange(200)]), ("new", "default", "engine", "trait")[(i + j) % 4]),
                   "I %d %s p%d:0:%d" % (j, rng.choice(["in", "w", "sw"]), j, n)]
        p.t(*(ls + ["O * nmd"] + ["F %d h" % j for j in range(1, 7)]))
    for rt in ("new", "default", "engine"):
        p.t("N 1 sha256t=x5461704c656166 %s" % rt, "O 1 nmd", "I 1 in p1:0:40", "O 1 nmd", "I 1 w p2:0:80", "O 1 nmd", "F 1 h")
    c.validate("TraceK", c.record(dirs, "k", p.lines, "const"))
    # long messages: const evaluator and tagged hash against the same message in one engine
    u = Plan("l")
    for n in [(1 << k) + d for k in range(10, 25 if c.quick else 28) for d in (-1, 0, 1, rng.randrange(64))]:
        u.t("G sha256 const p%d:0:%d" % (rng.randrange(1 << 30), n))
        if n < 1 << 22:
            u.t("G sha256t=p%d:0:%d %s p%d:0:%d" % (rng.randrange(1 << 20), rng.randrange(70), rng.choice(["hash", "eng", "chunks", "fin"]), rng.randrange(1 << 30), n))
    c.validate("TraceU", c.record({k: v for k, v in dirs.items() if k.endswith("rel")}, "u", u.lines, "long"))
    totals = [(1 << 29) + rng.randrange(99), (1 << 31) - 64 + rng.randrange(99), (1 << 32) + rng.randrange(99)] + ([] if c.quick else [(1 << 33) + 5, (1 << 34) + 77])
    ns = sorted({n + d for n in [1 << k for k in range(8, 20 if c.quick else 24)] for d in (-9, -1, 0, 1, 32, 55, 56, rng.randrange(200))})
    c.validate("TraceK", c.record({k: v for k, v in dirs.items() if k == "std-rel"}, "t" + ",".join(map(str, ns)), None, "longtags", binary="big", tail=["sha256t"], timeout=800))
    c.validate("TraceK", c.record({k: v for k, v in dirs.items() if k == "std-rel"}, "c" + ",".join(map(str, totals)), None, "huge", binary="big", timeout=800))
    src = const_crate(c, rng)
    c.notes.append("digests and tag midstates computed by the compiler in const items: see the consteval recordings")
    out = {}
    for cfg in ("std-dev", "nostd-small-dev"):
        if cfg in dirs:
            d = c.gen_crate("consteval", cfg, src)
            if d:
                out[cfg] = d
    c.validate("TraceK", c.record(out, "k", None, "consteval", binary="consteval"))


# ------------------------------------------------------------------------- C18 a user's own engines
def c18(c):
    for b in (2, 4, 6) if c.quick else (2, 4, 6, 8, 10):
        c.model("MC_Hmac", over={"ToyBlock": str(b), "MaxKey": str(2 * b + 3), "MaxMsg": str(2 * b + 3)}, name="MC_Hmac[block %d]" % b)
    mc_chf(c, ["hmac0", "hmac5", "hmach"])
    dirs = c.build(MAIN, extra=("user",))
    rng = rng_of(c, "k")
    p = Plan("u")

    def rnd(n, seed=None):
        return "p%d:0:%d" % (rng.randrange(1 << 20) if seed is None else seed, n)
    for b in USER:
        h, hh = "hmac/u%d" % b, "hmac/hmac/u%d" % b
        # the provided methods of the engine trait
        for n in sorted({0, 1, b - 1, b, b + 1, 2 * b, 3 * b + 1, rng.randrange(5 * b + 9)}):
            p.t("H u%d %s eng,chunks,hash,fin" % (b, rnd(n)))
        parts = [rng.choice([0, 0, 1, b, rng.randrange(2 * b + 1)]) for _ in range(6)]
        p.t("G u%d chunks %s" % (b, ",".join(rnd(n) for n in parts)))
        # every key length to beyond two blocks
        for n in list(range(0, b + 3)) + [2 * b - 1, 2 * b, 2 * b + 1, 128, 129, 200, 1000]:
            p.t("H %s=%s %s fin" % (h, rnd(n), rnd(rng.choice([0, 1, b - 1, b, b + 1, rng.randrange(3 * b + 1)]))))
        for n in sorted({0, 1, b - 1, b, b + 1, 2 * b, 2 * b + 1}):
            p.t("H %s=%s %s fin" % (hh, rnd(n), rnd(rng.randrange(3 * b + 1))))
        for f in (0, 0x36, 0x5c, 255):
            for n in (1, b, b + 1):
                p.t("H %s=f%d:%d %s fin" % (h, f, n, rnd(rng.randrange(b + 1))))
        # every message length, step by step, and capture at every count
        p.t("Y %s=%s %d 0 %d 1 e,h" % (h, rnd(rng.choice([0, 1, b, b + 1])), rng.randrange(1 << 30), 2 * b + 5))
        p.t("Y %s %d 0 %d %d e,h,eng,chunks" % (hh, rng.randrange(1 << 30), 3 * b + 2, max(1, b // 7)))
        for rt in ("default", "engine", "trait"):
            for s in (h, hh):
                p.t("N 1 %s %s" % (s, rt), "O 1 nmd", "I 1 in %s" % rnd(rng.randrange(2 * b + 2)), "O 1 nmd", "F 1 h")
        for s in ("%s=%s" % (h, rnd(3)), "%s=%s" % (h, rnd(b + 2)), h, "%s=%s" % (hh, rnd(b)), hh, "u%d" % b):
            for blocks in (0, 1, 2, rng.randrange(3, 40)):
                seed = rng.randrange(1 << 20)
                p.t("N 1 %s" % s, "I 1 in p%d:0:%d" % (seed, blocks * b), "M 1 1", "R 2 1 t", "O 1,2 nmd", "I 1 in p%d:9:%d" % (seed, b + 3), "I 2 w p%d:9:%d" % (seed, b + 3),
                    "O 1,2 nmd", "M 2 2", "R 3 2 t", "I 3 in p4:0:1", "O 3 nmd", "F 1 e", "F 2 h", "F 3 h")
    for b in USER_BIG:
        for n in (0, 1, 128, 129, b - 1, b, b + 1, 1000):
            p.t("N 1 hmac/u%d=%s" % (b, rnd(n)))
            p.t("N 1 hmac/hmac/u%d=%s" % (b, rnd(n)))
        for rt in ("default", "engine", "trait"):
            p.t("N 1 hmac/u%d %s" % (b, rt))
        p.t("H u%d %s eng,chunks,hash,fin" % (b, rnd(rng.randrange(3 * b))))
    # a user's tag may start after any number of blocks
    for blocks in (0, 1, 2, 3, 5):
        for n in (0, 1, 55, 56, 63, 64, 65, 200):
            s = "sha256pu=%s" % rnd(64 * blocks)
            p.t("H %s %s eng,chunks,hash,fin" % (s, rnd(n)))
            p.t("N 1 %s %s" % (s, rng.choice(["default", "engine", "trait"])), "O 1 nmd", "I 1 sw %s" % rnd(n), "C 1 2", "O 1,2 nmd", "F 1 e", "F 2 h")
    c.validate("TraceK", c.record(dirs, "k", p.lines, "user"))
    # histories
    q = Plan("g")
    routes = ["in", "w", "wa", "sw", "swa", "scp"]
    hs = gen_hists(c, 4)
    sorts = ["hmac/u%d=p3:0:%d" % (b, n) for b in USER for n in (2, b + 1)] + ["hmac/hmac/u%d=p5:0:%d" % (b, b) for b in USER]
    for i, h in enumerate(hs):
        for k in range(1 if c.quick else 6):
            s = sorts[(i * 7 + k * 11 + c.seed) % len(sorts)]
            q.t(*hist_lines(h, lambda _: s, i % 2 == 0, rng, routes))
    for h in gen_hists(c, 30, slots=3, regs=2, pieces="{0, 1, 2, 3, 4, 5, 6}", kinds="{1, 2, 3}", simulate=60 if c.quick else 600):
        mine = [rng.choice(sorts) for _ in range(3)]
        q.t(*hist_lines(h, lambda k: mine[k - 1], rng.random() < 0.4, rng, routes))
    c.validate("TraceK", c.record(dirs, "k", q.lines, "histories"))


MC = "model_checking"
CHECKS = {"C01": (MC, c01), "C02": (MC, c02), "C03": (MC, c03), "C04": (MC, c04), "C05": (MC, c05), "C06": (MC, c06), "C07": (MC, c07), "C08": (MC, c08),
          "C10": (MC, vals.c10), "C11": (MC, vals.c11), "C12": (MC, vals.c12), "C13": (MC, vals.c13), "C14": (MC, more.c14), "C15": (MC, more.c15), "C16": (MC, vals.c16), "C09": (MC, more.c09), "C17": (MC, more.c17), "C18": (MC, c18)}

_TK = "trace validation by TLC (TraceK: every recorded byte replayed through the TLA+ machine of Chf.tla with the real algorithms)"
_TU = "trace validation by TLC (TraceU: an engine is its absorbed content, digests uninterpreted)"
_TV = "trace validation by TLC (TraceV over Values.tla)"
_TRUST = " The models are exhaustive within their constants; conformance holds on the recorded executions, whose number and bounds are in the evidence. Trusted: TLC, rustc, the recorder."
NOTES = {
    "C01": ("TLC model MC_Pad (padding, real block sizes) and KAT (the TLA+ algorithms against published vectors); " + _TK,
            "Every length up to 3100 bytes (quick) step by step, every 61st up to 20 kB, chosen and random contents, five builds." + _TRUST),
    "C02": ("TLC model MC_Chf; " + _TK + " with resumption at every magnitude up to 2^61 and more than 2^32 bytes really absorbed",
            "Length fields are checked at resumed counts around every power of two from 2^8 to 2^61; one run per engine really passes 2^32 bytes." + _TRUST),
    "C03": ("TLC models MC_Chf and MC_Sip (all piece sequences of small instances); " + _TU + ", a share of it also by TraceK",
            "All pairs (buffered bytes, next piece) up to two blocks for every hash; other partitions sampled." + _TRUST),
    "C04": ("TLC model MC_Chf (frame condition in all interleavings); histories generated by TLC (GenHist, exhaustive to a depth, simulated beyond) replayed into the library, on one and eight threads; " + _TU,
            "All histories of depth 4 (quick) over two slots and one register for every engine sort; 36-step simulated histories over three slots." + _TRUST),
    "C05": ("TLC model MC_Chf over seven engine sorts (capture/resume); " + _TK + " and " + _TU + " on TLC-generated histories",
            "All residues of misaligned counts, prefixes of 0 to 1000 blocks, arbitrary midstates." + _TRUST),
    "C06": ("TLC model MC_Sip (tail word, unaligned loads) and KAT; " + _TK + "; " + _TU,
            "All lengths to 529 for two key pairs, corner and random keys otherwise, all (buffered, piece) pairs to 17 x 27." + _TRUST),
    "C07": ("TLC models MC_Hmac and MC_Chf (RFC 2104 against the pair of engines); " + _TK + "; " + _TU,
            "Every key length to one block and beyond for nine underlying hashes, keys to 64 kB, every message length step by step." + _TRUST),
    "C08": ("TLC models MC_Pad (const evaluator's padding), MC_Chf (tag) and KAT; " + _TK + ", including a generated program whose digests the compiler computes",
            "Every length to 3000 bytes at run time, 0 to 130 in const evaluation, tags to 139 bytes." + _TRUST),
    "C09": ("KAT; " + _TK + ", TraceC and TraceV: the same plan recorded in nine native builds, in all 64 feature subsets, and under Miri for big-endian and 32-bit targets and several sets of CPU features must be one and the same behaviour of the specification",
            "Foreign platforms are interpreted by Miri (s390x and i686, quick), so their inputs are few; whether a subset compiles is decided by cargo check, not by the specification." + _TRUST),
    "C10": ("TLC model MC_Codec; " + _TV, "All formatting parameters are sampled over their boundary values; parsing is tried on accepted and near-miss strings. One listed finding (hmac-fmt) is modelled as it is today and printed." + _TRUST),
    "C11": ("TLC model MC_Codec; " + _TV, "All lengths around each type's own, all index forms at their boundaries, all routes and views." + _TRUST),
    "C12": ("TLC model MC_Codec; " + _TV, "A data-model serialiser offering every kind of datum, and JSON, bincode and CBOR." + _TRUST),
    "C13": ("TLC model MC_Codec (order laws); " + _TV, "Pairs differing in every byte position, contrary later differences, word-order traps, sorted and hashed collections." + _TRUST),
    "C14": ("TLC model MC_CtEq (self-composition with a visible program counter, negative control); trace validation by TLC (TraceC) of results and of single-stepped instruction paths",
            "The executed instruction sequence is recorded by single-stepping real executions (release and debug); data addresses and micro-architectural timing are outside." + _TRUST),
    "C15": ("TLC model MC_Io (writers, write-all, copy and vectored loops, liveness, negative controls); call sequences generated by TLC (GenIo); " + _TU + "; " + _TK,
            "All pairs of operations, simulated sequences of 30, buffers to 4 MiB and one beyond 2^32 bytes." + _TRUST),
    "C16": ("TLC model MC_Codec; " + _TV + "; a JSON Schema validator's verdicts on probe documents are part of the trace",
            "Strings of the right length that mix hexadecimal and other characters are left open (the property does not speak of them)." + _TRUST),
    "C18": ("TLC models MC_Hmac (several block sizes) and MC_Chf; histories generated by TLC (GenHist); " + _TK + ", the underlying hash functions being a user's own (User.tla)",
            "Thirty user-defined engines with blocks of 1 to 257 bytes and digests of 1 to 128, every key length to a block and beyond; digests longer than a block are outside (RFC 2104 excludes them)." + _TRUST),
    "C17": ("TLC model MC_Sip (all loads inside the piece, negative control); " + _TK + ", TraceC and TraceV on recordings made against guard pages and under Miri",
            "Memory safety is observed (guard pages, Miri with Tree Borrows), the absence of panics is part of every trace specification." + _TRUST),
}
