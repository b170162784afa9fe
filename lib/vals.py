"""Plans and checks for hash values (C10 to C13, C16)."""
import json, os, random, subprocess
from core import Violation, Infra, VERIF

TYPES = {"sha1": 20, "sha256": 32, "sha384": 48, "sha512": 64, "sha512_256": 32, "ripemd160": 20, "siphash24": 8, "sha256t": 32,
         "midstate": 32, "hmac1": 1, "hmac5": 5, "hmac8": 8, "hmac20": 20, "hmac32": 32, "hmac48": 48, "hmac64": 64, "hmac100": 100, "hmac300": 300}
VCONFIGS = ["std-dev", "std-rel", "bare-rel"]


def hx(b):
    return "x" + bytes(b).hex()


def ht(s):
    return hx(s.encode("utf8"))


class VPlan:
    def __init__(self, prefix):
        self.lines, self.prefix, self.n = [], prefix, 0

    def t(self, ty, lines, per=60, head=()):
        """Traces of at most `per` lines each; head is repeated in every one."""
        for i in range(0, max(len(lines), 1), per):
            self.n += 1
            self.lines.append("T %s%d %s" % (self.prefix, self.n, ty))
            self.lines += list(head) + lines[i:i + per]


def rnd(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def values(rng, n, k):
    """Corner values and k random ones."""
    out = [bytes(n), b"\xff" * n, bytes((17 * i + 1) % 256 for i in range(n)), bytes((0xab + 0x1f * i) % 256 for i in range(n)),
           bytes([0x0a] * n), bytes([0xa0] * n), bytes(n - 1) + b"\x01", b"\x01" + bytes(n - 1)]
    return out + [rnd(rng, n) for _ in range(k)]


def in_finding(ty, n, tr, alt, p):
    """hmac::Hash formatting that the known finding is about."""
    if not ty.startswith("hmac") or tr == "debug":
        return False
    if alt:
        return True
    return p is not None and not (p % 2 == 0 and p <= 2 * n and (tr != "upper" or p == 2 * n))


def text_plan(c, rng, main, quirk):
    for ty, n in TYPES.items():
        vs = values(rng, n, 6 if c.quick else 60)
        head = ["B v%d arr %s" % (i, hx(v)) for i, v in enumerate(vs)]
        ls = ["R v%d %s" % (i, tr) for i in range(len(vs)) for tr in ("display", "lower", "upper")]
        ls += ["F v%d %s 32 n %d 0 - -" % (i, tr, alt) for i in range(len(vs)) for tr in ("display", "lower", "upper", "debug") for alt in (0, 1)
               if not in_finding(ty, n, tr, alt, None)]
        main.t(ty, ls, per=80, head=head)
        # formatting options
        h2 = ["B a arr %s" % hx(vs[2]), "B b arr %s" % hx(vs[-1]), "B c arr %s" % hx(vs[3])]
        W = sorted({0, 1, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 2 * n + 3, 2 * n + 4, 2 * n + 9, 3 * n + 6})
        P = [None] + sorted({0, 1, 2, 3, n, n + 1, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 6, 5 * n} - {-1})
        FA = [("32", "n")] + [(f, a) for f in ("32", "42", "48", "233") for a in "lcr"]
        combos = set()
        for tr in ("display", "lower", "upper"):
            for alt in (0, 1):
                for w in [None] + W:
                    for p in P:
                        combos.add((tr, "32", "n", alt, 0, w, p) if rng.random() < 0.5 or p is None or w is None else (tr,) + rng.choice(FA) + (alt, 0, w, p))
                for f, a in FA:
                    for z in (0, 1):
                        for w in rng.sample(W, 3) + [2 * n + 5, 2 * n + 6]:
                            combos.add((tr, f, a, alt, z, w, rng.choice(P)))
                            combos.add((tr, f, a, alt, z, w, None))
        for _ in range(60 if c.quick else 3000):
            f, a = rng.choice(FA)
            combos.add((rng.choice(["display", "lower", "upper", "debug"]), f, a, rng.randrange(2), rng.randrange(2), rng.randrange(0, 3 * n + 8), rng.choice([None, rng.randrange(0, 2 * n + 3)])))
        lm, lq = [], []
        for x in sorted(combos, key=str):
            tr, f, a, alt, z, w, p = x
            if ty.startswith("hmac") and z:
                continue
            (lq if in_finding(ty, n, tr, alt, p) else lm).append(
                "F %s %s %s %s %d %d %s %s" % (rng.choice("abc"), tr, f, a, alt, z if w is not None else 0, "-" if w is None else w, "-" if p is None else p))
        if c.quick:
            rng.shuffle(lm)
            lm = lm[:650]
            rng.shuffle(lq)
            lq = lq[:150]
        main.t(ty, lm, per=120, head=h2)
        if lq:
            quirk.t(ty, lq, per=120, head=h2)


BADC = [0, 9, 10, 32, 34, 43, 45, 47, 58, 64, 71, 72, 96, 103, 88, 120, 95, 127]


def strings(c, rng, n):
    """Strings to parse: accepted and refused ones."""
    out = []
    lower = lambda b: b.hex()
    vs = values(rng, n, 6)
    for v in vs:
        h = lower(v)
        out += [h, h.upper(), "".join(rng.choice((x, x.upper())) for x in h)]
    if n == 1:
        out += ["%02x" % i for i in range(256)] + ["%02X" % i for i in range(256)]
    h = lower(vs[-1])
    # one bad character, everywhere (or at a sample of places)
    pos = range(2 * n) if n <= 8 or not c.quick else sorted({0, 1, 2, 3, n - 1, n, 2 * n - 2, 2 * n - 1} | {rng.randrange(2 * n) for _ in range(12)})
    for i in pos:
        for ch in (BADC if i in (0, 1, 2 * n - 1, 2 * n - 2) or not c.quick else rng.sample(BADC, 5)):
            out.append(h[:i] + chr(ch) + h[i + 1:])
    # every ASCII character at one place
    k = rng.randrange(2 * n)
    out += [h[:k] + chr(ch) + h[k + 1:] for ch in range(128)]
    # lengths
    for ln in sorted({0, 1, 2, 3, n, n - 1, 2 * n - 2, 2 * n - 1, 2 * n + 1, 2 * n + 2, 3 * n, 4 * n, 4 * n + 1, 128, 1000}):
        s = (h * 1001)[:ln]
        out.append(s)
    # dressing
    out += [" " + h, h + " ", " " + h[1:], h[:-1] + " ", h + "\n", h[:-1] + "\n", "\t" + h[1:], "0x" + h, "0X" + h, "0x" + h[2:], "0X" + h[2:], "#" + h, "+" + h[1:], "-" + h[1:],
            '"' + h + '"', "'" + h + "'", h + "\0", h[:-1] + "\0", "\0" + h[1:], h[:-2] + "0x", h[:n] + "_" + h[n + 1:], h[:n] + ":" + h[n + 1:],
            " ".join(h[i:i + 2] for i in range(0, len(h), 2)), h[::-1] + "g"]
    # characters of several bytes: with as many characters, and with as many bytes
    for ch in ("é", "\uff11", "\U0001d7d9", "\u0661", "\u00b2", "ａ"):
        m = len(ch.encode())
        out += [ch + h[1:], h[:-1] + ch, ch * (2 * n)]
        if 2 * n >= m:
            out += [ch + h[m:], h[:-m] + ch, h[:n][:2 * n - m] + ch + h[n + m:] if n + m <= 2 * n else ch + h[m:]]
        out.append((ch * (2 * n))[:(2 * n) // m] + "0" * (2 * n - (2 * n) // m * m))
    for _ in range(20 if c.quick else 400):
        b = bytearray(rng.choice(b"0123456789abcdefABCDEF") for _ in range(2 * n))
        if rng.random() < 0.7:
            b[rng.randrange(2 * n)] = rng.randrange(128)
        out.append(b.decode())
    return out


def length_ladder(n, top):
    """All short lengths, and the right length plus every power of two."""
    return "0-3000," + ",".join(str((1 << k) + d) for k in range(12, top) for d in sorted({-1, 0, 1, n - 1, n, n + 1}))


def parse_plan(c, rng, p):
    for ty, n in TYPES.items():
        p.t(ty, ["A str z %s" % length_ladder(2 * n, 23), "A str m"])
        ss = strings(c, rng, n)
        ls = ["P %s %s" % (rng.choice(["fromstr", "fromstr", "parse"]), ht(s)) for s in ss]
        if ty == "midstate":
            ls += ["P fromhex %s" % ht(s) for s in ss]
        if ty == "hmac1" and not c.quick:
            ls += ["P fromstr %s" % hx([a, b]) for a in range(128) for b in range(128)]
        p.t(ty, ls, per=100)


def bytes_plan(c, rng, p):
    for ty, n in TYPES.items():
        vs = values(rng, n, 5 if c.quick else 40)
        for v in vs:
            ls = []
            for rt in ("arr", "slice", "ref", "mut", "clone", "zero", "default", "u64", "engine"):
                ls += ["B s %s %s" % (rt, hx(v))]
                if rt in ("u64", "default", "zero", "engine"):
                    ls += ["B s arr %s" % hx(v)] if rt in ("u64", "engine") else []
                ls += ["V s"]
            p.t(ty, ls, head=["B s arr %s" % hx(v)])
        # only some of the routes exist for every type; what the spec knows is the slot's last built value
        lens = sorted(set(list(range(0, n + 12)) + [2 * n - 1, 2 * n, 2 * n + 1, 3 * n, 63, 64, 65, 127, 128, 255, 256, 257, 256 + n, 512, 1000, 4096, 65536 - n if not c.quick else 4095]))
        p.t(ty, ["A slice z %s" % length_ladder(n, 36)])
        # the error as a value
        ns = [0, 1, n - 1, n, n + 1, 2 * n, 1000, rng.randrange(1 << 30)]
        es = [(a, b) for a in ns for b in ns] if not c.quick else [(rng.choice(ns), rng.choice(ns)) for _ in range(8)]
        p.t(ty, ["Y %d %d %d %d" % (a, b, x, y) for a, b in es for x, y in ((a, b), (b, a), (a, b + 1), (a + 1, b))])
        p.t(ty, ["L %s" % hx(rnd(rng, k)) for k in lens] + ["L %s" % hx(b"\0" * n), "L %s" % hx(b"\xff" * n)])
        head = ["B s arr %s" % hx(vs[2]), "B t arr %s" % hx(vs[-1])]
        big = (1 << 64) - 1
        ls = ["X s a 0 0"] + ["X t i %d 0" % i for i in list(range(n + 3)) + [2 * n, 255, 256, 1 << 32, 1 << 63, big]]
        at = sorted({0, 1, 2, n // 2, n - 1, n, n + 1, n + 2, 2 * n})
        for a in at:
            ls += ["X s f %d 0" % a, "X s t 0 %d" % a, "X t ti 0 %d" % a]
            for b in at:
                ls += ["X %s r %d %d" % (rng.choice("st"), a, b), "X %s ri %d %d" % (rng.choice("st"), a, b)]
        ls += ["X s f %d 0" % big, "X s t 0 %d" % big, "X s r %d %d" % (big, big), "X s r 0 %d" % big, "X s r %d 0" % big, "X s r 1 %d" % (1 << 32), "X s ti 0 %d" % (1 << 40)]
        if not c.quick:
            ls += ["X s r %d %d" % (a, b) for a in range(n + 2) for b in range(n + 2)]
        p.t(ty, ls, per=100, head=head)
        ls = []
        for lo in (0, 1, 3, 8):
            for hi in (0, 1, 5, 8):
                ls.append("U %s %d %d" % (rng.choice("st"), lo, hi))
        p.t(ty, ls + ["W"], head=head)


def cbor_head(major, k):
    return bytes([major + k]) if k < 24 else bytes([major + 24, k]) if k < 256 else bytes([major + 25]) + k.to_bytes(2, "big")


def data_plan(c, rng, p):
    """Serialisation."""
    kinds_s, kinds_b = ("str", "bstr", "string"), ("bytes", "bbytes", "buf")
    for ty, n in list(TYPES.items()) + [("down", 13)]:
        vs = values(rng, n, 5 if c.quick else 60)
        ls = []
        for i in range(len(vs)):
            ls += ["S v%d 1" % i, "S v%d 0" % i] + ["K v%d %s" % (i, f) for f in ("json", "jsonstr", "jsonrd", "jsonval", "bin", "binrd", "cbor")]
        p.t(ty, ls, per=90, head=["B v%d arr %s" % (i, hx(v)) for i, v in enumerate(vs)])
        p.t(ty, ["A t1str z %s" % length_ladder(2 * n, 23), "A t1bytes z %s" % length_ladder(2 * n, 23), "A b0bytes z %s" % length_ladder(n, 36), "A t1str m", "A t1bytes m"])
        ls = []
        ss = strings(c, rng, n)
        if c.quick:
            ss = ss[:24] + rng.sample(ss, 110)
        for s in ss:
            ls.append("D 1 %s %s" % (rng.choice(kinds_s), ht(s)))
            if rng.random() < 0.3:
                ls.append("D 1 %s %s" % (rng.choice(kinds_b), ht(s)))
            if rng.random() < 0.2:
                ls.append("D 0 %s %s" % (rng.choice(kinds_s + kinds_b), ht(s)))
        for k in sorted(set(list(range(0, n + 4)) + [2 * n - 1, 2 * n, 2 * n + 1, 4 * n, 256 + n, 1000])):
            for kind in kinds_b:
                ls.append("D 0 %s %s" % (kind, hx(rnd(rng, k))))
            ls.append("D 1 %s %s" % (rng.choice(kinds_b), hx(rnd(rng, k))))
            ls.append("D 1 seq %s" % hx(rnd(rng, k)))
            ls.append("D 0 seq %s" % hx(rnd(rng, k)))
        for v in vs[:4]:
            h = v.hex()
            for hr in (0, 1):
                ls += ["D %d %s %s" % (hr, k, ht(h)) for k in ("seqstr", "map", "some", "newtype", "char", "unit", "none", "u64", "i64", "f64", "u128", "bool", "u8") if k != "newtype" and k != "some"]
                ls += ["D %d bytes %s" % (hr, hx(v)), "D %d str %s" % (hr, ht(h)), "D %d buf %s" % (hr, ht(h)), "D %d seq %s" % (hr, hx(v)), "D %d seq %s" % (hr, ht(h))]
        p.t(ty, ls, per=120)
        # concrete formats: decoded datum and raw text
        ls = []
        v = vs[-1]
        h = v.hex()
        for s in rng.sample(ss, 25) + [h, h.upper(), h[:-1], h + "0", "", "0x" + h, h[:-1] + "é"]:
            for f in rng.sample(("json", "jsonstr", "jsonrd", "jsonval"), 2):
                esc = json.dumps(s)
                if rng.random() < 0.3:
                    esc = '"' + "".join("\\u%04x" % ord(x) if ord(x) < 0x10000 else x for x in s) + '"'
                ls.append("J %s str %s %s" % (f, ht(s), ht(esc)))
        for f in ("json", "jsonstr", "jsonrd", "jsonval"):
            for raw in ["null", "true", "0", "-1", "1.5e3", "[]", "{}", json.dumps([h]), json.dumps(list(v)), json.dumps({"hash": h}), json.dumps({h: h}), "", '"', '"' + h, h, "[" + ",".join(map(str, v)) + ",1]",
                        str(int.from_bytes(v, "big")), "'" + h + "'", '"%s" x' % h, '"\\ud800%s"' % h[6:]]:
                ls.append("J %s other x %s" % (f, ht(raw)))
        for k in (0, 1, n - 1, n, n + 1, 2 * n, 2 * n + 1):
            b = rnd(rng, k) if k != 2 * n else h.encode()
            for f in ("bin", "binrd"):
                ls.append("J %s bytes %s %s" % (f, hx(b), hx(k.to_bytes(8, "little") + b)))
            hd, td, ad = cbor_head(0x40, k), cbor_head(0x60, k), cbor_head(0x80, k)
            ls.append("J cbor bytes %s %s" % (hx(b), hx(hd + b)))
            asc = (h * 3)[:k].encode()
            ls.append("J cbor str %s %s" % (hx(asc), hx(td + asc)))
            sm = bytes(x % 24 for x in b)
            ls.append("J cbor other x %s" % hx(ad + sm))
        for raw in (b"", b"\0" * 7, b"\0" * 3, n.to_bytes(8, "little"), n.to_bytes(8, "little") + v[:-1], b"\xff" * 8, b"\xff" * 8 + v, (1 << 63).to_bytes(8, "little") + v, v):
            if raw == v and n in (1, 5):
                continue
            if raw == v:
                # as a length prefix this is random: only too long a length is meant
                raw = b"\xff" + v[:6] + b"\x7f" + v
            # bincode's reader front end allocates whatever the prefix says, so absurd lengths go to the slice front end only
            for f in ("bin", "binrd") if raw[5:8] in (b"", b"\0\0", b"\0\0\0") else ("bin",):
                ls.append("J %s other x %s" % (f, hx(raw)))
        for raw in (b"", b"\xf6", b"\xf5", b"\x00", b"\x18\x20", b"\xa0", b"\xf9\x3c\x00", b"\x58", cbor_head(0x40, n) + v[:-1], b"\x5b\xff\xff\xff\xff\xff\xff\xff\xff", b"\xff", b"\x80"):
            ls.append("J cbor other x %s" % hx(raw))
        p.t(ty, ls, per=120)


def order_plan(c, rng, p):
    for ty, n in TYPES.items():
        pairs = []
        # differences in every single byte, in both directions, and with a contrary later difference
        for i in range(n):
            a = bytearray(rnd(rng, n))
            b = bytearray(a)
            a[i], b[i] = rng.choice([(0, 1), (1, 0), (127, 128), (128, 127), (255, 0), (0, 255), (254, 255), (16, 1), (1, 16)])
            pairs.append((bytes(a), bytes(b)))
            if i + 1 < n:
                j = rng.randrange(i + 1, n)
                lo, hi = (a, b) if a[i] < b[i] else (b, a)
                lo[j], hi[j] = 255, 0
                pairs.append((bytes(a), bytes(b)))
            z = bytearray(n)
            z[i] = rng.choice([1, 128, 255])
            pairs.append((bytes(n), bytes(z)))
            if not c.quick:
                for bit in range(8):
                    b = bytearray(rnd(rng, n))
                    d = bytearray(b)
                    d[i] ^= 1 << bit
                    pairs.append((bytes(b), bytes(d)))
        for v in values(rng, n, 10):
            pairs.append((v, v))
        for _ in range(25 if c.quick else 400):
            pairs.append((rnd(rng, n), rnd(rng, n)))
        # word-wise and reversed orders would differ here
        if n >= 8:
            for k in (2, 4, 8):
                for off in range(0, n - k + 1, k):
                    a, b = bytearray(n), bytearray(n)
                    a[off], b[off + k - 1] = 1, 255
                    pairs.append((bytes(a), bytes(b)))
        ls = []
        for a, b in pairs:
            ls += ["B a %s %s" % (rng.choice(["arr", "slice", "ref"]) if ty != "midstate" else "arr", hx(a)), "B b arr %s" % hx(b), "E a b", "E b a", "E a a"]
        p.t(ty, ls, per=100)
        for _ in range(6 if c.quick else 60):
            k = rng.randrange(3, 20)
            base = rnd(rng, n)
            vs = []
            for _ in range(k):
                v = bytearray(base if rng.random() < 0.7 else rnd(rng, n))
                v[rng.randrange(n)] = rng.choice([0, 1, 127, 128, 255])
                vs.append(bytes(v))
            vs += rng.sample(vs, 2)
            p.t(ty, ["B v%d arr %s" % (i, hx(v)) for i, v in enumerate(vs)] + ["Z " + ",".join("v%d" % i for i in range(len(vs)))])


# ------------------------------------------------------------------------------------ schemas
PROBER = r"""
import sys, json, re
import jsonschema
reqs = json.load(open(sys.argv[1]))
out = []
for r in reqs:
    V = jsonschema.Draft7Validator
    V.check_schema(r["schema"])
    def at(kind, x):
        # the place where the value of interest stands in the document
        if kind == "vec": return [x]
        if kind in ("first", "last"):
            d = list(r["others"])
            d[0 if kind == "first" else -1] = x
            return d
        return x
    v = V(r["schema"])
    def path_ok(kind, x):
        errs = list(v.iter_errors(at(kind, x)))
        if kind in ("first", "last"):
            want = 0 if kind == "first" else len(r["others"]) - 1
            errs = [e for e in errs if list(e.absolute_path)[:1] == [want] or not list(e.absolute_path)]
        return not errs
    out.append({"probes": [path_ok(r["kind"], s) for s in r["probes"]], "nonstr": any(path_ok(r["kind"], x) for x in r["nonstr"])})
json.dump(out, open(sys.argv[2], "w"))
"""


def probe(c, recordings):
    """Replace each recorded schema by what a JSON Schema validator says about probe documents."""
    rng = random.Random("probe%d" % c.seed)
    for f in recordings:
        traces = [json.loads(l) for l in open(f)]
        reqs, where = [], []
        for t in traces:
            for e in t["ev"]:
                if e["out"] != "ok":
                    e.update(type="", min=0, max=0, probes=[], nonstr=False)
                    continue
                n = e["n"]
                s = [rnd(rng, n).hex(), rnd(rng, n).hex().upper(), "0" * 2 * n, "f" * 2 * n, "aA" * n, "9" * 2 * n]
                for k in sorted({0, 1, n, 2 * n - 2, 2 * n - 1, 2 * n + 1, 2 * n + 2, 4 * n, 40, 64, 96, 128, 16} - {2 * n}):
                    s.append((rnd(rng, 200).hex())[:k])
                s += ["g" * 2 * n, " " * 2 * n, "z" * (2 * n - 1), "-" * 2 * n, "é" * 2 * n, "\n" * 2 * n, "_" * (2 * n + 1), "G" * 2 * n, "@" * 2 * n, "`" * 2 * n, "/" * 2 * n, ":" * 2 * n]
                for _ in range(0 if c.quick else 60):
                    s.append(rnd(rng, n).hex())
                    s.append(rnd(rng, 200).hex()[:rng.randrange(300)])
                others = {"first": [None, "00" * 20, "00" * 32, "00" * 48, "00" * 64, "00" * 8, "00" * 20, "00" * 32],
                          "last": ["00" * 7, "00" * 64, "00" * 8, "00" * 20, "00" * 48, "00" * 32, "00" * 20, None]}.get(e["kind"])
                reqs.append({"schema": e["js"], "kind": e["kind"], "probes": s, "others": others, "nonstr": [None, 1, True, [], {}, 1.5, ["00"], list(range(n))]})
                where.append((e, s))
        qf, rf = os.path.join(c.dir, "probe.in"), os.path.join(c.dir, "probe.out")
        json.dump(reqs, open(qf, "w"))
        r = subprocess.run(["python3-vt", "-c", PROBER, qf, rf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Infra("schema prober: " + r.stdout[-1500:])
        for (e, s), a in zip(where, json.load(open(rf))):
            js = e.pop("js")
            e["type"] = js.get("type", "") if isinstance(js.get("type"), str) else "several"
            e["min"], e["max"] = js.get("minLength", -1), js.get("maxLength", -1)
            e["probes"] = [[[ord(x) for x in t], ok] for t, ok in zip(s, a["probes"])]
            e["nonstr"] = a["nonstr"]
        with open(f, "w") as fh:
            for t in traces:
                fh.write(json.dumps(t) + "\n")
    return recordings


def rng_of(c, salt):
    return random.Random("%s-%s-%d" % (c.pid, salt, c.seed))


def vbuild(c, extra=("serde",), cfgs=VCONFIGS):
    return c.build(list(cfgs), crate="vals", extra=extra)


def vrecord(c, dirs, plan, name):
    return c.record(dirs, "v", plan.lines, name, binary="val")


def known(c, key):
    """Is a finding listed in KNOWN_FINDINGS.txt?"""
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        if line.startswith("finding: property=%s key=%s " % (c.pid, key)):
            return line.split(" ", 3)[3].strip()
    return None


def mc_codec(c):
    """The laws of values, exhaustively for one-, two- and (thorough) three-byte types."""
    c.model("MC_Codec", name="MC_Codec[1]")
    c.model("MC_Codec", over={"N": "2", "Bytes": "{0, 15, 255}", "Alphabet": "{48, 70, 103}", "MaxText": "5"}, name="MC_Codec[2]")
    if not c.quick:
        c.model("MC_Codec", over={"N": "3", "Bytes": "{0, 128}", "Alphabet": "{48, 102, 96}", "MaxText": "6"}, name="MC_Codec[3]")


def c10(c):
    mc_codec(c)
    dirs = vbuild(c, extra=())
    rng = rng_of(c, "v")
    main, quirk, pp = VPlan("f"), VPlan("q"), VPlan("p")
    text_plan(c, rng, main, quirk)
    parse_plan(c, rng, pp)
    c.validate("TraceV", vrecord(c, dirs, main, "text"))
    c.validate("TraceV", vrecord(c, dirs, pp, "parse"))
    rec = vrecord(c, dirs, quirk, "hmac-text")
    what = known(c, "hmac-fmt")
    if what:
        try:
            c.validate("TraceV", rec, keep=True)
        except Violation:
            c.validate("TraceV", rec, env={"KNOWN": "hmac-fmt"})
            c.known.append(what)
    else:
        c.validate("TraceV", rec)


def c11(c):
    mc_codec(c)
    dirs = vbuild(c, extra=())
    p = VPlan("b")
    bytes_plan(c, rng_of(c, "v"), p)
    c.validate("TraceV", vrecord(c, dirs, p, "bytes"))


def c12(c):
    mc_codec(c)
    dirs = vbuild(c)
    p = VPlan("d")
    data_plan(c, rng_of(c, "v"), p)
    c.validate("TraceV", vrecord(c, dirs, p, "serde"))


def c13(c):
    mc_codec(c)
    dirs = vbuild(c, extra=())
    p = VPlan("o")
    order_plan(c, rng_of(c, "v"), p)
    c.validate("TraceV", vrecord(c, dirs, p, "order"))


def c16(c):
    mc_codec(c)
    dirs = vbuild(c, extra=("serde", "schemars"), cfgs=["std-dev", "bare-rel"])
    p = VPlan("j")
    for ty in TYPES:
        p.t(ty, ["Q self", "Q vec", "Q first", "Q last"])
    c.validate("TraceV", probe(c, vrecord(c, dirs, p, "schema")))
    # the lengths deserialisation demands, for the same types
    rng = rng_of(c, "v")
    q = VPlan("d")
    for ty, n in TYPES.items():
        ls = []
        for k in sorted({0, 2, n, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 4 * n, 16, 40, 64, 96, 128}):
            ls.append("D 1 str %s" % ht(rnd(rng, 200).hex()[:k]))
            ls.append("J json str %s %s" % (ht("0" * k), ht('"%s"' % ("0" * k))))
        q.t(ty, ["B v arr %s" % hx(rnd(rng, n)), "S v 1", "K v json"] + ls)
    c.validate("TraceV", vrecord(c, dirs, q, "lengths"))
