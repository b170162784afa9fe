"""Plans: what the recorders execute.  All random choices come from the given random.Random."""
import json, re

HASHES = ["sha1", "sha256", "sha384", "sha512", "sha512_256", "ripemd160"]
BLOCK = {"sha1": 64, "sha256": 64, "sha384": 128, "sha512": 128, "sha512_256": 128, "ripemd160": 64, "siphash24": 8}
MIDLEN = {"sha1": 20, "sha256": 32, "sha384": 64, "sha512": 64, "sha512_256": 64, "ripemd160": 20}
LENLEN = {"sha1": 8, "sha256": 8, "sha384": 16, "sha512": 16, "sha512_256": 16, "ripemd160": 8}
NESTED = ["sha256t", "hmac/sha256"]  # what HMAC is instantiated with besides the plain hash functions
ALGS = HASHES + ["siphash24"]
# a user's engines (harness/src/user.rs, spec/User.tla): block sizes HMAC must take, and ones it must refuse
USER = [1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 32, 33, 48, 63, 64, 65, 72, 96, 100, 104, 112, 120, 127, 128]
USER_BIG = [129, 136, 144, 192, 256, 257]
BLOCK.update({"u%d" % b: b for b in USER + USER_BIG})
BLOCK["sha256pu"] = 64
K0, K1 = 0x0706050403020100, 0x0f0e0d0c0b0a0908


def alg_of(sort):
    n = sort.split("=")[0].split(":")[0]
    n = n.replace("hmac/", "")
    return "sha256" if n == "sha256t" else n


def block(sort):
    return BLOCK[alg_of(sort)]


def keyed(key="x6b6579", tag="x746167"):
    """One sort of every kind."""
    return HASHES + ["siphash24:%d:%d" % (K0, K1), "sha256t=" + tag] + ["hmac/%s=%s" % (a, key) for a in ALGS + NESTED]


class Plan:
    def __init__(self, prefix):
        self.lines, self.prefix, self.n = [], prefix, 0

    def t(self, *lines):
        """One trace."""
        self.n += 1
        self.lines.append("T %s%d" % (self.prefix, self.n))
        self.lines.extend(lines)

    def __iadd__(self, other):
        self.lines += other.lines
        self.n += other.n
        return self


def around(b, span, upto):
    s = set()
    for m in range(0, upto + 1, b):
        for d in range(-span, span + 1):
            if 0 <= m + d <= upto:
                s.add(m + d)
    return sorted(s)


def pieces_of(sort):
    """Piece lengths for the abstract pieces of generated histories."""
    b = block(sort)
    return {0: 0, 1: 1, 2: b - 1, 3: b, 4: b + 1, 5: 2 * b + 3, 6: b // 2, 7: 9 * b + 5}


def hists(out):
    r = []
    for m in re.finditer(r'^"HIST (.*)"$', out, re.M):
        r.append(json.loads(m.group(1).replace('\\"', '"')))
    return r


ROUTES_STD = ["in", "w", "wa", "sw", "swa", "scp", "sv", "sby"]


def hist_lines(h, sort_of, dense, rng, routes=("in",), fin="eh"):
    """Concretise a generated history: q -> sort, abstract pieces -> stream bytes.  Every engine
    draws from a stream of its own, continued at the engine's message length, so that different
    engines have different contents and clones share a prefix."""
    lines, seed, off, sorts, regs, pos = [], {}, {}, {}, {}, {}
    nseed = 1
    for o in h:
        op = o["op"]
        if op == "new":
            q = sort_of(o["q"])
            rt = rng.choice(["new", "new", "default", "engine"]) if ("=" not in q or q.startswith("sha256t")) and ":" not in q else "new"
            lines.append("N %d %s %s" % (o["s"], q, rt))
            nseed += 1
            seed[o["s"]], sorts[o["s"]], pos[o["s"]] = nseed, q, 0
        elif op == "in":
            s = o["s"]
            k = pieces_of(sorts[s])[o["p"]]
            lines.append("I %d %s p%d:%d:%d" % (s, rng.choice(routes), seed[s], pos[s], k))
            pos[s] += k
        elif op == "clone":
            lines.append("C %d %d%s" % (o["s"], o["d"], " cf" if rng.random() < 0.5 else ""))
            seed[o["d"]], sorts[o["d"]], pos[o["d"]] = (o["d"] + 100 + nseed), sorts[o["s"]], pos[o["s"]]
            nseed += 1
        elif op == "drop":
            lines.append("X %d" % o["s"])
        elif op == "cap":
            lines.append("M %d %d" % (o["s"], o["r"]))
            regs[o["r"]] = (seed[o["s"]], sorts[o["s"]], pos[o["s"]])
        elif op == "res":
            lines.append("R %d %d t%s" % (o["s"], o["r"], " i" if rng.random() < 0.5 else ""))
            nseed += 1
            seed[o["s"]], sorts[o["s"]], pos[o["s"]] = nseed, regs[o["r"]][1], regs[o["r"]][2]
        elif op == "fin":
            lines.append("F %d %s" % (o["s"], rng.choice(fin)))
        elif op == "obs":
            lines.append("O *")
        if dense and op not in ("obs",):
            lines.append("O *")
    if not dense:
        lines.append("O *")
    return lines
