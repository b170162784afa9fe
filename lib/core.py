"""Machinery shared by all checks: build the recorders from /repo's working tree, run them,
run TLC, turn a rejection into a VIOLATION line and a replay file, write the evidence."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(VERIF, ".cache")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

# name -> (features of the harness crates, cargo profile)
CONFIGS = {
    "std-dev": (["std"], "dev"),                        # hardware SHA-256, debug assertions
    "std-rel": (["std"], "release"),                    # what most users run
    "nostd-rel": (["io"], "release"),                   # portable code, unrolled rounds
    "nostd-small-dev": (["io", "small-hash"], "dev"),   # portable code, compact rounds
    "std-small-rel": (["std", "small-hash"], "release"),
    "nostd-small-rel": (["io", "small-hash"], "release"),
    "nostd-dev": (["io"], "dev"),
    "bare-rel": ([], "release"),
    "alloc-dev": (["alloc"], "dev"),
}
MAIN = ["std-dev", "std-rel", "nostd-rel", "nostd-small-dev", "std-small-rel"]


class Infra(Exception):
    """The check itself could not run (exit 2)."""


class Violation(Exception):
    def __init__(self, what, detail=None, files=()):
        Exception.__init__(self, what)
        self.what, self.detail, self.files = what, detail, list(files)


def sh(cmd, env=None, timeout=None, cwd=None, input=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, timeout=timeout, cwd=cwd, input=input, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(CACHE, "run", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = self.observations = 0
        self.models, self.samples, self.notes, self.parts = [], [], [], []
        self.known = []
        self.built = {}
        self.procs = []

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- building
    def build_one(self, cfg, crate="harness", extra=(), rustflags=None, toolchain=None):
        feats, prof = CONFIGS[cfg]
        cmd = ["cargo"] + ([toolchain] if toolchain else []) + ["build", "--offline", "-q",
               "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml")]
        f = list(feats) + list(extra)
        if f:
            cmd += ["--features", ",".join(f)]
        if prof == "release":
            cmd.append("--release")
        tgt = os.path.join(CACHE, "target", crate + "-" + cfg)
        env = {"CARGO_TARGET_DIR": tgt}
        if rustflags:
            env["RUSTFLAGS"] = rustflags
        rc, o, e = sh(cmd, env=env, timeout=600)
        return rc, o + e, os.path.join(tgt, "release" if prof == "release" else "debug")

    def repo_builds(self, feats):
        """Does /repo's crate itself compile with these features (through a crate that only depends on it)?"""
        tgt = os.path.join(CACHE, "target", "featcheck-fb")
        f = [x for x in feats if x in ("std", "alloc", "io", "small-hash", "serde", "schemars")]
        cmd = ["cargo", "check", "--offline", "-q", "--manifest-path", os.path.join(VERIF, "featcheck", "Cargo.toml")]
        if f:
            cmd += ["--features", ",".join(f)]
        rc, o, e = sh(cmd, env={"CARGO_TARGET_DIR": tgt}, timeout=600)
        return rc == 0, o + e

    def build(self, cfgs, crate="harness", extra=()):
        """Build the crate for several configurations; returns {cfg: directory of binaries}."""
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda c: (c,) + self.build_one(c, crate, extra), cfgs))
        out = {}
        for c, rc, log, d in res:
            if rc == 0:
                out[c] = d
                continue
            ok, rlog = self.repo_builds(list(CONFIGS[c][0]) + list(extra))
            if ok:
                p = os.path.join(self.dir, "build-%s-%s.log" % (crate, c))
                open(p, "w").write(log)
                raise Violation("the public interface this property speaks about no longer compiles for a caller (%s, %s)" % (crate, c),
                                log[-3000:], [p])
            self.notes.append("configuration %s of /repo does not compile; left to C09" % c)
            self.log("configuration", c, "does not build:", rlog.strip().splitlines()[:3])
        if not out:
            raise Infra("no configuration of /repo builds:\n" + res[0][2][-2000:])
        return out

    def gen_crate(self, name, cfg, src, feats=None, prof=None):
        """Build a generated program against /repo (in the cache directory)."""
        f, pr = CONFIGS[cfg]
        f, pr = (feats if feats is not None else f), (prof or pr)
        d = os.path.join(CACHE, "gen", name + "-" + cfg)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        with open(os.path.join(d, "Cargo.toml"), "w") as fh:
            fh.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nchf = { path = "%s", default-features = false, features = %s }\n[profile.dev]\ndebug = false\n'
                     % (name, REPO, json.dumps([x for x in f])))
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        with open(os.path.join(d, "src", "main.rs"), "w") as fh:
            fh.write(src)
        tgt = os.path.join(CACHE, "target", name + "-" + cfg)
        cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(d, "Cargo.toml")] + (["--release"] if pr == "release" else [])
        rc, o, e = sh(cmd, env={"CARGO_TARGET_DIR": tgt}, timeout=700)
        if rc == 0:
            return os.path.join(tgt, "release" if pr == "release" else "debug")
        ok, rlog = self.repo_builds(f)
        if not ok:
            self.notes.append("configuration %s of /repo does not compile; left to C09" % cfg)
            return None
        p = os.path.join(self.dir, "build-%s-%s.log" % (name, cfg))
        open(p, "w").write(e)
        raise Violation("program %s no longer compiles against /repo (%s)" % (name, cfg), e[-3000:], [p])

    # --------------------------------------------------------------- recording
    def record(self, dirs, mode, plan, name, binary="rec", tail=(), timeout=None):
        """Run the recorder in every configuration on a plan. Returns {trace file: [configurations]} with one
        entry per distinct recording."""
        pf = os.path.join(self.dir, name + ".plan")
        if plan is not None:
            with open(pf, "w") as f:
                f.write("\n".join(plan) + "\n")

        def one(c):
            of = os.path.join(self.dir, "%s.%s.ndjson" % (name, c))
            rc, o, e = sh([os.path.join(dirs[c], binary), mode] + ([pf] if plan is not None else []) + [of] + list(tail), timeout=timeout or (300 if self.quick else 3000))
            return c, of, rc, e
        groups = {}
        with ThreadPoolExecutor(NCPU) as ex:
            for c, of, rc, e in ex.map(one, list(dirs)):
                if rc != 0:
                    self.crashed(c, rc, e, pf if plan is not None else None, plan)
                h = hashlib.sha256(open(of, "rb").read()).hexdigest()
                groups.setdefault(h, []).append((of, c))
        res = {}
        for g in groups.values():
            res[g[0][0]] = [c for _, c in g]
            for of, _ in g[1:]:
                os.remove(of)
        if len(res) > 1:
            self.log("recordings differ between configurations:", list(res.values()))
        return res

    def record_sharded(self, dirs, mode, plan, name, binary, timeout=None):
        """Like record, for slow recorders: the traces of the plan are spread over parallel processes, and
        recordings of different configurations are kept apart."""
        traces = split_traces(plan)
        jobs = []
        for c in dirs:
            k = max(1, NCPU // len(dirs))
            for i in range(k):
                mine = [x for t in traces[i::k] for x in t]
                if mine:
                    jobs.append((c, i, mine))

        def one(j):
            c, i, mine = j
            pf = os.path.join(self.dir, "%s.%s.%d.plan" % (name, c, i))
            of = os.path.join(self.dir, "%s.%s.%d.ndjson" % (name, c, i))
            open(pf, "w").write("\n".join(mine) + "\n")
            rc, o, e = sh([os.path.join(dirs[c], binary), mode, pf, of], timeout=timeout or (300 if self.quick else 3000))
            return c, i, pf, of, rc, e, mine
        with ThreadPoolExecutor(NCPU) as ex:
            done = list(ex.map(one, jobs))
        res = {}
        for c in dirs:
            f = os.path.join(self.dir, "%s.%s.ndjson" % (name, c))
            with open(f, "w") as w:
                for c2, i, pf, of, rc, e, mine in done:
                    if c2 == c:
                        if rc != 0:
                            self.crashed(c, rc, e, pf, mine)
                        w.write(open(of).read())
                        os.remove(of)
            res[f] = [c]
        return res

    # -------------------------------------------------------------------- Miri
    def end(self, q):
        """End a background process and its children."""
        try:
            os.killpg(q.pid, signal.SIGKILL)
        except OSError:
            pass

    def miri_sysroot(self, target=None):
        root = os.path.join(CACHE, "miri-" + (target or "host"))
        cmd = ["cargo", "+nightly", "miri", "setup", "-q"] + (["--target", target] if target else [])
        rc, o, e = sh(cmd, env={"MIRI_SYSROOT": root, "CARGO_TARGET_DIR": os.path.join(CACHE, "target", "miri-setup-" + (target or "host"))}, timeout=400)
        if rc != 0:
            raise Infra("miri setup failed (%s): %s" % (target, (o + e)[-1500:]))
        return root

    def miri(self, name, jobs, feats=("std",), crate="harness", target=None, rustflags=None, shards=4, timeout=800, ub=True, flags=""):
        """Run recorders under Miri. jobs: [(binary, mode, plan lines)]. Returns {recording: [configuration]} per job,
        in order. Undefined behaviour is a violation (unless ub is False: then it is noted and the recording is None)."""
        root = self.miri_sysroot(target)
        env = {"MIRI_SYSROOT": root, "CARGO_TARGET_DIR": os.path.join(CACHE, "target", "miri-%s-%s" % (crate, name)),
               "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks " + flags}
        if rustflags:
            env["RUSTFLAGS"] = rustflags

        def cmd(binary, mode, pf, of):
            return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml"), "--bin", binary] + \
                (["--features", ",".join(feats)] if feats else []) + (["--target", target] if target else []) + ["--", mode, pf, of]

        def one(j):
            k, i, binary, mode, lines = j
            b = os.path.join(self.dir, "%s.%d.%d" % (name, k, i))
            open(b + ".plan", "w").write("\n".join(lines) + "\n")
            with open(b + ".log", "w") as lf:
                e = dict(os.environ)
                e.pop("RUSTFLAGS", None)
                e.update(env)
                if flags:
                    e["MIRIFLAGS"] += " -Zmiri-seed=%d" % (self.seed * 64 + i)
                q = subprocess.Popen(cmd(binary, mode, b + ".plan", b + ".ndjson"), env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
                self.procs.append(q)
                try:
                    rc = q.wait(timeout)
                except subprocess.TimeoutExpired:
                    rc = 124
                self.end(q)
            return k, b, rc
        work = []
        for k, (binary, mode, plan) in enumerate(jobs):
            tr = split_traces(plan)
            work += [(k, i, binary, mode, [x for t in tr[i::shards] for x in t]) for i in range(min(shards, len(tr)))]
        # compile once, then in parallel
        first = {}
        for w in work:
            first.setdefault(w[2], (w[0], 999, w[2], w[3], []))
        for w in first.values():
            k, b, rc = one(w)
            if rc != 0:
                log = open(b + ".log", errors="replace").read()
                if "could not compile `chf`" in log:
                    if self.pid == "C09":
                        raise Violation("the library does not compile for %s (features: %s)" % (target or "this host", ",".join(feats)), log[-3000:], [b + ".log"])
                    self.notes.append("Miri build %s does not compile" % name)
                    self.log("Miri build", name, "does not compile:", log[-300:])
                    return [None for _ in jobs]
                raise Infra("Miri run %s failed to start: %s" % (name, log[-1500:]))
        with ThreadPoolExecutor(shards) as ex:
            done = list(ex.map(one, work))
        res = []
        for k in range(len(jobs)):
            f, bad = os.path.join(self.dir, "miri-%s-%d.ndjson" % (name, k)), False
            with open(f, "w") as w:
                for k2, b, rc in done:
                    if k2 != k:
                        continue
                    log = open(b + ".log", errors="replace").read()
                    if rc == 0:
                        w.write(open(b + ".ndjson").read())
                        os.remove(b + ".ndjson")
                    elif "Undefined Behavior" in log:
                        if ub:
                            m = re.search(r"error: Undefined Behavior.*", log)
                            raise Violation("undefined behaviour under Miri (%s): %s" % (name, m.group(0)[:300]), log[:3000], [b + ".log", b + ".plan"])
                        self.notes.append("Miri %s reports undefined behaviour; left to C17" % name)
                        bad = True
                    elif "unsupported operation" in log:
                        self.notes.append("Miri %s: unsupported operation, recording skipped: %s" % (name, re.search(r"unsupported operation.*", log).group(0)[:200]))
                        self.log(self.notes[-1])
                        bad = True
                    else:
                        raise Infra("Miri run %s failed (rc=%s): %s" % (name, rc, log[-1500:]))
            res.append(None if bad else {f: ["miri " + name]})
        return res

    def crashed(self, cfg, rc, err, pf, plan):
        m = re.search(r"CRASH signal=(\d+) line=(\d+)", err or "")
        if rc == 124:
            raise Violation("an operation does not terminate (recorder timed out, configuration %s)" % cfg, err[-500:], [pf] if pf else [])
        if m:
            ln = int(m.group(2))
            raise Violation("signal %s in configuration %s: an operation crashed at plan line %d: %s" %
                            (m.group(1), cfg, ln, plan[ln - 1] if plan and 0 < ln <= len(plan) else "?"), None, [pf] if pf else [])
        if rc < 0:
            raise Violation("recorder killed by signal %d in configuration %s" % (-rc, cfg), (err or "")[-500:], [pf] if pf else [])
        raise Infra("recorder failed (%s, rc=%d): %s" % (cfg, rc, (err or "")[-800:]))

    # --------------------------------------------------------------------- TLC
    def cfg_file(self, module, cfg, over):
        """The configuration file, with some constants replaced."""
        path = os.path.join(SPEC, (cfg or module) + ".cfg")
        if not over:
            return path
        t = open(path).read()
        for k, v in over.items():
            t, n = re.subn(r"(?m)^(\s*%s =).*$" % k, lambda m: m.group(1) + " " + v, t)
            if n != 1:
                raise Infra("no constant %s in %s" % (k, path))
        self.ncfg = getattr(self, "ncfg", 0) + 1
        path = os.path.join(self.dir, "%s-%d.cfg" % (module, self.ncfg))
        open(path, "w").write(t)
        return path

    def tlc(self, module, cfg=None, env=None, workers=None, args=(), timeout=800, jvm=(), over=None):
        meta = os.path.join(self.dir, "tlc-%s-%d" % (module, int(time.time() * 1000) % 10 ** 9))
        cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Djava.io.tmpdir=" + self.dir] + list(jvm) + ["-cp", JAR, "tlc2.TLC", "-workers", str(workers or NCPU),
               "-config", self.cfg_file(module, cfg, over), "-metadir", meta, "-noGenerateSpecTE"] + list(args) + \
              [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        rc, o, e = sh(cmd, env=env, timeout=timeout, cwd=self.dir)
        shutil.rmtree(meta, ignore_errors=True)
        out = "\n".join(x for x in o.splitlines() if not x.startswith(("Linting", "Parsing", "Semantic")))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        r = {"rc": rc, "out": out, "err": e, "wall": time.time() - t,
             "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
             "ok": rc == 0 and "No error has been found" in out}
        return r

    def model(self, module, cfg=None, workers=None, timeout=600, args=(), over=None, name=None):
        """Exhaustive check of a model: the specification itself must satisfy the property."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, args=args, over=over)
        name = name or cfg or module
        if not r["ok"]:
            raise Infra("model %s failed (the specification is inconsistent, or TLC could not run):\n%s\n%s" % (name, r["out"][-3000:], r["err"][-500:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": name, "states": r["distinct"], "transitions": r["generated"], "wall_s": round(r["wall"], 1)})
        self.log("model", name, r["distinct"], "states", "%.1fs" % r["wall"])
        return r

    def control(self, module, what, over, cfg=None):
        """A model with a deliberately wrong variant: TLC must find the violation, or the model cannot see it."""
        r = self.tlc(module, cfg, over=over)
        if "is violated" not in r["out"] and "was violated" not in r["out"]:
            raise Infra("negative control %s of %s was not rejected:\n%s" % (what, module, r["out"][-1500:]))
        self.models.append({"model": module, "negative_control": what, "rejected": True, "wall_s": round(r["wall"], 1)})
        self.log("negative control rejected:", module, what)

    def inductive(self, module, cinit, init, nxt, inv, control=None):
        """Apalache: the invariant holds initially and is preserved by every step from any state (unbounded integers).
        init = None: the invariant itself is what is claimed of every initial state `nxt`. control: must be refuted."""
        import shutil
        t0 = time.time()
        runs = [("base", init, 0)] + ([("step", inv, 1)] if nxt else []) if not control else [("control", inv if nxt else init, 1 if nxt else 0)]

        def one(r):
            what, i, n = r
            d = os.path.join(self.dir, "apalache-%s-%s-%s" % (cinit, inv, what))
            cmd = ["apalache-mc", "check", "--out-dir=" + d, "--cinit=" + cinit, "--init=" + i, "--next=" + (nxt or "Stay"), "--inv=" + inv,
                   "--length=%d" % n, os.path.join(VERIF, "spec", module + ".tla")]
            rc, o, e = sh(cmd, timeout=400, env={"JVM_ARGS": "-Xmx2g"})
            shutil.rmtree(d, ignore_errors=True)
            return what, rc, o + e
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            for what, rc, o in ex.map(one, runs):
                if control and not (rc == 12 and "violated" in o):
                    raise Infra("negative control %s of %s was not refuted:\n%s" % (control, module, o[-1500:]))
                if not control and rc != 0:
                    raise Infra("%s of %s in %s (%s) failed:\n%s" % (what, inv, module, cinit, o[-1500:]))
        w = round(time.time() - t0, 1)
        if control:
            self.models.append({"model": "%s[%s]" % (module, inv), "negative_control": control, "rejected": True, "wall_s": w})
            self.log("negative control refuted:", module, inv, control)
        else:
            self.models.append({"model": "%s[%s,%s]" % (module, inv, cinit), "method": "inductive invariant over unbounded integers (Apalache)", "wall_s": w})
            self.log("inductive", module, inv, cinit, "%.1fs" % w)

    def validate(self, module, recordings, cfg=None, timeout=800, env=None, keep=False):
        """Check recordings against a trace specification. recordings: {file: [configurations]}."""
        for f, cfgs in recordings.items():
            n, ev, obs, sample = 0, 0, 0, None
            with open(f) as fh:
                for line in fh:
                    n += 1
                    t = json.loads(line)
                    ev += len(t["ev"])
                    for x in t["ev"]:
                        obs += max([1] + [len(x[k]) for k in ("f", "o", "digs", "probes") if isinstance(x.get(k), list)])
                    if sample is None and t["ev"]:
                        sample = {"trace": t["id"], "configurations": cfgs, "events": [trim(x) for x in t["ev"][:4]]}
            if n == 0:
                raise Infra("empty recording " + f)
            r = self.tlc(module, cfg, env=dict(env or {}, TRACE=f), timeout=timeout)
            if "is violated" in r["out"]:
                self.rejected(module, f, cfgs, r)
            # an event the specification cannot even evaluate is not one of its behaviours
            if "The error occurred when TLC was evaluating" in r["out"] and "tid = " in r["out"] and not re.search("OutOfMemory|StackOverflow", r["out"] + r["err"]):
                self.rejected(module, f, cfgs, r, stuck=True)
            if not r["ok"]:
                raise Infra("TLC failed on %s / %s:\n%s\n%s" % (module, f, r["out"][-2500:], r["err"][-500:]))
            if r["distinct"] != n + ev:
                raise Infra("TLC visited %d states for %d traces with %d events: vacuous validation" % (r["distinct"], n, ev))
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.traces += n * len(cfgs)
            self.observations += obs * len(cfgs)
            if sample and len(self.samples) < 12:
                self.samples.append(sample)
            self.parts.append({"spec": module, "recording": os.path.basename(f), "configurations": cfgs, "traces": n, "events": ev, "observations": obs,
                               "wall_s": round(r["wall"], 1)})
            self.log("validated", os.path.basename(f), "x", len(cfgs), "configurations:", n, "traces", ev, "events", "%.1fs" % r["wall"])
            if os.path.getsize(f) > 4 << 20 and not keep:
                os.remove(f)

    def rejected(self, module, f, cfgs, r, stuck=False):
        st = re.split(r"(?m)^State \d+:", r["out"])[-1]
        num = [re.search(r"(?m)^(?:/\\ )?%s = (\d+)" % x, st) or re.search(r"\b%s = (\d+)" % x, r["out"]) for x in ("tid", "l")]
        tid, l = [int(x.group(1)) if x else 1 for x in num]
        l -= 0 if stuck else 1
        m = re.search(r"(?m)^(?:/\\ )?err = (.*?)(?=\n/\\|\n\n|\Z)", st, re.S)
        err = re.sub(r"\s+", " ", m.group(1)) if m else "?"
        if stuck:
            err = "no transition of the specification is defined for this event: " + re.sub(r"\s+", " ", r["out"])[:800]
        with open(f) as fh:
            for i, line in enumerate(fh, 1):
                if i == tid:
                    t = json.loads(line)
                    break
        rf = os.path.join(self.dir, "rejected.ndjson")
        open(rf, "w").write(json.dumps(t) + "\n")
        raise Violation("%s rejects trace %s at event %d (configurations %s)" % (module, t["id"], l, ",".join(cfgs)),
                        {"spec": module, "trace": t["id"], "event": l, "event_recorded": trim(t["ev"][l - 1], 4000) if l >= 1 else None,
                         "complaint": err[:4000], "configurations": cfgs,
                         "replay_with": "TRACE=%s tools/tlc.sh -config spec/%s.cfg spec/%s.tla" % (rf, module, module)}, [rf])

    # ------------------------------------------------------------------ ending
    def finish(self, level, exhaustive=None, extra=None, violations=0):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces, "observations_of_the_implementation": self.observations,
               "samples": self.samples or [{"note": "stopped at the violation"}], "models": self.models, "recordings": self.parts}
        if extra:
            cov.update(extra)
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def report(self, v):
        d = os.path.join(CACHE, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.json" % self.pid)
        keep = []
        for i, f in enumerate(v.files):
            if f and os.path.exists(f):
                q = os.path.join(d, "%s-%d-%s" % (self.pid, i, os.path.basename(f)))
                shutil.copy(f, q)
                keep.append(q)
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": v.what, "detail": v.detail, "files": keep, "tier": self.tier, "seed": self.seed}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("  " + v.what)
        if v.detail:
            print("  " + (json.dumps(v.detail)[:1500] if not isinstance(v.detail, str) else v.detail[:1500]))


def split_traces(plan):
    traces, cur = [], []
    for ln in plan:
        if ln.startswith("T ") and cur:
            traces.append(cur)
            cur = []
        cur.append(ln)
    return traces + [cur]


def trim(x, n=400):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    level, fn = checks[a.property]
    c = Check(a.property, a.tier, a.seed)
    try:
        extra = fn(c) or {}
        c.finish(level, extra=extra)
        for k in c.known:
            print("KNOWN-FINDING: property=%s %s" % (a.property, k))
        c.log("held on everything explored: %d states, %d traces" % (c.states, c.traces))
        rc = 0
    except Violation as v:
        c.report(v)
        c.finish(level, violations=1)
        rc = 1
    except Infra as x:
        print("CHECK-ERROR property=%s: %s" % (a.property, x))
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR property=%s" % a.property)
        rc = 2
    for q in c.procs:
        if q.poll() is None:
            c.end(q)
    if rc == 0:
        shutil.rmtree(c.dir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)  # without waiting for background threads
