#!/usr/bin/env python3
"""Supervisor of the deterministic simulator.

  check.py C01 [--tier quick|thorough]   decide one property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE                   rebuild, replay a recorded trace, compare with what it recorded
  check.py build                         build all variants
"""
import json, os, random, re, signal, struct, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
TARGET = os.path.join(HERE, "target", "rel")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
WORKERS = min(8, os.cpu_count() or 8)

# Simulated runs per check in the quick tier (about 15 s of 8 cores each), in units of one chunk.
CHUNK = 500
QUICK_CHUNKS = {
    "C01": 160, "C02": 130, "C03": 120, "C04": 130, "C05": 200, "C06": 110, "C07": 160, "C08": 160, "C09": 180,
    "C10": 220, "C11": 200, "C12": 150, "C13": 150, "C14": 70, "C15": 240, "C16": 200, "C17": 110, "C18": 180,
    "C19": 160, "C23": 170,
}
THOROUGH_FACTOR = 14
QUICK_SECS, THOROUGH_SECS = 420, 3000
# In the quick tier the build with debug assertions and overflow checks gets a share of the runs on top.
CHECKED_SHARE, CHECKED_SECS = 6, 120

REAL = [
    "varlen (all of /repo/varlen, built from the working tree)",
    "varlen_macro (code generated for every struct and tuple type simulated)",
    "bumpalo (arenas; its chunks come from the simulated allocator)",
    "Rust core/alloc (Vec, slices, unwinding)",
]
STUB = [
    "global allocator: simulated heap (placement, garbage contents, refusal, in-place or moving growth, quarantine, guard bytes)",
    "user code: instrumented element types, closures, iterators and initializers",
    "allocation-error handler: turned into a catchable failure",
]


def env():
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_BOOTSTRAP"] = "varlen_sim_core"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("CARGO_BUILD_TARGET", None)
    return e


def build(profile):
    r = subprocess.run(
        ["cargo", "build", "--offline", "--profile", profile, "--target-dir", TARGET],
        cwd=SIM, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("ERROR: the simulator does not build against the working tree")
        sys.exit(3)
    return os.path.join(TARGET, profile, "varlen_sim")


def hash2(a, b):
    m = (1 << 64) - 1
    z = ((a ^ (b * 0xFF51AFD7ED558CCD & m)) + 0x9E3779B97F4A7C15) & m
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & m
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & m
    return z ^ (z >> 31)


class Tmp:
    """Scratch files of this process."""

    def __init__(self):
        self.dir = os.path.join(HERE, "target", "tmp-%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)
        self.n = 0
        self.lock = threading.Lock()

    def new(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%d%s" % (self.n, suffix))

    def close(self):
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        os.rmdir(self.dir)


def progress_of(path):
    try:
        b = open(path, "rb").read(4096)
        idx, op, seed = struct.unpack("<3Q", b[:24])
        txt = b[64:].split(b"\0", 1)[0].decode("utf-8", "replace")
        return idx, op, seed, txt
    except Exception:
        return 0, 0, 0, ""


def death(rc, progress, stderr):
    """Class and message of a simulated process that ended without an answer."""
    _, op, _, txt = progress_of(progress)
    if rc == 4:
        return "hang", "one run did not finish within its processor time (20 s; 120 s with gigabyte values), at step %d" % op
    if rc < 0:
        try:
            name = signal.Signals(-rc).name
        except ValueError:
            name = str(-rc)
        m = "the process died of %s in step %d" % (name, op)
        if txt:
            m += " (after: %s)" % txt
        return "crash", m
    if rc == 5:
        return "crash", "step %d: %s" % (op, stderr.strip()[-300:])
    return None


def replay_once(binary, trace, tmp, timeout=60):
    """(class, mine, at, hash, message) of one replay; class 'ok' if nothing was violated."""
    pf = tmp.new(".prog")
    try:
        p = subprocess.run([binary, "replay", trace, "--progress", pf], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout, env=env())
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        rc, out, err = 4, "", ""
    for l in out.splitlines():
        if l.startswith("RESULT\t"):
            f = l.split("\t")
            return f[1], f[2] == "true", int(f[3]), f[4], f[5] if len(f) > 5 else ""
    d = death(rc, pf, err)
    if d is None:
        raise RuntimeError("replay of %s ended with %d: %s" % (trace, rc, err[-500:]))
    _, op, _, _ = progress_of(pf)
    return d[0], True, op, "-", d[1]


# ------------------------------------------------------------------ minimisation

def split_trace(text):
    head, ops = [], []
    for l in text.splitlines():
        if l.startswith("op "):
            ops.append(l)
        elif l and not l.startswith("#"):
            head.append(l)
    return head, ops


def minimise(binary, text, cls, tmp, budget=60.0):
    head, ops = split_trace(text)
    t0 = time.time()
    f = tmp.new(".trace")
    tries = [0]

    def bad(ops_):
        tries[0] += 1
        with open(f, "w") as o:
            o.write("\n".join(head + ops_) + "\n")
        try:
            r = replay_once(binary, f, tmp, timeout=40)
        except RuntimeError:
            return False
        return r[0] == cls and r[1]

    def over():
        return time.time() - t0 > budget or tries[0] > 4000

    # what comes after the violation does not matter
    with open(f, "w") as o:
        o.write(text)
    r = replay_once(binary, f, tmp)
    if r[2] + 1 < len(ops) and bad(ops[: r[2] + 1]):
        ops = ops[: r[2] + 1]
    n = 2
    while len(ops) > 1 and not over():
        size = max(1, len(ops) // n)
        i, cut = 0, False
        while i < len(ops) and not over():
            c = ops[:i] + ops[i + size:]
            if c and bad(c):
                ops, cut = c, True
            else:
                i += size
        if size == 1 and not cut:
            break
        n = 2 if cut and size > 1 else min(len(ops), n * 2)
    # faults: remove, then make earlier
    for i in range(len(ops)):
        if over():
            break
        w = ops[i].split()
        if w[8] != "None":
            c = ops[:i] + [" ".join(w[:8] + ["None", "0"])] + ops[i + 1:]
            if bad(c):
                ops = c
                continue
            for k in range(min(int(w[9]), 12)):
                c = ops[:i] + [" ".join(w[:9] + [str(k)])] + ops[i + 1:]
                if bad(c):
                    ops = c
                    break
    # small arguments
    for i in range(len(ops)):
        for a in (2, 3, 4, 5):
            w = ops[i].split()
            if w[a] != "0" and not over():
                for v in ("0", str(int(w[a]) & 15)):
                    c = ops[:i] + [" ".join(w[:a] + [v] + w[a + 1:])] + ops[i + 1:]
                    if v != w[a] and bad(c):
                        ops = c
                        break
    # unused element types
    for i in range(len(head) - 1, -1, -1):
        if head[i].startswith("type ") and sum(h.startswith("type ") for h in head) > 1:
            h2, old = head[:i] + head[i + 1:], head
            head = h2
            if not bad(ops):
                head = old
    return "\n".join(head + ops) + "\n", tries[0]


# ------------------------------------------------------------------ known findings

def known_findings(prop):
    v = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) class=(\S+) trace=(\S+) match=(.*)$", l.strip())
            if m and m.group(1) == prop:
                v.append({"class": m.group(2), "trace": m.group(3), "match": m.group(4)})
    return v


def is_known(known, cls, msg):
    return any(k["class"] == cls and re.search(k["match"], msg) for k in known)


# ------------------------------------------------------------------ search

class Search:
    def __init__(self, binary, prop, base, chunks, secs, tmp, known):
        self.binary, self.prop, self.base, self.tmp, self.known = binary, prop, base, tmp, known
        self.chunks, self.deadline = chunks, time.time() + secs
        self.lock = threading.Lock()
        self.next_chunk = 0
        self.best = None
        self.known_hits = 0
        self.results = []
        self.bits, self.hashes = 0, set()
        self.others = {}
        self.errors = []
        self.restarts = 0

    def worker(self):
        while True:
            with self.lock:
                k = self.next_chunk
                if k >= self.chunks or time.time() > self.deadline or self.errors:
                    return
                if self.best is not None and self.best["index"] < k * CHUNK:
                    return
                self.next_chunk += 1
            try:
                self.chunk(k)
            except Exception as e:  # the harness itself failed
                with self.lock:
                    self.errors.append(repr(e))
                return

    def chunk(self, k):
        i, end = k * CHUNK, (k + 1) * CHUNK
        while i < end and time.time() < self.deadline:
            with self.lock:
                if self.best is not None and self.best["index"] < i:
                    return
            pf, sf = self.tmp.new(".prog"), self.tmp.new(".st")
            p = subprocess.run(
                [self.binary, "run", "--prop", self.prop, "--base", str(self.base), "--from", str(i),
                 "--count", str(end - i), "--progress", pf, "--states", sf],
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
            j = None
            if p.returncode == 0:
                for l in p.stdout.splitlines():
                    if l.startswith("{"):
                        j = json.loads(l)
            if j is None:
                d = death(p.returncode, pf, p.stderr)
                if d is None:
                    raise RuntimeError("simulator ended with %d: %s" % (p.returncode, p.stderr[-800:]))
                idx, op, seed, _ = progress_of(pf)
                found = {"seed": seed, "index": idx, "class": d[0], "msg": d[1], "at": op, "mine": True}
                nxt = idx + 1
                found["from"] = i
            else:
                found, nxt = j["found"], j["next"]
                if found:
                    found["from"] = i
                with self.lock:
                    self.results.append(j)
                    self.merge_states(sf)
            os.unlink(pf)
            if found:
                with self.lock:
                    self.restarts += 1
                    if found["mine"] and is_known(self.known, found["class"], found["msg"]):
                        self.known_hits += 1
                    elif found["mine"]:
                        if self.best is None or found["index"] < self.best["index"]:
                            self.best = found
                        return
                    else:
                        self.others[found["class"]] = self.others.get(found["class"], 0) + 1
            i = nxt

    def merge_states(self, f):
        b = open(f, "rb").read()
        n = struct.unpack("<Q", b[:8])[0]
        self.bits |= int.from_bytes(b[8:8 + 8 * n], "little")
        h = b[8 + 8 * n:]
        self.hashes.update(struct.unpack("<%dQ" % (len(h) // 8), h))
        os.unlink(f)

    def run(self):
        ts = [threading.Thread(target=self.worker) for _ in range(WORKERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def merge(results, key):
    o = {}
    for r in results:
        for k, v in r[key].items():
            o[k] = o.get(k, 0) + v
    return o


def determinism(binary, prop, base, tmp):
    """The same seeds twice, and split differently: executions must be identical."""
    def digest(a, n):
        p = subprocess.run([binary, "run", "--prop", prop, "--base", str(base), "--from", str(a), "--count", str(n),
                            "--states", tmp.new(".d")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
        f = os.path.join(tmp.dir, "%d.d" % tmp.n)
        if p.returncode != 0 or not os.path.exists(f):
            return None
        b = open(f, "rb").read()
        n = struct.unpack("<Q", b[:8])[0]
        return b[8 + 8 * n:]
    a = digest(0, 120)
    b1, b2 = digest(0, 50), digest(50, 70)
    if a is None or b1 is None or b2 is None:
        return None
    return a == b1 + b2


def report(prop, binary, profile, base, best, tmp):
    """Minimise, confirm, write the replay file and print the violation."""
    p = subprocess.run([binary, "plan", "--prop", prop, "--seed", str(best["seed"])], stdout=subprocess.PIPE, text=True, env=env())
    text, first = p.stdout, tmp.new(".trace")
    open(first, "w").write(text)
    r0 = replay_once(binary, first, tmp)
    tries = 0
    if r0[0] != best["class"] and best["from"] < best["index"]:
        # The code under test may have kept something from earlier runs of the same process: repeat those first.
        n, far = 1, best["index"] - best["from"]
        while True:
            n = min(n, far)
            warm = "warm %d %d %d\n" % (base, best["index"] - n, n)
            open(first, "w").write(text.replace("\ntype ", "\n" + warm + "type ", 1))
            r1 = replay_once(binary, first, tmp)
            if r1[0] == best["class"]:
                r0, text = r1, open(first).read()
                break
            if n == far:
                break
            n *= 4
    small = text
    if r0[0] == best["class"] and r0[1]:
        small, tries = minimise(binary, text, best["class"], tmp)
    f = tmp.new(".trace")
    open(f, "w").write(small)
    r1, r2 = replay_once(binary, f, tmp), replay_once(binary, f, tmp)
    exact = r1 == r2 and r1[0] == best["class"]
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%d.trace" % (prop, best["seed"]))
    with open(path, "w") as o:
        o.write("# replay: python3 check.py replay %s\n" % os.path.relpath(path, HERE))
        o.write("# build profile: %s\n# found: base seed %d, run %d, seed %d\n" % (profile, base, best["index"], best["seed"]))
        o.write("# minimised from %d to %d operations in %d replays; replays exactly: %s\n" % (
            len(split_trace(text)[1]), len(split_trace(small)[1]), tries, exact))
        o.write("# expect: class=%s at=%d hash=%s\n# violation: %s\n" % (r1[0], r1[2], r1[3], r1[4].replace("\n", " ")))
        o.write(small)
    print("violated: %s: %s" % (r1[0], r1[4]))
    print("seed %d (run %d of base %d, profile %s), %d operations after minimisation, replays exactly: %s" % (
        best["seed"], best["index"], base, profile, len(split_trace(small)[1]), exact))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return path, small


def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    profiles = ["release", "checked"]
    tmp = Tmp()
    code = 0
    try:
        known = known_findings(prop)
        tot, searches, viol, sample = [], [], None, None
        deterministic = {}
        build_s = 0.0
        for n, prof in enumerate(profiles):
            tb = time.time()
            binary = build(prof)
            build_s += time.time() - tb
            for k in known:
                r = replay_once(binary, os.path.join(HERE, k["trace"]), tmp)
                if n == 0 and r[0] == k["class"] and re.search(k["match"], r[4]):
                    print("KNOWN-FINDING: property=%s %s: %s" % (prop, r[0], r[4]))
            base = hash2(seed, 0x5EED + n) & ((1 << 62) - 1)
            chunks = QUICK_CHUNKS[prop]
            if tier == "thorough":
                chunks *= THOROUGH_FACTOR
            elif prof == "checked":
                chunks = max(chunks // CHECKED_SHARE, 2)
            secs = THOROUGH_SECS if tier == "thorough" else QUICK_SECS if prof == "release" else CHECKED_SECS
            s = Search(binary, prop, base, chunks, secs, tmp, known)
            s.run()
            searches.append((prof, base, s))
            if s.errors:
                print("ERROR: " + "; ".join(s.errors))
                return 3
            if s.best is not None:
                viol = report(prop, binary, prof, base, s.best, tmp)
                code = 1
                break
            deterministic[prof] = determinism(binary, prop, base, tmp)
            if sample is None:
                p = subprocess.run([binary, "plan", "--prop", prop, "--seed", str(hash2(base, 0))], stdout=subprocess.PIPE, text=True, env=env())
                sample = p.stdout
        wall = time.time() - t0
        results = [r for _, _, s in searches for r in s.results]
        bits, hashes = 0, set()
        for _, _, s in searches:
            bits |= s.bits
            hashes |= s.hashes
        states, distinct = bin(bits).count("1"), len(hashes)
        runs = sum(r["runs"] for r in results)
        cpu = sum(r["secs"] for r in results)
        search_s = max(wall - build_s, 0.001)
        others = {}
        for _, _, s in searches:
            for k, v in s.others.items():
                others[k] = others.get(k, 0) + v
        fired, armed = merge(results, "fired"), merge(results, "armed")
        must = [sum(r["must"][i] for r in results) for i in range(3)]
        types = sorted({t for r in results for t in r["types"]})
        trans = len({t for r in results for t in r["trans"]})
        nontrivial = sum(r["nontrivial"] for r in results)
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": min(distinct, nontrivial),
            "rule": "One evaluation is one simulated run: a history of operations with faults, derived from one seed, executed against "
                    "the real library with every invariant checked after every operation. Distinct: the hash over all states and "
                    "outcomes of the run differs. Non-trivial: at least five of its operations had an effect.",
            "samples": [(viol[1] if viol else sample or "")[:4000]],
            "states": states,
            "states_measure": "distinct abstract states (containers, lengths, capacities, drains in progress) in a 2^24-bucket hash (a lower bound)",
            "transitions": trans,
            "transitions_measure": "distinct (operation, fault kind, outcome, faults fired) combinations",
            "simulated_steps": sum(r["steps"] for r in results),
            "simulated_time": "the library has no clock or timer: simulated time is the number of steps",
            "runs_per_hour": int(runs / search_s * 3600),
            "seeds_per_hour": int(runs / search_s * 3600),
            "cpu_s": round(cpu, 1),
            "build_s": round(build_s, 1),
            "base_seeds": {p: b for p, b, _ in searches},
            "build_profiles": [p for p, _, _ in searches],
            "operations": merge(results, "ops"),
            "faults_armed": armed,
            "faults_fired": {
                "panic in user code (callback)": fired.get("Cb", 0),
                "panic in a destructor": fired.get("Drop", 0),
                "one allocation refused": fired.get("Alloc", 0),
                "all further allocations refused": fired.get("AllocAll", 0),
                "source of the wrong length": must[1],
                "value of impossible size": must[2],
            },
            "storage_requests": sum(r["requests"] for r in results),
            "blocks_moved_on_growth": sum(r["moved"] for r in results),
            "blocks_grown_in_place": sum(r["inplace"] for r in results),
            "blocks_next_to_an_untouchable_page": sum(r["fenced"] for r in results),
            "user_callbacks": sum(r["callbacks"] for r in results),
            "destructors": sum(r["destructors"] for r in results),
            "callbacks_that_used_the_library": sum(r["again"] for r in results),
            "values_created": sum(r["values"] for r in results),
            "failures_judged": sum(r["failures_judged"] for r in results),
            "runs_without_verdict": sum(r["inconclusive"] for r in results),
            "element_types": types,
            "violations_of_other_properties": others,
            "known_finding_hits": sum(s.known_hits for _, _, s in searches),
            "same_seed_same_execution": deterministic,
            "components_real": REAL,
            "components_simulated": STUB,
        }
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": [
                "seeded search samples the space of histories, it does not exhaust it",
                "the simulated allocator obeys the GlobalAlloc contract",
                "reference models and layout models in /verif/sim are right",
            ],
            "wall_s": round(wall, 2), "violations": 1 if code else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if code == 0:
            print("OK property=%s: %d simulated runs, %d steps, %d distinct states, %.1f s (%s); other properties violated: %s" % (
                prop, runs, cov["simulated_steps"], states, wall, ",".join(p for p, _, _ in searches), others or "none"))
        return code
    finally:
        tmp.close()


def replay_cmd(path):
    text = open(path).read()
    m = re.search(r"^# build profile: (\S+)", text, re.M)
    e = re.search(r"^# expect: class=(\S+) at=(\d+) hash=(\S+)", text, re.M)
    p = re.search(r"^property (\S+)", text, re.M)
    binary = build(m.group(1) if m else "release")
    tmp = Tmp()
    try:
        r = replay_once(binary, path, tmp)
    finally:
        tmp.close()
    print("class=%s at=%d hash=%s %s" % (r[0], r[2], r[3], r[4]))
    if e:
        same = (r[0], str(r[2]), r[3]) == e.groups()
        print("as recorded" if same else "NOT as recorded: " + e.group(0))
    if r[0] != "ok" and r[1]:
        print("VIOLATION property=%s replay=%s" % (p.group(1), path))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        for p in a[1:] or ["release", "checked"]:
            build(p)
        return 0
    if a[:1] == ["replay"]:
        return replay_cmd(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if not a or a[0] not in QUICK_CHUNKS or tier not in ("quick", "thorough"):
        print(__doc__)
        return 2
    return decide(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
