"""Shared machinery of the checks: building harnesses from /repo's working tree, running them, evidence, replay."""
import atexit, concurrent.futures, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
CORES = max(2, os.cpu_count() or 2)

NOUB = "-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS"
NOBIT = "-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS"
NOMEM = "-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER"
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"

# name -> command line. "d" = debug (assertions active), "n" = NDEBUG.
CFG = {
    "g17": "g++ -std=c++17 -O0",
    "g20": "g++ -std=c++20 -O0",
    "g23": "g++ -std=c++23 -O0",
    "g17o": "g++ -std=c++17 -O2",
    "g17n": "g++ -std=c++17 -O2 -DNDEBUG",
    "g20n": "g++ -std=c++20 -O2 -DNDEBUG",
    "g23n": "g++ -std=c++23 -O3 -DNDEBUG",
    "g20fast": "g++ -std=c++20 -O2 -ffast-math -DNDEBUG",
    "g17noub": f"g++ -std=c++17 -O0 {NOUB}",
    "g20noub": f"g++ -std=c++20 -O1 {NOUB}",
    "g20nobit": f"g++ -std=c++20 -O0 {NOBIT}",
    "g17nomem": f"g++ -std=c++17 -O0 {NOMEM}",
    "g20nobitmem": f"g++ -std=c++20 -O0 {NOBIT} {NOMEM}",
    "g32": "g++ -m32 -std=c++17 -O0",
    "g32n": "g++ -m32 -std=c++20 -O2 -DNDEBUG",
    "c32": "clang++ -m32 -std=c++20 -O1",
    "c17": "clang++ -std=c++17 -O0",
    "c20": "clang++ -std=c++20 -O0",
    "c23": "clang++ -std=c++23 -O0",
    "c20n": "clang++ -std=c++20 -O2 -DNDEBUG",
    "c23n": "clang++ -std=c++23 -O2 -DNDEBUG",
    "c20fast": "clang++ -std=c++20 -O2 -ffast-math -DNDEBUG",
    "c20noub": f"clang++ -std=c++20 -O1 {NOUB}",
    "c20nomem": f"clang++ -std=c++20 -O2 {NOMEM}",
    "c17nobit": f"clang++ -std=c++17 -O2 -DNDEBUG {NOBIT}",
    "casan": f"clang++ -std=c++20 -O1 {SAN}",
    "casan17": f"clang++ -std=c++17 -O0 {SAN}",
    "gasan": f"g++ -std=c++17 -O1 {SAN}",
    "gasan20": f"g++ -std=c++20 -O0 {SAN}",
    "casannoub": f"clang++ -std=c++20 -O1 {SAN} {NOUB}",
    "g32asan": f"g++ -m32 -std=c++17 -O1 {SAN}",
    "gtsan": "g++ -std=c++17 -O1 -fsanitize=thread",
    "ctsan": "clang++ -std=c++20 -O1 -fsanitize=thread",
    "cmsan": "clang++ -std=c++20 -O1 -fsanitize=memory -fno-sanitize-recover=all",
}
RUNENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=76", UBSAN_OPTIONS="exitcode=76:print_stacktrace=0",
              MSAN_OPTIONS="exitcode=76", TSAN_OPTIONS="exitcode=76", LC_ALL="C")


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Deck(random.Random):
    """choice() deals each list like a shuffled deck of cards, so that all alternatives come up before any is repeated."""

    def __init__(self, seed):
        super().__init__(seed)
        self.decks = {}

    def choice(self, seq):
        key = repr(seq)
        d = self.decks.get(key)
        if not d:
            d = list(seq)
            self.shuffle(d)
            self.decks[key] = d
        return d.pop()


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=f"{prop}-", dir=base)
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.lock = threading.Lock()
        self.evaluations = 0
        self.nontrivial = 0
        self.distinct = 0
        self.seen = set()
        self.samples = []
        self.labels = {}
        self.coverage = {}
        self.configs = {}
        self.violations = []
        self.rule = ""
        self.assumptions = []
        self.stats = {}
        self.rng = random.Random(f"{prop}/{seed}")
        self.known = load_known(prop)
        self.knownHit = []
        self.stop = threading.Event()

    # ---------------------------------------------------------------- counting
    def count(self, case, nontrivial=True, sample=None, label=None):
        """A generated case that the Python side made (case: something with a stable repr)."""
        with self.lock:
            self.evaluations += 1
            if label:
                self.labels[label] = self.labels.get(label, 0) + 1
            if nontrivial:
                self.nontrivial += 1
                h = hashlib.blake2b(repr(case).encode(), digest_size=8).digest()
                if h not in self.seen:
                    self.seen.add(h)
                    self.distinct += 1
            if sample is not None and len(self.samples) < 25:
                self.samples.append(sample)

    def merge(self, key, d):
        with self.lock:
            self.evaluations += d["evaluations"]
            self.nontrivial += d["nontrivial"]
            self.distinct += d["distinct_nontrivial"]
            for k, v in d["labels"].items():
                self.labels[k] = self.labels.get(k, 0) + v
            if len(self.samples) < 25:
                self.samples += [f"[{key}] {s}" for s in d["samples"][:2]]
            self.configs[key] = d["evaluations"]
            self.stats[key] = d

    # ---------------------------------------------------------------- violations
    def violation(self, replay, summary, ident=None):
        """replay: JSON-able description from which the failure can be repeated."""
        with self.lock:
            if ident is not None:
                for k in self.known:
                    if k["id"] == ident:
                        if ident not in [x["id"] for x in self.knownHit]:
                            self.knownHit.append(k)
                        return
            j = replay.get("job")
            if j and os.path.isabs(j["src"]):
                with open(j["src"]) as f:
                    replay = dict(replay, source=f.read())
            n = len(self.violations)
            if n >= 5:
                return
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}-{self.tier}-{self.seed}-{n}.json")
            replay = dict(replay, property=self.prop, summary=summary)
            with open(path, "w") as f:
                json.dump(replay, f, indent=1)
            self.violations.append(path)
            print(f"  {summary}"[:1500])
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            self.stop.set()

    # ---------------------------------------------------------------- building
    def run_cmd(self, cmd, timeout=600, **kw):
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=RUNENV, **kw)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            return 124, "", "timeout"

    def control_ok(self, cfg):
        """Does this configuration compile an empty program at all?"""
        src = os.path.join(self.dir, "control.cpp")
        if not os.path.exists(src):
            with open(src, "w") as f:
                f.write("#include <optional>\n#include <string>\nint main(){std::optional<std::string> o; return o.has_value();}\n")
        rc, _, err = self.run_cmd(CFG[cfg].split() + [src, "-o", "/dev/null"] if False else CFG[cfg].split() + [src, "-o", os.path.join(self.dir, f"control-{cfg}")])
        return rc == 0

    def compile(self, cfg, src, out, defs=(), extra=(), link=True):
        """Returns (ok, log). Only a diagnosed error of the compiler counts as 'does not compile'."""
        cmd = CFG[cfg].split() + ["-g0", "-w", "-I", INC, "-I", os.path.join(VERIF, "h"), *[f"-D{d}" for d in defs], *extra, src, "-o", out]
        if not link:
            cmd.insert(1, "-c")
        for attempt in range(3):
            rc, _, err = self.run_cmd(cmd)
            if rc == 0:
                return True, ""
            if "error:" in err and "Killed signal" not in err and "internal compiler error" not in err and "No space left" not in err:
                return False, err
            time.sleep(1 + attempt)
        raise HarnessError(f"{' '.join(cmd)}: {err[-2000:]}")

    def harness(self, jobs, workers=None):
        """jobs: dicts with src (file in t/), cfg, defs, cases. Builds and runs all, reports failures."""
        def one(j):
            if self.stop.is_set():
                return None
            key = j["src"].replace(".cpp", "") + "/" + ",".join(j.get("defs", ())) + "/" + j["cfg"]
            exe = os.path.join(self.dir, hashlib.md5(key.encode()).hexdigest())
            src = j["src"] if os.path.isabs(j["src"]) else os.path.join(VERIF, "t", j["src"])
            ok, log = self.compile(j["cfg"], src, exe, j.get("defs", ()), j.get("extra", ()))
            if not ok:
                if not self.control_ok(j["cfg"]):
                    raise HarnessError(f"configuration {j['cfg']} cannot compile anything")
                first = [l for l in log.splitlines() if "error:" in l][:3]
                self.violation(
                    {"kind": "build", "job": j, "log": log[:8000]},
                    f"{key}: valid use of the public interface does not compile: {' | '.join(first)}")
                return None
            st = exe + ".json"
            cmd = [exe, "--run", "--seed", str(self.seed), "--cases", str(j["cases"]), "--stats", st]
            if j.get("filter"):
                cmd += ["--filter", j["filter"]]
            rc, out, err = self.run_cmd(cmd, timeout=j.get("timeout", 3000 if self.thorough else 500))
            if rc == 5:  # a failure that did not repeat from its own choices: does the whole run repeat it?
                rc2, out, err2 = self.run_cmd(cmd, timeout=500)
                if rc2 in (5, 10):
                    self.violation({"kind": "run", "job": j, "seed": self.seed, "stderr": err + err2},
                                   f"{key}: {err.strip()[-600:]} (depends on preceding cases; replay runs the same sequence of cases)")
                    return None
                raise HarnessError(f"{key}: unstable result: {err[-800:]}")
            if rc not in (0, 10):
                if rc in (4, 124, -9):
                    raise HarnessError(f"{key}: out of time (rc {rc}) {err[-500:]}")
                # died in the parent (e.g. static initialisation)
                rc2, out, err2 = self.run_cmd(cmd, timeout=500)
                if rc2 == rc:
                    self.violation({"kind": "run", "job": j, "seed": self.seed, "stderr": err}, f"{key}: the harness died, status {rc}: {err[-500:]}")
                    return None
                raise HarnessError(f"{key}: status {rc}, then {rc2}: {err[-500:]}")
            with open(st) as f:
                d = json.load(f)
            self.merge(key, d)
            if rc == 10:
                f = d["fail"]
                tail = f["stderr"].strip()[-400:]
                self.violation(
                    {"kind": "pbt", "job": j, "pbt": f},
                    f"{key}: {f['prop']}: {f['message']}" + (f" | history: {f['trace'][:600]}" if f["trace"] else "") + (f" | {tail}" if tail else ""))
            os.remove(exe)
            return d

        with concurrent.futures.ThreadPoolExecutor(workers or CORES) as ex:
            return list(ex.map(one, jobs))

    def parallel(self, fn, items, workers=None):
        with concurrent.futures.ThreadPoolExecutor(workers or CORES) as ex:
            return list(ex.map(fn, items))

    # ---------------------------------------------------------------- finishing
    def finish(self, level):
        for k in self.knownHit:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct,
            "rule": self.rule,
            "samples": self.samples,
            "nontrivial": self.nontrivial,
            "labels": dict(sorted(self.labels.items())),
            "configurations": dict(sorted(self.configs.items())),
        }
        cov.update(self.coverage)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.prop} {self.tier} seed={self.seed}: {self.evaluations} cases, {self.distinct} distinct non-trivial, "
              f"{len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0


def load_known(prop):
    res = []
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        for k in json.load(f)["known"]:
            if k["property"] == prop:
                res.append(k)
    return res
