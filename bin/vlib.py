"""Shared machinery of the checks: build the harness, run TLC, run the real code, compare, report."""
import json, os, random, re, select, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

import layout

VERIF = layout.VERIF
BUILD = layout.BUILD
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
TLCJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


# ---------------------------------------------------------------------------------------------
# building

def cargo_env():
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="1.77.2-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
               RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    for v in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(v, None)
    return env


def seed_target():
    """Reuse the dependencies the sandbox has already compiled, if they are there."""
    dst = os.path.join(BUILD, "target")
    src = "/opt/vp/scope/target"
    if os.path.isdir(dst) or not os.path.isdir(os.path.join(src, "debug", "deps")):
        return
    tmp = tempfile.mkdtemp(dir=BUILD, prefix="seed.")
    try:
        d = os.path.join(tmp, "debug")
        os.makedirs(os.path.join(d, "deps"))
        def ours(n):
            return "hun_law" in n or n.startswith("run_") or n.endswith(".o")
        for sub in (".fingerprint", "build"):
            s = os.path.join(src, "debug", sub)
            os.makedirs(os.path.join(d, sub))
            for n in os.listdir(s):
                if not n.startswith("hun_law"):
                    subprocess.run(["cp", "-a", os.path.join(s, n), os.path.join(d, sub, n)], check=True)
        names = [os.path.join(src, "debug", "deps", n) for n in os.listdir(os.path.join(src, "debug", "deps")) if not ours(n)]
        for i in range(0, len(names), 200):
            subprocess.run(["cp", "-a", "-t", os.path.join(d, "deps")] + names[i:i + 200], check=True)
        if os.path.exists(os.path.join(src, ".rustc_info.json")):
            subprocess.run(["cp", "-a", os.path.join(src, ".rustc_info.json"), tmp], check=True)
        os.rename(tmp, dst)
    except (OSError, subprocess.CalledProcessError):
        shutil.rmtree(tmp, ignore_errors=True)


def build_harness(bin="hlh"):
    os.makedirs(BUILD, exist_ok=True)
    layout.layout()
    seed_target()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--bin", bin], cwd=os.path.join(VERIF, "harness"),
                       env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("the harness does not build:\n" + p.stdout[-6000:])
    return os.path.join(BUILD, "target", "debug", bin)


def build_semantic():
    """The harness of the semantic parser (the package with its grammar compiled by peg.py)."""
    os.makedirs(BUILD, exist_ok=True)
    layout.layout_full()
    seed_target()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--bin", "hls"], cwd=os.path.join(VERIF, "harness_sem"),
                       env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("the semantic harness does not build:\n" + p.stdout[-6000:])
    return os.path.join(BUILD, "target", "debug", "hls")


# ---------------------------------------------------------------------------------------------
# TLC

class TlcRun:
    def __init__(self):
        self.records, self.states, self.transitions, self.depth, self.wall = [], 0, 0, 0, 0.0


def run_tlc(module, cfg_text, env=None, workers=NCPU, extra=(), heap="6g", want_error=False):
    """Runs TLC on spec/<module>.tla; returns the records it printed and its statistics."""
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="tlc.", dir=BUILD)
    try:
        cfg = os.path.join(work, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
               "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + work,
               "-cp", TLCJAR, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
               "-metadir", os.path.join(work, "meta"), "-config", cfg, *extra, os.path.join(SPEC, module + ".tla")]
        out_path = os.path.join(work, "out.txt")
        with open(out_path, "w") as o:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=o, stderr=subprocess.STDOUT)
        res = TlcRun()
        other = []
        with open(out_path, encoding="utf-8") as f:
            for line in f:
                if line.startswith('"@@'):
                    res.records.append(json.loads(json.loads(line)[2:]))
                else:
                    other.append(line)
                    m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                    if m:
                        res.transitions, res.states = int(m.group(1)), int(m.group(2))
                    m = re.match(r"The depth of the complete state graph search is (\d+)", line)
                    if m:
                        res.depth = int(m.group(1))
        res.wall = time.time() - t0
        res.ok = p.returncode == 0
        res.text = "".join(other)
        if p.returncode != 0 and not want_error:
            tail = "".join(l for l in other if not l.startswith(("Parsing file", "Semantic proc", "Linting")))
            raise CheckError(f"TLC failed on {module} (rc {p.returncode}):\n" + tail[-6000:])
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


EVAL_CFG = "INIT FanInit\nNEXT FanNext\nINVARIANT Emit\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n"


def spec_eval(module, inputs, stats, heap="6g"):
    """What the specification says about each input (module: one that extends Fan)."""
    if not inputs:
        return []
    fd, path = tempfile.mkstemp(prefix="in.", suffix=".ndjson", dir=BUILD)
    with os.fdopen(fd, "w", encoding="utf-8") as f:
        for i in inputs:
            f.write(json.dumps(i, ensure_ascii=False) + "\n")
    try:
        r = run_tlc(module, EVAL_CFG, env={"VERIF_IN": path}, heap=heap)
    finally:
        os.unlink(path)
    out = [None] * len(inputs)
    for rec in r.records:
        out[rec["k"] - 1] = rec["e"]
    missing = [k for k, v in enumerate(out) if v is None]
    if missing:
        raise CheckError(f"TLC gave no answer for {len(missing)} inputs of {module}")
    stats.add_tlc(module, r)
    return out


# ---------------------------------------------------------------------------------------------
# the real code

def run_hlh(hlh, comp, inputs, timeout=120, env=None, cwd=None, jobs=NCPU):
    """Observations of the real code on each input; a case that kills the process is {"r":"crash"}."""
    n = len(inputs)
    if n == 0:
        return []
    env = dict(env or os.environ, RUST_BACKTRACE="0")
    jobs = max(1, min(jobs, n))
    size = (n + jobs - 1) // jobs
    chunks = [inputs[i:i + size] for i in range(0, n, size)]

    def one(chunk):
        out, rest = [], list(chunk)
        while rest:
            data = "".join(json.dumps(i, ensure_ascii=False) + "\n" for i in rest).encode("utf-8")
            p = subprocess.Popen(["prlimit", "--as=6000000000", hlh, comp], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 env=env, cwd=cwd)
            def feed():
                try:
                    p.stdin.write(data)
                    p.stdin.close()
                except OSError:
                    pass
            feeder = threading.Thread(target=feed, daemon=True)
            feeder.start()
            parts, why = [], "crash"
            while True:
                ready, _, _ = select.select([p.stdout], [], [], timeout)
                if not ready:        # no answer to a single case for so long
                    p.kill()
                    why = "hang"
                    break
                piece = os.read(p.stdout.fileno(), 1 << 20)
                if not piece:
                    break
                parts.append(piece)
            p.wait()
            feeder.join(5)
            p.stdout.close()
            o = b"".join(parts)
            got = []
            for line in o.decode("utf-8", "replace").split("\n"):
                if line:
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        break
            out += got[:len(rest)]
            if len(got) >= len(rest):
                break
            out.append({"r": why})
            rest = rest[len(got) + 1:]
        return out

    with ThreadPoolExecutor(max_workers=jobs) as ex:
        res = []
        for o in ex.map(one, chunks):
            res += o
    return res


# ---------------------------------------------------------------------------------------------
# a check

class Stats:
    def __init__(self):
        self.states = self.transitions = self.replayed = 0
        self.tlc = []
        self.samples = []
        self.distinct = set()
        self.panics = 0

    def add_tlc(self, module, r, label=None):
        self.states += r.states
        self.transitions += r.transitions
        self.tlc.append({"module": label or module, "states": r.states, "transitions": r.transitions,
                         "depth": r.depth, "wall_s": round(r.wall, 1)})


class Check:
    """One run of one property's check."""

    def __init__(self, pid, level="model_checking", build=None):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{pid}/{self.seed}/{self.tier}")
        self.stats = Stats()
        self.t0 = time.time()
        self.violations = []
        self.assumptions = []
        self.notes = {}
        self.known = load_known(pid)
        self.known_hit = {}
        os.makedirs(EVID, exist_ok=True)
        os.makedirs(BUILD, exist_ok=True)
        self._hlh = None
        self.env = None
        self._pool = ThreadPoolExecutor(max_workers=2)
        self._build = self._pool.submit(build or build_harness)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    @property
    def hlh(self):
        if self._hlh is None:
            self._hlh = self._build.result()
        return self._hlh

    def cli_env(self):
        """Environment of harness runs that start the repository's command line tool."""
        self.hlh
        env = dict(os.environ)
        env["HLH_CLI"] = build_harness("hun_law_cli")
        env["HLH_SHIM"] = self.shim()
        self.env = env

    def shim(self):
        so = os.path.join(BUILD, f"shim.{os.getpid()}.so")
        p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(VERIF, "shim", "shim.c"), "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("the shim does not build:\n" + p.stdout)
        final = os.path.join(BUILD, "shim.so")
        os.rename(so, final)
        return final

    def shim_env(self):
        """Environment of harness runs in which file system changes can be disturbed and the publisher is the harness."""
        env = dict(os.environ)
        env["LD_PRELOAD"] = self.shim()
        self.env = env

    # -- stages
    def mc(self, module, cfg, label=None, comp=None, project=None, replay=True, workers=NCPU, extra=(), heap="6g", env=None):
        """Exhaustive exploration; the cases the model emits are replayed on the real code."""
        r = run_tlc(module, cfg, workers=workers, extra=extra, heap=heap, env=env)
        self.stats.add_tlc(module, r, label)
        if not r.records:
            if replay:
                raise CheckError(f"{module} emitted no behaviours")
            return r
        if replay:
            self.compare(comp, [x["i"] for x in r.records], [x["e"] for x in r.records], project, label or module)
        return r

    def mc_all(self, jobs):
        """Several explorations at once: [(module, cfg, label, comp)]."""
        with ThreadPoolExecutor(max_workers=4) as ex:
            runs = list(ex.map(lambda j: run_tlc(j[0], j[1], workers=3, heap="3g"), jobs))
        for (module, cfg, label, comp), r in zip(jobs, runs):
            self.stats.add_tlc(module, r, label)
            if not r.records:
                raise CheckError(f"{label} emitted no behaviours")
            self.compare(comp, [x["i"] for x in r.records], [x["e"] for x in r.records], None, label)

    def mc_drafts(self, jobs, comp, make):
        """Several explorations at once whose behaviours are turned into what the real code is given: [(module, cfg, label)]."""
        with ThreadPoolExecutor(max_workers=4) as ex:
            runs = list(ex.map(lambda j: run_tlc(j[0], j[1], workers=3, heap="3g"), jobs))
        for (module, cfg, label), r in zip(jobs, runs):
            self.stats.add_tlc(module, r, label)
            if not r.records:
                raise CheckError(f"{label} emitted no behaviours")
            pairs = [make(x["i"], x["e"]) for x in r.records]
            self.compare(comp, [p[0] for p in pairs], [p[1] for p in pairs], None, label)

    def evaluate(self, module, comp, inputs, project=None, label=None, heap="6g", env=None, cwd=None):
        """Generated inputs: the specification's answer against the real code's."""
        seen, uniq = set(), []
        for i in inputs:
            key = json.dumps(i, sort_keys=True, ensure_ascii=False)
            if key not in seen:
                seen.add(key)
                uniq.append(i)
        exp = spec_eval(module, uniq, self.stats, heap=heap)
        self.compare(comp, uniq, exp, project, label or module, env=env, cwd=cwd)

    def drafts(self, module, comp, inputs, make, label=None):
        """The specification turns each input into what the real code is given and what must come out: make(input, e) -> (i, expected)."""
        exp = spec_eval(module, inputs, self.stats)
        pairs = [make(i, e) for i, e in zip(inputs, exp)]
        self.compare(comp, [p[0] for p in pairs], [p[1] for p in pairs], None, label or module)

    def compare(self, comp, inputs, expected, project, label, env=None, cwd=None):
        got = run_hlh(self.hlh, comp, inputs, env=env or self.env, cwd=cwd)
        if len(got) != len(inputs):
            raise CheckError("the harness lost cases")
        project = project or (lambda i, o: o)
        for i, e, g in zip(inputs, expected, got):
            if isinstance(e, dict) and e.get("r") == "skip":
                continue    # the specification leaves the outcome open
            self.stats.replayed += 1
            if isinstance(g, dict) and g.get("r") == "bad":
                raise CheckError("harness rejects input: " + json.dumps(i, ensure_ascii=False)[:500] + str(g))
            pe, pg = canon(project(i, e)), canon(project(i, g))
            key = json.dumps(i, sort_keys=True, ensure_ascii=False)
            if not (isinstance(e, dict) and e.get("r") == "err"):
                self.stats.distinct.add(hash(key))
            if pe != pg:
                self.report(label, i, pe, pg)
        if inputs:
            k = self.rng.randrange(len(inputs))
            s = {"stage": label, "input": inputs[k], "observed": got[k]}
            if len(json.dumps(s)) < 20000:
                self.stats.samples.append(s)

    def judge(self, module, comp, inputs, label):
        """The real code is run first; the specification judges the histories that were recorded."""
        seen, uniq = set(), []
        for i in inputs:
            key = json.dumps(i, sort_keys=True, ensure_ascii=False)
            if key not in seen:
                seen.add(key)
                uniq.append(i)
        got = run_hlh(self.hlh, comp, uniq, env=self.env)
        if len(got) != len(uniq):
            raise CheckError("the harness lost cases")
        pairs = []
        for i, g in zip(uniq, got):
            if g.get("r") == "bad":
                raise CheckError("harness rejects input: " + json.dumps(i, ensure_ascii=False)[:500] + str(g))
            if g.get("r") != "ok":
                self.stats.replayed += 1
                self.report(label, i, "an outcome", g)
            else:
                pairs.append((i, g["v"]))
        verdicts = spec_eval(module, [{"i": i, "o": o} for i, o in pairs], self.stats)
        branches = 0
        for (i, o), v in zip(pairs, verdicts):
            self.stats.replayed += 1
            self.stats.distinct.add(hash(json.dumps(i, sort_keys=True, ensure_ascii=False)))
            branches += sum(len(x["b"]) for x in o)
            if v["at"]:
                step, branch = v["at"]
                self.report(label, i, f"step {step}, disturbed at point {branch}: an allowed outcome", {"step": step, "branch": branch, "observed": o[step - 1]["b"][branch - 1]})
        self.notes[label + "_outcomes_judged"] = branches
        if pairs:
            i, o = pairs[self.rng.randrange(len(pairs))]
            s = {"stage": label, "input": i, "observed": o}
            if len(json.dumps(s)) < 20000:
                self.stats.samples.append(s)

    def mc_judge(self, module, cfg, label, judge, comp):
        r = run_tlc(module, cfg)
        self.stats.add_tlc(module, r, label)
        if not r.records:
            raise CheckError(f"{label} emitted no behaviours")
        self.judge(judge, comp, [x["i"] for x in r.records], label)

    def mc_refutes(self, module, cfg, label, invariant):
        """A variant of the model known to be wrong: TLC must find the counterexample."""
        r = run_tlc(module, cfg, want_error=True)
        self.stats.add_tlc(module, r, label)
        if r.ok or f"Invariant {invariant} is violated" not in r.text:
            raise CheckError(f"{label}: TLC did not refute {invariant}")

    def report(self, label, i, expected, observed):
        for kf in self.known:
            if kf["match"](i, expected, observed):
                self.known_hit[kf["id"]] = kf["what"]
                return
        self.violations.append({"stage": label, "input": i, "expected": expected, "observed": observed})

    # -- end
    def finish(self, rule, samples_extra=()):
        wall = time.time() - self.t0
        cov = {"states": self.stats.states, "transitions": self.stats.transitions,
               "traces_validated_against_impl": self.stats.replayed,
               "evaluations": self.stats.replayed, "distinct_nontrivial": len(self.stats.distinct),
               "rule": rule, "samples": (self.stats.samples + list(samples_extra))[:8], "tlc_runs": self.stats.tlc}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 1), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        for k, what in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        if self.violations:
            os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
            path = os.path.join(EVID, "replay", self.pid + ".json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(self.violations[:50], f, ensure_ascii=False, indent=1)
            v = self.violations[0]
            print(f"{len(self.violations)} disagreements; the first ({v['stage']}):")
            print("  input:    " + json.dumps(v["input"], ensure_ascii=False)[:1500])
            for where, a, b in diff(v["expected"], v["observed"])[:5]:
                print(f"  at {where or '/'}: expected {json.dumps(a, ensure_ascii=False)[:700]}")
                print(f"  {' ' * len(where)}     observed {json.dumps(b, ensure_ascii=False)[:700]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.stdout.flush()
            return 1
        print(f"{self.pid}: held on {self.stats.replayed} replayed cases, {self.stats.states} model states, {wall:.1f} s")
        return 0


def canon(x):
    """TLC writes the record without fields as an empty list."""
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()} if x else []
    if isinstance(x, list):
        return [canon(v) for v in x]
    return x


def diff(a, b, path=""):
    """Where two JSON values differ: [(path, a's part, b's part)]."""
    if type(a) != type(b):
        return [(path, a, b)]
    if isinstance(a, dict):
        out = []
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                out.append((f"{path}/{k}", a.get(k, "<absent>"), b.get(k, "<absent>")))
            else:
                out += diff(a[k], b[k], f"{path}/{k}")
        return out
    if isinstance(a, list):
        if len(a) != len(b):
            return [(path, a, b)]
        out = []
        for k, (x, y) in enumerate(zip(a, b)):
            out += diff(x, y, f"{path}/{k}")
        return out
    return [] if a == b else [(path, a, b)]


def load_known(pid):
    import known
    return [k for k in known.FINDINGS if k["property"] == pid]
