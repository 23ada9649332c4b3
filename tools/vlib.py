"""Shared machinery of the checks: building the harness from /repo, replaying sessions on the real
code, validating recorded behaviors with TLC, running model checks, evidence and verdicts."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, queue
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TARGET = os.path.join(BUILD, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 1)
T0 = time.time()

class ToolError(Exception):
    pass

def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, file=sys.stderr, flush=True)

def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET,
             PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"))
    e.pop("RUSTFLAGS", None)
    return e

def workdir(prefix):
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix + "-", dir=os.path.join(ROOT, "out"))

# ------------------------------------------------------------------ building
def c_sources_hash():
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(os.path.join(REPO, "qhull-sys"))):
        dirs[:] = sorted(d for d in dirs if d != "target")
        for f in sorted(files):
            if f.endswith((".c", ".h")):
                h.update(f.encode()); h.update(open(os.path.join(base, f), "rb").read())
    return h.hexdigest()

def cargo(args, cwd=None, timeout=840, more={}):
    r = subprocess.run(["cargo"] + args, cwd=cwd or os.path.join(ROOT, "harness"), env={**env(), **more},
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise ToolError("cargo " + " ".join(args) + " failed:\n" + r.stdout[-4000:])
    return r.stdout

def target_dir(t):
    """`cargo clean` only works on directories that are marked as its own."""
    os.makedirs(t, exist_ok=True)
    tag = os.path.join(t, "CACHEDIR.TAG")
    if not os.path.exists(tag):
        with open(tag, "w") as f: f.write("Signature: 8a477f597d28d172789f06886806bc55\n")

def build_repo(package):
    """Builds a package of the repository itself, without touching its files (its Cargo.lock is
    not up to date, so that cargo works on a copy of it)."""
    t = os.path.join(BUILD, "repo-target"); lock = os.path.join(t, "lock")
    target_dir(t); os.makedirs(lock, exist_ok=True)
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(lock, "Cargo.lock"))
    stamp = os.path.join(t, "c-sources.sha256"); h = c_sources_hash()
    args = ["--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", t]
    more = {"CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_RESOLVER_LOCKFILE_PATH": os.path.join(lock, "Cargo.lock")}
    if os.path.exists(stamp) and open(stamp).read() != h: cargo(["clean", *args, "-p", "qhull-sys"], more=more)
    cargo(["build", "--quiet", *args, "-p", package], more=more)
    open(stamp, "w").write(h)
    log("built " + package)
    return os.path.join(t, "debug")

def build(*packages):
    """Builds the conformance driver (and the named packages of the repository) from /repo."""
    target_dir(TARGET)
    stamp = os.path.join(TARGET, "c-sources.sha256")
    h = c_sources_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != h:
        cargo(["clean", "--offline", "-p", "qhull-sys"])
    # build.rs of qhull-sys only watches some headers, and mtimes say little in a fresh copy
    cargo(["build", "--offline", "--locked", "--quiet"] + [x for p in packages for x in ("-p", p)]
          + (["-p", "vh"] if packages else []))
    open(stamp, "w").write(h)
    log("built")
    return os.path.join(TARGET, "debug")

# ------------------------------------------------------------------ replaying
class Proc:
    """One driver process fed line by line, so that a crash or hang is pinned to its operation."""
    def __init__(self, argv, environ=None, cwd=None):
        self.p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, bufsize=1 << 16,
                                  env=environ or env(), cwd=cwd)
        self.q = queue.Queue()
        threading.Thread(target=self.read, daemon=True).start()
    def read(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)
    def send(self, text):
        try:
            self.p.stdin.write(text); self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
    def recv(self, timeout):
        return self.q.get(timeout=timeout)
    def kill(self):
        try: self.p.kill()
        except OSError: pass
        self.p.wait()
        try: self.p.stdin.close()
        except OSError: pass

HUNG = []
HANGS = [0]   # how many operations never came back: after some, checking goes on with what there is

def replay(argv, sessions, op_timeout=60, cwd=None, environ=None, fresh=False):
    """sessions: list of lists of operation lines. Returns for each the list of recorded steps; a
    session whose operation kills (or hangs) the driver ends in a "crash" (or "hang") step. With
    `fresh`, every session has a process of its own. After several hangs the remaining sessions
    are left out (they stay empty)."""
    out = [None] * len(sessions)
    todo = queue.Queue()
    for i in range(len(sessions)): todo.put(i)
    def worker():
        proc = None
        while True:
            try: i = todo.get_nowait()
            except queue.Empty: break
            if HANGS[0] >= 3: out[i] = []; continue
            if proc is None: proc = Proc(argv, environ, cwd)
            ops = sessions[i]
            proc.send(f"S {i}\n" + "".join(o + "\n" for o in ops))
            steps = []
            for op in ops:
                try: line = proc.recv(op_timeout if HANGS[0] < 3 else 10)
                except queue.Empty:
                    HANGS[0] += 1
                    HUNG.append({"reason": "an operation never came back", "driver": " ".join(argv), "script": ops[:len(steps) + 1], "step": {"ev": "hang", "op": op[:200]}})
                    steps.append({"ev": "hang", "op": op[:200]}); line = None
                    proc.kill(); proc = None
                    break
                if line is None:
                    steps.append({"ev": "crash", "op": op[:200], "code": proc.p.wait()})
                    proc.kill(); proc = None
                    break
                x = json.loads(line)
                if x.pop("s") != i: raise ToolError("driver out of step")
                steps.append(x)
            out[i] = steps
            if fresh and proc is not None:
                proc.kill(); proc = None
        if proc is not None:
            try: proc.p.stdin.close()
            except OSError: pass
            proc.p.wait()
    with ThreadPoolExecutor(CPUS) as ex:
        for f in [ex.submit(worker) for _ in range(min(CPUS, len(sessions)) or 1)]: f.result()
    log(f"replayed {len(sessions)} sessions, {sum(len(s) for s in out)} steps")
    return out

# ------------------------------------------------------------------ TLC
STATS = {"states": 0, "transitions": 0, "traces": 0, "generated": 0, "models": []}

def cfg_text(consts, spec="Spec", invariants=(), properties=(), deadlock=True, constraint=None, action_constraint=None, symmetry=None, view=None):
    t = f"SPECIFICATION {spec}\n" if spec else ""
    for k, v in consts.items():
        t += f"CONSTANT {k} = {v}\n"
    for i in invariants: t += f"INVARIANT {i}\n"
    for i in properties: t += f"PROPERTY {i}\n"
    if constraint: t += f"CONSTRAINT {constraint}\n"
    if action_constraint: t += f"ACTION_CONSTRAINT {action_constraint}\n"
    if view: t += f"VIEW {view}\n"
    t += f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}\n"
    return t

def tlc(module, cfg, wd, workers=1, environ=None, extra=(), timeout=800, xmx="3g"):
    """Runs TLC on a copy-free module path; returns (code, output)."""
    os.makedirs(wd, exist_ok=True)
    cfgp = os.path.join(wd, module + ".cfg")
    open(cfgp, "w").write(cfg)
    e = dict(os.environ); e.update(environ or {})
    cmd = ["java", f"-Xmx{xmx}", "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Djava.io.tmpdir={wd}",
           "-cp", JAR, "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(wd, "meta"), "-workers", str(workers),
           "-noGenerateSpecTE", *extra, os.path.join(SPEC, module + ".tla")]
    r = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

def counts(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out): pass
    if m: return tuple(int(x.replace(",", "")) for x in m.groups())
    m = None
    for m in re.finditer(r"The number of states generated: ([\d,]+)", out): pass
    if m: n = int(m.group(1).replace(",", "")); return n, 0
    return 0, 0

EVAL_ERRORS = ("Attempted to", "The first argument of", "evaluating", "Overflow", "overflow", "TLC threw", "In applying the function",
               "was not enumerable", "applied to", "CHOOSE", "out of bounds")

def validate(module, sessions, consts, invariants=("TypeOk",), weights=None, timeout=800, info=None):
    """sessions: list of step lists. Every recorded step has to be a step of the specification
    `module`. Returns a list of (session number, step number, reason)."""
    wd = workdir("val")
    n = min(CPUS, max(1, len(sessions)))
    size = weights or [sum(len(json.dumps(x)) for x in s) + 50 for s in sessions]
    bins = [[0, []] for _ in range(n)]
    for i in sorted(range(len(sessions)), key=lambda i: -size[i]):
        b = min(bins, key=lambda b: b[0]); b[0] += size[i]; b[1].append(i)
    cfg = cfg_text(consts, invariants=invariants)
    def one(bi):
        idx = sorted(bins[bi][1])
        d = os.path.join(wd, str(bi)); os.makedirs(d)
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for i in idx: f.write(json.dumps({"id": i, "steps": sessions[i], **(info[i] if info else {})}) + "\n")
        try:
            code, out = tlc(module, cfg, d, environ={"TRACE": path}, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        g, dist = counts(out)
        STATS["generated"] += g; STATS["states"] += dist; STATS["transitions"] += max(0, g - len(idx))
        if code == 0:
            STATS["traces"] += len(idx)
            return []
        s = [int(x) for x in re.findall(r"^/\\ s = (\d+)$", out, re.M)]
        k = [int(x) for x in re.findall(r"^/\\ k = (\d+)$", out, re.M)]
        if code == 11 and s: return [(idx[s[-1] - 1], k[-1], "no step of the specification matches")]
        if code in (12, 13) and s: return [(idx[s[-1] - 1], k[-1], "an invariant of the specification fails")]
        if s and any(x in out for x in EVAL_ERRORS) and "OutOfMemory" not in out:
            i = out.find("Error:")
            return [(idx[s[-1] - 1], k[-1], "the specification is undefined on the recorded step: " + out[i:i + 300].replace("\n", " "))]
        raise ToolError(f"TLC failed on {module} (exit {code}):\n" + out[-3000:])
    with ThreadPoolExecutor(CPUS) as ex:
        res = [x for r in ex.map(one, range(n)) for x in r]
    log(f"validated {len(sessions)} sessions against {module}")
    shutil.rmtree(wd)
    return res

def model(module, consts=None, invariants=(), properties=(), deadlock=True, workers=None, name=None, environ=None, timeout=800, **kw):
    """Model checks a design specification; a failure there is an error of the machinery."""
    wd = workdir("mc")
    code, out = tlc(module, cfg_text(consts or {}, invariants=invariants, properties=properties, deadlock=deadlock, **kw), wd,
                    workers=workers or CPUS, environ=environ, timeout=timeout, xmx="8g")
    if code != 0:
        raise ToolError(f"model check of {module} failed (exit {code}):\n" + out[-4000:])
    g, dist = counts(out)
    STATS["generated"] += g; STATS["states"] += dist; STATS["transitions"] += g
    STATS["models"].append({"model": name or module, "states": dist, "generated": g})
    shutil.rmtree(wd)
    log(f"model {name or module}: {dist} states")
    return out

def generate(module, consts=None, simulate=None, depth=None, seed=1, deadlock=False, invariants=(), environ=None, timeout=600, tag="GEN", workers=1, **kw):
    """Explores a generator specification and returns the JSON values it prints (`PrintT(<<"GEN",
    ToJson(x)>>)`), i.e. the behaviors to replay."""
    wd = workdir("gen")
    extra = []
    if simulate: extra += ["-simulate", f"num={simulate}", "-depth", str(depth or 50), "-seed", str(seed)]
    code, out = tlc(module, cfg_text(consts or {}, deadlock=deadlock, invariants=invariants, **kw), wd, extra=extra, environ=environ, timeout=timeout, workers=workers)
    if code != 0: raise ToolError(f"generator {module} failed (exit {code}):\n" + out[-3000:])
    g, dist = counts(out)
    STATS["generated"] += g; STATS["states"] += dist; STATS["transitions"] += g
    STATS["models"].append({"model": module + " (generator)", "states": dist, "generated": g})
    res = []
    for line in out.splitlines():
        if line.startswith(f'<<"{tag}", "'):
            res.append(json.loads(json.loads(line[len(f'<<"{tag}", '):-2])))
    shutil.rmtree(wd)
    log(f"generated {len(res)} behaviors from {module}")
    return res

# ------------------------------------------------------------------ verdicts
def finish(prop, tier, seed, violations, samples, extra=None, assumptions=(), level="model_checking"):
    """violations: list of dicts (written to the replay file). Prints the verdict and exits."""
    if not violations: violations = HUNG[:3]
    known = known_findings()
    vs = [v for v in violations if v.get("key") not in known.get(prop, {})]
    for v in violations:
        if v not in vs: print(f"KNOWN-FINDING: property={prop} {known[prop][v['key']]}")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = {"states": STATS["states"], "transitions": STATS["transitions"],
           "traces_validated_against_impl": STATS["traces"], "samples": samples[:5], "models": STATS["models"]}
    cov.update(extra or {})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 1), "violations": len(vs)}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if vs:
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        path = os.path.join(ROOT, "replay", f"{prop}-{tier}-{seed}.json")
        with open(path, "w") as f: json.dump(vs, f, indent=1)
        for v in vs[:3]: print("  " + str(v.get("reason", ""))[:400] + " | " + json.dumps(v.get("step", ""))[:600])
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    print(f"OK property={prop} tier={tier} states={STATS['states']} traces={STATS['traces']} wall={ev['wall_s']}s")
    sys.exit(0)

def known_findings():
    """known-findings.txt: 'finding: property=<id> key=<key> <what fails>' lines are findings that
    are not repaired; 'fixed:' lines suppress nothing."""
    res = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m: res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res

def describe(rejections, sessions, recorded, driver):
    return [{"reason": r, "driver": driver, "session": i, "rejected_step": k + 1,
             "script": sessions[i], "step": recorded[i][k] if k < len(recorded[i]) else None,
             "recorded": recorded[i][:k + 1]} for i, k, r in rejections]
