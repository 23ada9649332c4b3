"""W01-W03: the web page and its worker, run in node with stand-ins for the browser and the module."""
import random, shutil
from vlib import *

DRIVER = os.path.join(ROOT, "harness-web", "web.mjs")
def src(): return os.path.join(REPO, "image-palette-recoloring-web", "src")

STALL, MUCH = 60, 60_000_000
def drive(part, path):
    """Runs the driver on the sessions until one of them makes no progress; returns what was recorded."""
    with open(path + ".in", "w") as f: f.writelines(json.dumps(x) + "\n" for x in part)
    open(path, "w").close()
    with open(path + ".in") as inp, open(path + ".err", "w") as err:
        pr = subprocess.Popen(["node", "--no-warnings", "--experimental-vm-modules", "--max-old-space-size=2000", DRIVER, src(), path],
                              stdin=inp, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        size, since = 0, time.time()
        while pr.poll() is None:
            try: pr.wait(.2)
            except subprocess.TimeoutExpired: pass
            n = os.path.getsize(path)
            if n > size: size, since = n, time.time()
            if n > MUCH or time.time() - since > STALL: pr.kill(); pr.wait()
    with open(path) as f: lines = f.read().split("\n")
    return [json.loads(l) for l in lines[:-1]], open(path + ".err").read()[-2000:]

def run_web(sessions):
    n = min(CPUS, max(1, len(sessions)))
    wd = workdir("web")
    def one(b):
        part = sessions[b::n]; path = os.path.join(wd, str(b)); out = []
        while len(out) < len(part):
            got, err = drive(part[len(out):], path)
            out += got
            if os.path.getsize(path) > MUCH: out += [[]] * (len(part) - len(out))  # what is there is judged
            if len(out) == len(part) or got: continue
            # No progress from the start: the page or the worker doesn't come back from this session
            if not drive([QUIET], path)[0]: raise ToolError("the web driver ended early: " + err)
            out += [[{"env": "hang", "calls": []}]] + [[]] * (len(part) - len(out) - 1)
        return out
    res = [None] * len(sessions)
    with ThreadPoolExecutor(n) as ex:
        for b, out in enumerate(ex.map(one, range(n))): res[b::n] = out
    shutil.rmtree(wd)
    log(f"replayed {len(sessions)} histories on the page and the worker")
    return res

# nothing happens
QUIET = {"images": [{"w": 1, "h": 1, "rgba": [1, 2, 3, 4]}], "grow": 0, "seed": 1, "last": 1, "script": []}

def images(rnd, n, big=False):
    res = []
    for _ in range(n):
        w, h = rnd.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2)]) if not big else (rnd.randint(1, 6), rnd.randint(1, 6))
        if rnd.random() < .01: w, h = rnd.choice([(260, 1), (1, 300), (257, 2), (30, 20)])
        res.append({"w": w, "h": h, "rgba": [rnd.randrange(256) for _ in range(4 * w * h)]})
    return res

CONSTS = {"Images": 2, "MaxUser": 2, "MaxFail": 1, "MaxRows": 2, "Mode": '""', "Depth": 22, "Random": "FALSE", "Edits": "TRUE"}
def histories(rnd, tier, seed, wanted):
    deep = tier != "quick"
    gens = []
    gens += generate("WebGen", {**CONSTS, "MaxUser": 2, "MaxFail": 2 if deep else 1, "MaxRows": 3 if deep else 2}, spec="GSpec", invariants=["Emit"])
    if deep: gens += generate("WebGen", {**CONSTS, "MaxUser": 3, "MaxFail": 0, "MaxRows": 2}, spec="GSpec", invariants=["Emit"])
    rnd.shuffle(gens)
    gens = gens[:wanted[0]]
    for d, num in wanted[1]:
        gens += generate("WebGen", {**CONSTS, "Images": 3, "MaxUser": d, "MaxFail": 6, "MaxRows": 6, "Depth": d, "Random": "TRUE"},
                         spec="GSpec", invariants=["Emit"], simulate=num, depth=d + 1, seed=seed)
    gens += generate("WebGen", CONSTS, spec="TSpec", invariants=["TEmit"])
    res = []
    for i, g in enumerate(gens):
        if rnd.random() < .04:  # a few palettes are large
            m = rnd.choice([8, 12, 17, 20, 33, 33, 65, 90, 255])
            ok = [x for x in g["script"] if x[0] == "ans" and x[1] == "ok"]
            if m > 40: ok = ok[:2]
            for x in rnd.sample(ok, min(len(ok), 6)): x[2] = m
        res.append({"images": images(rnd, 3, i % 5 == 0), "grow": i % 3, "seed": rnd.randrange(1 << 30), "last": rnd.randint(1, 6), "script": g["script"]})
    return res

def check(prop, tier, seed, rnd):
    deep = tier != "quick"
    wanted = {"W01": (3000 if not deep else 60000, [(60, 60 if not deep else 1500)]),
              "W02": (1500 if not deep else 30000, [(80, 80 if not deep else 2000)]),
              "W03": (2000 if not deep else 40000, [(60, 80 if not deep else 2000)])}[prop]
    model("WebModel", {"Images": 2, "MaxUser": 4 if not deep else 6, "MaxFail": 2, "MaxRows": 2},
          invariants=["HandlesLive", "IdleOk", "BusyOk"], properties=["ComesBack"], deadlock=False)
    sessions = histories(rnd, tier, seed, wanted)
    if deep: rnd.shuffle(sessions)
    batch = 2500 if deep else len(sessions)
    bad, steps, calls, done, i = [], 0, 0, 0, 0
    while i < len(sessions) and not bad and (i == 0 or time.time() - T0 < 700):
        part = sessions[i:i + batch]; i += batch
        recorded = run_web(part)
        for r in recorded:
            if isinstance(r, dict): raise ToolError("the web driver failed: " + r["error"])
        slim = [[{k: v for k, v in st.items() if k != "why"} for st in r] for r in recorded]
        bad = describe(validate("WebTrace", slim, {"Prop": f'"{prop}"'}), part, recorded, "web page and worker")
        steps += sum(len(r) for r in recorded); calls += sum(len(st["calls"]) for r in recorded for st in r); done += len(part)
    finish(prop, tier, seed, bad, [x["script"] for x in sessions[:2]] + [sessions[-1]["script"]],
           {"histories": done, "steps": steps, "module_calls": calls},
           ["the browser and the WebAssembly module are stand-ins; a request that throws reaches the page as an error"])
