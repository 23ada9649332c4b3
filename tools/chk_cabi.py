"""C01, C02: the C interface, exercised by a C program written against the published header."""
import os, hashlib
from vlib import *
import gen3
from chk_conc import solid_image, op_colors
from chk_palette import INF
from chk_recolor import rcol, rpal

HERE = os.path.join(ROOT, "harness-c")
WRAP = ["malloc", "free", "calloc", "realloc", "posix_memalign"]

class NoClient(Exception):
    pass

def build_c():
    d = build()
    try:
        cargo(["build", "--offline", "--locked", "--quiet"], cwd=HERE)
        lib = os.path.join(TARGET, "debug", "libvc.a"); how = "checking allocator"
    except ToolError as e:
        # the crate as it is, on the plain allocator
        log("falling back to the static library: " + str(e)[:300])
        lib = os.path.join(BUILD, "repo-target", "debug", "libimage_palette_recoloring_c.a"); how = "plain allocator"
        if os.path.exists(lib): os.unlink(lib)
        build_repo("image-palette-recoloring-c")
    exe = os.path.join(BUILD, "cdriver")
    inc = os.path.join(REPO, "image-palette-recoloring-c")
    for cmd in (["gcc", "-O1", "-w", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion",
                 "-I", inc, "-o", exe, os.path.join(HERE, "driver.c"), lib, "-lpthread", "-ldl", "-lm",
                 *[f"-Wl,--wrap={w}" for w in WRAP]],
                ["g++", "-fsyntax-only", "-x", "c++", os.path.join(inc, "image-palette-recoloring.h")]):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: raise NoClient(r.stdout[-3000:])
    log("C driver built, " + how)
    return exe, os.path.join(d, "vh"), how

class World:
    """Two images, palettes by number (1, 2 accepted; 3 refused; further ones of the same sizes to
    recolor with), and calls of compute_palette."""
    def __init__(self, rnd, large):
        self.imgs = [solid_image(rnd) for _ in range(2)]
        n1, n2 = rnd.choice([4, 4, 5, 6]), rnd.choice([4, 5, 7, 8])
        self.pals = [rpal(rnd, rnd.choice([1, 17]), n1), rpal(rnd, rnd.choice([1, 17]), n2)]
        if large:   # a paraboloid has only corners
            q = [(x + 11, y + 11, x * x + y * y) for x in range(-11, 12) for y in range(-11, 12) if x * x + y * y < 256]
            self.pals[1] = rnd.sample(q, rnd.choice([255, 254, 128, 129])); self.imgs = [(w, h, px) for w, h, px in self.imgs]
        m = rnd.random()
        a = self.pals[0]
        if m < .3: bad = a[:3]
        elif m < .5: bad = a + [a[1]]
        elif m < .6: bad = []
        elif m < .8: bad = a + [tuple(sum(x) // len(a) for x in zip(*a))]
        else: bad = [(i, 2 * i, 255) for i in range(rnd.choice([4, 5, 9]))]
        self.pals.append(bad)
        self.pals += [[rcol(rnd, 1) for _ in range(len(self.pals[0]))], [rcol(rnd, 1) for _ in range(len(self.pals[1]))],
                      [rnd.choice([(0, 0, 0), (255, 255, 255), (255, 0, 0)]) for _ in range(len(self.pals[0]))]]
        self.calls = [(rnd.randrange(2), rnd.choice([0, 3, 4, 5, 6, 255]), rnd.choice([0, 4, 5, 6, 255]), rnd.choice([-1, 0, 2, 8, 40, INF])) for _ in range(5)]
        if rnd.random() < .5: self.calls[0] = (0, 7, 5, self.calls[0][3])
    def enlarge(self, rnd):
        """Images with more pixels than 16 bits count, or more columns than 8 bits."""
        for i, (w, h) in enumerate([rnd.choice([(300, 230), (257, 256), (90, 740)]), rnd.choice([(1100, 4), (3, 900)])]):
            c = [rcol(rnd, 1) for _ in range(6)]
            self.imgs[i] = (w, h, c + [rnd.choice(c) for _ in range(w * h - 6)])
        return self
    def ask(self):
        """What the Rust interface says: operations for the recolor driver."""
        ops = []
        for w, h, px in self.imgs:
            ops.append(f"I {w} {h} {op_colors(px)}")
            for p in self.pals:
                ops.append(f"D {len(p)} {op_colors(p)}")
                ops += [f"G {c}" for c in range(len(p))]
                ops += [f"R {len(q)} {op_colors(q)}" for q in self.pals if len(q) == len(p)]
            ops += [f"P {mn} {mx} {b}" for i, mn, mx, b in self.calls]
        return ops
    def answers(self, steps):
        it = iter(steps)
        dec, calls = [], [[], []]
        for i in range(len(self.imgs)):
            if next(it)["res"] != "ok": raise LookupError
            row = []
            for p in self.pals:
                e = next(it)
                g = [next(it).get("px", []) for _ in p]
                r = [[c for x in next(it).get("px", []) for c in x] if len(q) == len(p) else [] for q in self.pals]
                row.append({"ok": e["res"] == "ok", "gray": g, "rec": r})
            dec.append(row)
            for c in self.calls:
                e = next(it); calls[i].append([c for x in e["pal"] for c in x])
        return {"imgs": [{"w": w, "h": h} for w, h, _ in self.imgs], "pals": [len(p) for p in self.pals], "dec": dec,
                "calls": [{"out": calls[c[0]][n]} for n, c in enumerate(self.calls)]}
    def data(self):
        return [f"data {n + 1} {w} {h} {op_colors(px)}" for n, (w, h, px) in enumerate(self.imgs)] + \
               [f"data {n + 3} {len(p)} 1 {op_colors(p)}" for n, p in enumerate(self.pals)]

def digest(o):
    """Outputs are only compared, so this will do for large ones."""
    return list(hashlib.sha256(bytes(o)).digest()) + [len(o)]

def concrete(rnd, w, hist, decs):
    """Operations of the C driver for a history; image i is data i, palette p is data p + 2."""
    ops = []
    W, D = {}, {}
    for x in hist:
        k = x[0]
        if k == "newW": W[x[1]] = x[2]; ops.append(f"newW {x[1]} {x[2]}")
        elif k == "newD":
            p = x[3]
            if p != 3: D[x[1]] = (W[x[2]], p)
            ops.append(f"newD {x[1]} {x[2]} {p + 2}")
        elif k in ("rec", "gray", "size", "badgray"):
            i, p = D[x[1]]; iw, ih, _ = w.imgs[i - 1]; n = len(w.pals[p - 1])
            if k == "rec": ops.append(f"rec {x[1]} {rnd.choice([q for q in range(len(w.pals)) if len(w.pals[q]) == n]) + 3} {iw} {ih}")
            elif k == "gray": ops.append(f"gray {x[1]} {rnd.randrange(n)} {iw} {ih}")
            elif k == "size": ops.append(f"size {x[1]}")
            elif n < 256: ops.append(f"gray {x[1]} {rnd.choice([n, 255, min(n + 1, 255)])} {iw} {ih}")
        elif k == "newP":
            c = rnd.randrange(len(w.calls)); i, mn, mx, b = w.calls[c]
            ops.append(f"newP 1 {c + 1} {i + 1} {mn} {mx} {b}")
        else: ops.append(f"{k} {x[1]}")
        if rnd.random() < .04: ops.append("audit")
    return ops + ["audit"]

def check(prop, tier, seed, rnd):
    big = tier == "thorough"
    try: exe, vh, how = build_c()
    except NoClient as e:
        finish(prop, tier, seed, [{"reason": "a C program written against the header doesn't build", "step": str(e)}], [])
    nw = 10 if not big else 40
    worlds = []
    cand = [World(rnd, i % 5 == 4) for i in range(nw)] + [World(rnd, False).enlarge(rnd) for _ in range(2 if not big else 6)]
    huge = []
    for w, s in zip(cand, replay([vh, "recolor"], [w.ask() for w in cand])):
        try: w.lib = w.answers(s); (worlds if len(w.imgs[0][2]) < 5000 else huge).append(w)
        except (LookupError, StopIteration): log("a world without answers was left out")
    hists = generate("CAbiGen", {"Depth": 4, "Slots": "{1, 2}", "Rich": "TRUE"}, invariants=["Emit"])
    if big: hists += generate("CAbiGen", {"Depth": 6, "Slots": "{1}", "Rich": "FALSE"}, invariants=["Emit"])
    rnd.shuffle(hists)
    long = generate("CAbiGen", {"Depth": 40, "Slots": "{1, 2, 3}", "Rich": "TRUE"}, simulate=400 if not big else 4000, depth=46, seed=seed, invariants=["Emit"])
    sessions, info = [], []
    def session(hs, w=None):
        w = w or rnd.choice(worlds)
        ops = w.data() + ["base"]
        for h in hs: ops += concrete(rnd, w, h, None)
        sessions.append(ops); info.append({"lib": w.lib})
    n = 60
    take = hists if big else rnd.sample(hists, min(len(hists), 3600))
    for i in range(0, len(take), n): session(take[i:i + n])
    for i in range(0, len(long), 8): session(long[i:i + 8])
    for w in huge: session(long[:1], w)
    # warm up every process with all operations, so that nothing is initialised later
    full = [["newW", 1, 1], ["newD", 1, 1, 1], ["newD", 2, 1, 3], ["newP", 1], ["rec", 1], ["gray", 1], ["freeD", 1], ["freeW", 1], ["freeP", 1]]
    for i, s in enumerate(sessions):
        w = [x for x in worlds + huge if x.lib is info[i]["lib"]][0]
        warm = concrete(rnd, w, full, None)
        k = s.index("base"); sessions[i] = s[:k] + ["base"] + warm + ["base"] + s[k + 1:]
    rec = replay([exe], [["audit" if o == "base" else o for o in s] for s in sessions])
    for ops, steps in zip(sessions, rec):
        for o, x in zip(ops, steps):
            if o == "base" and x["ev"] == "audit": x["ev"] = "base"
            if x["ev"] == "newD": x["p"] -= 2
            if x["ev"] == "rec": x["x"] -= 2
            if len(x.get("out", [])) > 3000: x["out"] = digest(x["out"])
    for w in huge:
        for row in w.lib["dec"]:
            for x in row:
                for k in ("gray", "rec"): x[k] = [digest(o) if len(o) > 3000 else o for o in x[k]]
    bad = validate("CAbiTrace", warmed(rec), {"Prop": f'"{prop}"'}, info=info)
    finish(prop, tier, seed, describe(bad, sessions, rec, "C driver"), [sessions[0][-6:], sessions[-1][-6:]],
           {"sessions": len(sessions), "operations": sum(map(len, sessions)), "histories": len(take) + len(long), "allocator": how},
           ["images of up to 30 pixels, and some of up to 69000, whose points span their space (others end the process: panics cannot cross the C interface)"])

def warmed(rec):
    """The part of the heap bookkeeping of the warm-up doesn't count: what it creates is initialised once."""
    out = []
    for s in rec:
        b = [i for i, x in enumerate(s) if x["ev"] == "base"]
        out.append(s[:b[0]] + s[b[1]:] if len(b) == 2 else s)
    return out
