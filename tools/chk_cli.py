"""L01, L02: the command line program, run as a process on files in scratch directories."""
import fcntl, hashlib, os, struct, zlib
from vlib import *
import gen3
from chk_conc import op_colors, bits, flat_image
from chk_recolor import rcol, rpal, image_from

def build_cli():
    return os.path.join(build_repo("image-palette-recoloring-cli"), "image-palette-recoloring-cli")

# ------------------------------------------------------------------ image files
def png(w, h, rows, color_type):
    def chunk(t, d): return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, color_type, 0, 0, 0)) + \
        chunk(b"IDAT", zlib.compress(b"".join(b"\0" + r for r in rows))) + chunk(b"IEND", b"")

def png_rgb(w, h, px): return png(w, h, [bytes(c for p in px[y * w:(y + 1) * w] for c in p) for y in range(h)], 2)
def png_rgba(rnd, w, h, px): return png(w, h, [bytes(c for p in px[y * w:(y + 1) * w] for c in (*p, rnd.choice([0, 1, 128, 255]))) for y in range(h)], 6)
def png_gray(w, h, g): return png(w, h, [bytes(g[y * w:(y + 1) * w]) for y in range(h)], 0)
def bmp(w, h, px):
    stride = (3 * w + 3) // 4 * 4
    data = b"".join(bytes(c for p in px[y * w:(y + 1) * w] for c in p[::-1]).ljust(stride, b"\0") for y in reversed(range(h)))
    return struct.pack("<2sIHHI", b"BM", 54 + len(data), 0, 0, 54) + struct.pack("<IiiHHIIiiII", 40, w, h, 1, 24, 0, len(data), 2835, 2835, 0, 0) + data
def image(w, h, px): return {"k": "image", "w": w, "h": h, "px": [c for p in px for c in p]}
def other(data): return {"k": "other", "w": 0, "h": 0, "px": list(hashlib.sha256(data).digest()[:6])}
NOTHING = {"k": "none", "w": 0, "h": 0, "px": []}

def codes(s): return list(os.fsencode(s) if isinstance(s, str) else s)
def hexlist(rnd, pal):
    f = rnd.choice(["%02x", "%02X", None])
    return ",".join("".join((f or rnd.choice(["%02x", "%02X"])) % c for c in p) for p in pal)

class Dir:
    """A scratch directory with its known contents."""
    def __init__(self, base, n):
        self.root = os.path.join(base, f"d{n}").encode(); self.home = os.path.join(base, f"h{n}")
        os.makedirs(self.root); os.makedirs(self.home)
        self.files = {}
    def put(self, name, data):
        p = os.path.join(self.root, os.fsencode(name)); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(data)
    def snap(self):
        res = {}
        for b, ds, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(b, f)
                if os.path.isfile(p): res[os.path.relpath(p, self.root)] = open(p, "rb").read()
        return res
    def dirs(self):
        res = [b""]
        for b, ds, fs in os.walk(self.root): res += [os.path.relpath(os.path.join(b, x), self.root) + b"/" for x in ds]
        return [list(x) for x in res]

def run(exe, args, cwd, home, timeout=60, watch=None):
    """Runs the program; with `watch` (a pipe), tells whether it was opened for reading."""
    e = {"PATH": "/usr/bin:/bin", "HOME": home, "TMPDIR": home, "LANG": "C.UTF-8"}
    p = subprocess.Popen([exe] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    read = 0
    if watch:
        end = time.time() + timeout
        while p.poll() is None and time.time() < end:
            try: fd = os.open(watch, os.O_WRONLY | os.O_NONBLOCK)
            except OSError: time.sleep(.0005); continue
            read = 1; os.close(fd); p.kill(); break
        else: p.kill() if p.poll() is None else None
        out = p.communicate()[0]
    else:
        try: out = p.communicate(timeout=timeout)[0]
        except subprocess.TimeoutExpired: p.kill(); p.communicate(); return {"hang": 1, "code": -1, "signal": 9, "out": [], "read": 0}
    return {"code": max(p.returncode, 0), "signal": max(-p.returncode, 0), "out": list(out), "read": read}

# ------------------------------------------------------------------ L01
def arg_forms(rnd, opt, short, val):
    """A way to pass exactly `val`; None if the operating system can't."""
    if 0 in val: return None
    v = bytes(val)
    forms = [[b"--" + opt.encode() + b"=" + v]]
    if not v.startswith(b"-"): forms += [[b"--" + opt.encode(), v], [b"-" + short.encode(), v]]
    if v and not v.startswith(b"="): forms.append([b"-" + short.encode() + v])
    return rnd.choice(forms)

def probes(exe, base, rnd, texts, per):
    """Groups of `per` texts each: a session of probes, with good texts in the other place."""
    def one(n):
        r = random.Random(f"{n}/{len(texts)}")
        d = Dir(base, n)
        fifo = os.path.join(d.root, b"pipe.png"); os.mkfifo(fifo)
        steps = [{"ev": "setup", "changed": []}]
        for t in texts[n * per:(n + 1) * per]:
            k = (len(t) + 1) // 7
            plain = codes(",".join("%06x" % r.randrange(1 << 24) for _ in range(max(k, 1))))
            for a, b in ([(t, t)] if r.random() < .4 else [(t, plain)] if r.random() < .5 else [(plain, t)]):
                x, y = arg_forms(r, "decomposition-palette", "d", a), arg_forms(r, "reconstruction-palette", "r", b)
                args = [x, y, [b"-i", fifo], [b"--output-image", os.path.join(d.root, b"out.png")]] + ([[b"-c"]] if r.random() < .3 else [])
                r.shuffle(args)
                res = run(exe, [b"recolor-image"] + [z for q in args for z in q], d.root, d.home, watch=fifo)
                now = d.snap()
                steps.append({"ev": "probe", "d": a, "r": b, "i": [0], **res, "changed": [{"name": list(f), "content": other(c)} for f, c in now.items()], "gone": []})
                steps[-1]["input"] = NOTHING
        shutil.rmtree(d.root); shutil.rmtree(d.home)
        return steps
    with ThreadPoolExecutor(CPUS) as ex: return list(ex.map(one, range((len(texts) + per - 1) // per)))

# ------------------------------------------------------------------ L02
BOUNDS = {"none": 2 / 255, "zero": 0.0, "small": 1 / 255, "mid": 0.05, "large": 0.3, "inf": float("inf"), "nan": float("nan"), "neg": -1.0, "bad": 0.0}

def sharp(vh, rnd, n):
    """Pictures whose palettes are different for limits that are a little different from the default ones."""
    pics = []
    for _ in range(n):
        m = rnd.random()
        if m < .6:  # small clusters: errors of one to three levels
            q = rnd.choice([2, 3, 4, 6, 9])
            c = [tuple(min(255, max(0, x + rnd.randint(-q, q))) for x in b) for b in [tuple(rnd.randint(9, 246) for _ in range(3)) for _ in range(rnd.choice([5, 6, 7]))] for _ in range(3)]
        else:       # on a ball: many corners, far from each other
            c = []
            for _ in range(rnd.choice([12, 14, 18])):
                g = [rnd.gauss(0, 1) for _ in range(3)]; l = sum(x * x for x in g) ** .5
                c.append(tuple(int(128 + 120 * x / l) for x in g))
        c += [rnd.choice(c) for _ in range((-len(c)) % 6)]; pics.append((6, len(c) // 6, c))
    ask = [(4, 10, 2), (4, 10, 1.85), (4, 10, 2.15), (4, 10, 1.95), (4, 10, 2.05), (4, 9, 2), (4, 11, 2), (4, 12, 2), (5, 10, 2)]
    rec = replay([vh, "recolor"], [[f"J {w} {h} " + op_colors(px)] + [f"Q {a} {b} {bits(x / 255)}" for a, b, x in ask] for w, h, px in pics])
    res = {}
    for pic, r in zip(pics, rec):
        if len(r) <= len(ask) or any(x.get("res") != "ok" for x in r[1:]): continue
        for k in range(1, len(ask)):
            if r[k + 1]["pal"] != r[1]["pal"]: res.setdefault(k, []).append(pic)
    return list(res.values())

class Scene:
    """A directory with input files, and palettes for them."""
    def __init__(self, d, rnd, large=False, pic=None):
        self.d, self.rnd = d, rnd
        n = rnd.choice([4, 4, 5, 6])
        self.pal = rpal(rnd, rnd.choice([1, 17]), n)
        self.more = rpal(rnd, 1, n + rnd.choice([1, 2]))
        self.other = rpal(rnd, 1, 4)
        c = [rcol(rnd, 1) for _ in range(rnd.choice([5, 7, 9]))]
        w, h, px = image_from(rnd, c); self.main = px
        w2, h2, px2 = image_from(rnd, self.pal + [rcol(rnd, 17)])
        g = [rnd.randrange(256) for _ in range(w * h)]
        fw, fh, fpx = flat_image(rnd)
        while fw * fh == 0: fw, fh, fpx = flat_image(rnd)
        whole = png_rgb(w, h, px)
        self.inputs = {"png": ("in.png", whole, image(w, h, px)), "png2": ("in 2.v1.PNG", png_rgb(w2, h2, px2), image(w2, h2, px2)),
                       "rgba": ("ö/rgba.png", png_rgba(rnd, w, h, px), image(w, h, px)), "bmp": ("pic.bmp", bmp(w2, h2, px2), image(w2, h2, px2)),
                       "gray": ("gray.png", png_gray(w, h, g), image(w, h, [(x, x, x) for x in g])),
                       "flat": ("flat.png", png_rgb(fw, fh, fpx), image(fw, fh, fpx)),
                       "garbage": ("garbage.png", bytes(rnd.randrange(256) for _ in range(200)), None),
                       "cut": ("cut.png", whole[:rnd.randrange(20, len(whole) - 30)], None), "empty": ("empty.png", b"", None)}
        if large:
            lw, lh = rnd.choice([(1100, 4), (3, 900), (2100, 2), (300, 230), (700, 95)])
            lc = list(dict.fromkeys(self.pal + c[:4])); lpx = lc + [rnd.choice(lc) for _ in range(lw * lh - len(lc))]
            self.inputs["large"] = ("large.png", png_rgb(lw, lh, lpx), image(lw, lh, lpx))
        if pic: self.inputs["sharp"] = ("sharp.png", png_rgb(*pic), image(*pic))
        for name, data, _ in self.inputs.values(): d.put(name, data)
        os.makedirs(os.path.join(d.root, b"sub")); os.makedirs(os.path.join(d.root, b"folder.png"))
        self.old = "old.png"
        d.put("old.png", whole); d.put("notes.txt", b"keep me")
        self.last = None; self.printed = None
        self.known = {os.fsencode(n): v for n, _, v in self.inputs.values() if v}
        self.known[b"old.png"] = image(w, h, px)
    def input(self, kind):
        if kind == "missing": return "nothing here.png"
        if kind == "dir": return "folder.png"
        if kind == "out": return self.last or "in.png"
        return self.inputs[kind][0]
    def gen(self, x):
        r = self.rnd
        a = []
        def opt(name, short, v):
            m = r.random()
            if short and m < .4 and not v.startswith("-"): a.append([f"-{short}", v])
            elif m < .7 and not v.startswith("-"): a.append([f"--{name}", v])
            else: a.append([f"--{name}={v}"])
        if x["min"] != -1: opt("min-size", "m", "four" if x["min"] == -2 else str(x["min"]))
        if x["max"] != -1: opt("max-size", None, "" if x["max"] == -2 else str(x["max"]))
        if x["bound"] != "none":
            opt("error-bound", "e", "x" if x["bound"] == "bad" else "NaN" if x["bound"] == "nan" else repr(BOUNDS[x["bound"]]))
        name = self.input(x["img"]); a.append([name]); r.shuffle(a)
        return ["generate-palette"] + [z for q in a for z in q], {"ev": "gen", "min": x["min"], "max": x["max"], "boundok": int(x["bound"] != "bad"),
                                                                 "b": bits(BOUNDS[x["bound"]]), "i": codes(name)}
    def rec(self, x):
        r = self.rnd
        pal, kind = self.pal, x["pal"]
        if kind == "more": pal = self.more
        elif kind == "other": pal = self.other
        elif kind == "twice": pal = self.pal + [r.choice(self.pal)]
        elif kind == "flat": pal = [(i * 3, i * 5, 7) for i in range(5)]
        elif kind == "perm": pal = r.sample(self.pal, len(self.pal))
        elif kind == "short": pal = self.pal[:3]
        d = hexlist(r, pal)
        if kind == "printed" and self.printed is not None: d = self.printed
        n = d.count(",") + 1
        to = [rcol(r, 1) for _ in range(n)] if r.random() < .8 else [r.choice([(0, 0, 0), (255, 255, 255)]) for _ in range(n)]
        if kind == "long": to = to + [rcol(r, 1)] * r.choice([1, 2]) if r.random() < .5 else to[:-1]
        t = hexlist(r, to)
        if kind == "bad":
            if r.random() < .5: d = d[:-1]
            else: t = t.replace(",", ";", 1)
        out = {"new": f"out{r.randrange(3)}.png", "sub": "sub/result.bmp", "dots": "a.b..c.png", "blank": "two words.png", "unicode": r.choice(["größe_é.png", "größe_é.png", "bl\udcff_\udc80\udce9.png", "sub/\udcc3.\udc9f.bmp"]),
               "upper": "OUT.PNG", "format": r.choice(["pic2.bmp", "pic2.tga", "pic2.tiff", "pic2.tif"]), "noext": "out", "unknown": "out.xyz", "nodir": "none/out.png",
               "isdir": "folder.png", "same": self.input(x["img"]) if x["img"] not in ("missing", "dir") else "in.png", "old": "old.png", "hidden": ".png"}[x["out"]]
        name = self.input(x["img"])
        pre = lambda s: r.choice(["", "", "./", os.fsdecode(self.d.root) + "/"]) + s
        a = [[r.choice(["-d", "--decomposition-palette"]), d], [r.choice(["-r", "--reconstruction-palette"]), t],
             [r.choice(["-i", "--input-image"]), pre(name)], [r.choice(["-o", "--output-image"]), pre(out)]]
        if x["c"]: a.append([r.choice(["-c", "--save-individual-channels"])])
        r.shuffle(a)
        self.out = out
        return ["recolor-image"] + [z for q in a for z in q], {"ev": "rec", "d": codes(d), "r": codes(t), "i": codes(name), "o": codes(out), "c": x["c"]}

def runs(exe, base, hists, rnd, store):
    """Performs the histories; the contents of written files are kept in `store`."""
    def one(n):
        r = random.Random(f"{n}/{rnd}")
        sc = Scene(Dir(base, n), r, any(x.get("img") == "large" for x in hists[n]), next((x["pic"] for x in hists[n] if "pic" in x), None)); d = sc.d
        before = d.snap()
        steps = [{"ev": "setup", "files": before, "known": dict(sc.known), "changed": None}]
        for x in hists[n]:
            args, e = sc.gen(x) if x["cmd"] == "gen" else sc.rec(x)
            e["dirs"] = d.dirs(); e["argv"] = args
            res = run(exe, args, d.root, d.home)
            now = d.snap()
            e.update(res); e["data"] = before.get(bytes(e["i"])) if bytes(e["i"]) in before else None
            e["files"] = {f: c for f, c in now.items() if before.get(f) != c}
            e["gone"] = [list(f) for f in before if f not in now]
            if x["cmd"] == "rec" and res["code"] == 0: sc.last = sc.out
            if x["cmd"] == "gen" and res["code"] == 0: sc.printed = bytes(res["out"]).decode("latin1").strip() or sc.printed
            before = now
            steps.append(e)
        shutil.rmtree(d.root); shutil.rmtree(d.home)
        return steps
    with ThreadPoolExecutor(CPUS) as ex: return list(ex.map(one, range(len(hists))))

def parse(t):
    try: return [tuple(bytes.fromhex(x)) for x in bytes(t).decode().split(",")]
    except ValueError: return None

def complete(vh, rec, base):
    """Contents of all files, and what the library says about each run."""
    blobs = {}
    for s in rec:
        for e in s:
            for f, c in e.get("files", {}).items():
                if s[0]["known"].get(f) is None or s[0]["files"].get(f) != c: blobs.setdefault((c, os.path.splitext(f)[1]), None)
    keys = list(blobs)
    paths = []
    for i, (c, ext) in enumerate(keys):
        p = os.path.join(os.fsencode(base), b"blob%d" % i + ext); open(p, "wb").write(c); paths.append(p)
    n = 200
    ans = replay([vh, "recolor"], [[f"F {p.hex()}" for p in paths[i:i + n]] for i in range(0, len(paths), n)])
    for k, x in zip(keys, [x for s in ans for x in s]):
        blobs[k] = {"k": "image", "w": x["w"], "h": x["h"], "px": x["px"]} if x.get("res") == "ok" else other(k[0])
    for p in paths: os.unlink(p)
    def content(s, f, c):
        if s[0]["files"].get(f) == c and f in s[0]["known"]: return s[0]["known"][f]
        return blobs[(c, os.path.splitext(f)[1])]
    ask = []
    for s in rec:
        for e in s:
            if e["ev"] == "setup": continue
            f = bytes(e["i"])
            data = e.pop("data")
            e["input"] = content(s, f, data) if data is not None else NOTHING
            i = e["input"]
            if i["k"] != "image": e["lib"] = {"res": "none"}; continue
            px = " ".join(map(str, i["px"]))
            if e["ev"] == "gen":
                mn, mx = 4 if e["min"] == -1 else e["min"], 10 if e["max"] == -1 else e["max"]
                if mn < 0 or mx < 0: e["lib"] = {"res": "none"}; continue
                ask.append((e, [f"J {i['w']} {i['h']} {px}", f"Q {mn} {mx} {e['b']}"], (mn, mx)))
            else:
                d, r = parse(e["d"]), parse(e["r"])
                if d is None or r is None or len(d) != len(r) or any(len(c) != 3 for c in d + r): e["lib"] = {"res": "none"}; continue
                ask.append((e, [f"I {i['w']} {i['h']} {px}", f"D {len(d)} {op_colors(d)}", f"R {len(r)} {op_colors(r)}"] + [f"G {c}" for c in range(len(d))], (d, r)))
    for (e, ops, x), a in zip(ask, replay([vh, "recolor"], [o for _, o, _ in ask])):
        if e["ev"] == "gen": e["lib"] = {"res": a[-1]["res"], "pal": a[-1].get("pal", []), "min": x[0], "max": x[1]} if a[-1]["ev"] == "pal" else {"res": "none"}
        else:
            ok = len(a) == len(ops) and a[0]["res"] == "ok" and all(y.get("res") == "ok" for y in a[1:])
            e["lib"] = {"res": "ok", "d": x[0], "r": x[1], "rec": [c for p in a[2]["px"] for c in p],
                        "layers": [{"k": "image", "w": y["w"], "h": y["h"], "px": [c for g in y["px"] for c in (g, g, g)]} for y in a[3:]]} if ok else {"res": "none"}
    for s in rec:
        for e in s:
            files = e["files"]
            e["changed"] = [{"name": list(f), "content": content(s, f, c)} for f, c in sorted(files.items())]
            if e["ev"] != "setup":
                e["argv"] = [a if isinstance(a, str) else a.decode("latin1") for a in e["argv"]]
        for e in s[1:]: e.pop("files")
        # pixels of large images are only compared, so a digest will do
        for e in s:
            for x in [e.get("input", {})] + [y["content"] for y in e["changed"]] + e.get("lib", {}).get("layers", []):
                if len(x.get("px", [])) > 9000: x["px"] = list(hashlib.sha256(bytes(x["px"])).digest())
            if len(e.get("lib", {}).get("rec", [])) > 9000: e["lib"]["rec"] = list(hashlib.sha256(bytes(e["lib"]["rec"])).digest())
        keep = {k: s[0][k] for k in ("ev", "changed")}
        s[0].clear(); s[0].update(keep)

import random

def check(prop, tier, seed, rnd):
    big = tier == "thorough"
    vh = os.path.join(build(), "vh")
    exe = build_cli()
    base = workdir("cli")
    try:
        if prop == "L01":
            model("CliArgs", {"Edits": 1, "Random": "FALSE"}, invariants=["Agree"], deadlock=False, name="CliArgs (one edit)")
            t = generate("CliArgs", {"Edits": 1, "Random": "FALSE"}, invariants=["Agree", "Emit"])
            t += generate("CliArgs", {"Edits": 0, "Random": "FALSE"}, invariants=["Emit"])
            t += generate("CliArgs", {"Edits": 2, "Random": "TRUE"}, invariants=["Agree", "Emit"], simulate=1500 if not big else 15000, depth=3, seed=seed)
            t += generate("CliArgs", {"Edits": 4, "Random": "TRUE"}, invariants=["Agree", "Emit"], simulate=500 if not big else 8000, depth=5, seed=seed)
            t += generate("CliShapes", {"MaxItems": 3, "MaxLen": 8 if not big else 13}, invariants=["Agree", "Emit"])
            seen = {}
            for x in t: seen.setdefault(bytes(x["t"]), x["t"])
            texts = list(seen.values()); rnd.shuffle(texts)
            # every byte in the place of a digit, and pairs of them
            g = codes("00ff7f,a0B1c2")
            texts += [g[:i] + [b] + g[i + 1:] for b in range(1, 256) for i in ([3, 9] if not big else range(13))]
            texts += [codes("%06x" % rnd.randrange(1 << 24)) for _ in range(50)]
            rec = probes(exe, base, rnd, texts, 40)
            # what accepted lists mean: full runs
            hists = [[{"cmd": "rec", "pal": rnd.choice(["good", "more", "other", "perm"]), "img": rnd.choice(["png", "png2", "bmp"]), "out": "new", "c": 1} for _ in range(4)] for _ in range(40 if not big else 400)]
            full = runs(exe, base, hists, seed, base); complete(vh, full, base)
            sessions = [[e.get("argv", [e.get("d"), e.get("r")]) for e in s] for s in rec + full]
            rec += full
            n = len(texts)
        else:
            one = generate("CliGen", {"Depth": 1, "Random": "FALSE"}, invariants=["Emit"])
            rnd.shuffle(one); g = [x for x in one if x[0]["cmd"] == "gen"]; r = [x for x in one if x[0]["cmd"] == "rec"]
            if not big: g, r = g[:900], r[:1500]
            single = [x[0] for x in g + r]; rnd.shuffle(single)
            hists = [single[i:i + 10] for i in range(0, len(single), 10)]
            hists += generate("CliGen", {"Depth": 12, "Random": "TRUE"}, invariants=["Emit"], simulate=60 if not big else 700, depth=13, seed=seed)
            # mostly valid ones, with long histories
            for _ in range(50 if not big else 500):
                hists.append([{"cmd": "gen", "min": rnd.choice([-1, 4, 5, 6]), "max": rnd.choice([-1, 4, 6, 8]), "bound": rnd.choice(list(BOUNDS)[:5]), "img": rnd.choice(["png", "png2", "rgba", "bmp", "out"])} if rnd.random() < .3 else
                              {"cmd": "rec", "pal": rnd.choice(["good", "more", "other", "perm", "printed", "printed"]), "img": rnd.choice(["png", "png2", "rgba", "bmp", "out"]),
                               "out": rnd.choice(["new", "sub", "dots", "blank", "unicode", "upper", "format", "same", "old"]), "c": rnd.choice([0, 1])} for _ in range(8)])
            for _ in range(10 if not big else 60):
                hists.append([{"cmd": "rec", "pal": rnd.choice(["good", "more"]), "img": "large", "out": "new", "c": rnd.choice([0, 1])},
                              {"cmd": "gen", "min": -1, "max": -1, "bound": rnd.choice(["none", "small"]), "img": "large"}])
            kinds = sharp(vh, rnd, 500 if not big else 2000); log("%d kinds of limits that matter" % len(kinds))
            for ps in kinds:
                for pic in rnd.sample(ps, min(len(ps), 4 if not big else 30)):
                    hists.append([{"cmd": "gen", "min": -1, "max": -1, "bound": "none", "img": "sharp", "pic": pic}] +
                                 [{"cmd": "gen", "min": rnd.choice([-1, 4, 5, 7]), "max": rnd.choice([-1, 6, 9, 10, 11, 255]), "bound": rnd.choice(["none", "none", "zero", "small", "mid"]), "img": "sharp"} for _ in range(3)])
            rec = runs(exe, base, hists, seed, base); complete(vh, rec, base)
            sessions = [[e.get("argv") for e in s] for s in rec]
            n = sum(len(h) for h in hists)
        if os.environ.get("KEEP"): json.dump(rec, open("/tmp/rec.json", "w"))
        bad = validate("CliTrace", rec, {"Prop": f'"{prop}"'})
        good = sum(1 for s in rec for e in s if e["ev"] in ("gen", "rec") and e["code"] == 0)
        finish(prop, tier, seed, describe(bad, sessions, rec, "command line program"), [sessions[0][:4], sessions[-1][:4]],
               {"runs": sum(len(s) - 1 for s in rec), "texts_or_configurations": n, "successful_runs": good},
               ["image files are encoded by the check (PNG, BMP) and decoded by the image crate"])
    finally:
        shutil.rmtree(base, ignore_errors=True)
