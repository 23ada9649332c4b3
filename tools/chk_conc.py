"""T01, E01: results depend on the arguments only; degenerate requests are refused in an orderly way."""
import os, struct
from vlib import *
import gen3
from chk_palette import picture, colors, limits
from chk_geo import points, flatten, query
from chk_recolor import rcol, rpal

def bits(f): return "%016x" % struct.unpack(">Q", struct.pack(">d", f))[0]
def op_colors(px): return " ".join(f"{a} {b} {c}" for a, b, c in px)
def im(w, h, px): return f"{w} {h} {op_colors(px)}"
def pal(p): return f"{len(p)} {op_colors(p)}"

def flat_colors(rnd, n):
    m = rnd.random()
    if m < .2: return [rcol(rnd, 1)] * n
    if m < .35: a, b = rcol(rnd, 1), rcol(rnd, 1); return [rnd.choice((a, b)) for _ in range(n)]
    if m < .55: return [(g, g, g) for g in (rnd.randrange(256) for _ in range(n))]
    if m < .75:
        k = rnd.randrange(3); v = rnd.randrange(256); r = []
        for _ in range(n):
            c = list(rcol(rnd, 1)); c[k] = v; r.append(tuple(c))
        return r
    # in the plane r + g = const or r = g
    r = []
    for _ in range(n):
        a = rnd.randrange(256); r.append((a, 255 - a if m < .88 else a, rnd.randrange(256)))
    return r

def flat_image(rnd):
    """Its colors may span the color space, but colors and positions don't span theirs."""
    m = rnd.random()
    if m < .3:
        w, h = rnd.choice([(1, 8), (8, 1), (2, 2), (1, 1), (5, 1), (0, 0), (2, 1), (1, 5)])
        return (w, h, [rcol(rnd, 1) for _ in range(w * h)])
    w, h = rnd.choice([(3, 3), (4, 3), (3, 5), (2, 4)])
    if m < .7: return (w, h, flat_colors(rnd, w * h))
    k = rnd.randrange(3); a, b, c = rnd.randrange(0, 35), rnd.randrange(0, 35), rnd.randrange(0, 35)
    px = []
    for y in range(h):
        for x in range(w):
            q = list(rcol(rnd, 1)); q[k] = a * x + b * y + c; px.append(tuple(q))
    return (w, h, px)

def flat_points(rnd, d):
    m = rnd.random()
    if m < .3: return [[rnd.randint(0, 5) for _ in range(d)] for _ in range(rnd.randint(0, d))]
    n = rnd.randint(d + 1, d + 8)
    if m < .4: return [[rnd.randint(0, 5) for _ in range(d)]] * n
    if m < .55:
        v = [rnd.randint(0, 2) for _ in range(d)]; return [[k * x for x in v] for k in (rnd.randint(0, 6) for _ in range(n))]
    k = rnd.randrange(d); j = rnd.choice([i for i in range(d) if i != k]); c = rnd.randint(0, 4); r = []
    for _ in range(n):
        p = [rnd.randint(0, 5) for _ in range(d)]
        if m < .7: p[k] = c
        elif m < .85: p[k] = p[j]
        else: p[k] = c + 5 - p[j]
        r.append(p)
    return r

def solid_image(rnd):
    for _ in range(1000):
        w, h = rnd.choice([(3, 3), (4, 3), (5, 4), (6, 5)])
        cs = colors(rnd) if rnd.random() < .7 else rpal(rnd, 1, 6)
        px = [rnd.choice(cs) for _ in range(w * h)]
        if gen3.flat(px): continue
        if gen3.rank([tuple(c) + (i % w, i // w) for i, c in enumerate(px)]) == 5: return (w, h, px)
    raise ToolError("no image")

class World:
    """Shared objects and a pool of requests by kind; requests are (text, description)."""
    def __init__(self, rnd, crit):
        self.pool = {}; self.texts = []; self.descr = []
        i = solid_image(rnd); p = rpal(rnd, 17, rnd.choice([4, 5, 6, 8]))
        d = rnd.choice([2, 3, 3, 4, 5]); t = points(rnd, d)
        self.share = [f"share 1 I {im(*i)}", f"share 2 W {im(*i)}", f"share 3 D 2 {pal(p)}", f"share 4 T {d} {len(t)} {flatten(t)}"]
        for _ in range(2):
            j = solid_image(rnd)
            self.add("weights", f"D {im(*j)} {pal(rpal(rnd, 17, rnd.choice([4, 5, 7])))}", {"k": "rgbxy", "w": j[0], "h": j[1], "px": j[2]})
            self.add("pal", f"P {im(*j)} {rnd.choice([4, 5, 6])} {rnd.choice([4, 6, 255])} {bits(rnd.choice([-1.0, 0.0, 0.01, 0.05, 1e9]))}", {"k": "rgb", "px": j[2]})
            self.add("spal", f"SP 1 {rnd.choice([4, 5, 6])} {rnd.choice([4, 6, 255])} {bits(rnd.choice([-1.0, 0.0, 0.01, 0.05, 1e9]))}", {"k": "free"})
            e = rnd.choice([2, 3, 4, 5]); q = points(rnd, e)
            self.add("hull", f"H {e} {len(q)} 0 0 {flatten(q)}", {"k": "points", "d": e, "pts": q})
            e = rnd.choice([2, 3, 4, 5]); q = points(rnd, e)
            self.add("tri", f"T {e} {len(q)} 0 0 {flatten(q)}", {"k": "points", "d": e, "pts": q})
            self.add("decomp", f"SD 2 {pal(rpal(rnd, 17, rnd.choice([4, 5, 6, 9])))}", {"k": "free"})
            self.add("recon", f"SR 3 {pal([rcol(rnd, 1) for _ in p])}", {"k": "free"})
            self.add("gray", f"SG 3 {rnd.randrange(len(p) + 1)}", {"k": "free"})
            qs = [query(rnd, t, d, rnd.choice(["corner", "edge", "face", "inner", "inner", "outside", "grid"])) for _ in range(8)]
            self.add("locate", f"SQ 4 {len(qs)} {flatten(qs)}", {"k": "free"})
            e = rnd.choice([2, 3, 4, 5]); q = flat_points(rnd, e)
            self.add("badhull", f"H {e} {len(q)} 0 0 {flatten(q)}", {"k": "points", "d": e, "pts": q})
            e = rnd.choice([2, 3, 4, 5]); q = flat_points(rnd, e)
            self.add("badtri", f"T {e} {len(q)} 0 0 {flatten(q)}", {"k": "points", "d": e, "pts": q})
            j = flat_image(rnd)
            self.add("badweights", f"W {im(*j)}", {"k": "rgbxy", "w": j[0], "h": j[1], "px": j[2]})
            w, h = rnd.choice([(1, 1), (3, 3), (5, 1), (2, 4), (0, 0)]); c = flat_colors(rnd, w * h)
            self.add("badpal", f"P {im(w, h, c)} 4 255 {bits(rnd.choice([-1.0, 0.0, 1e9]))}", {"k": "rgb", "px": c})
        self.add("sweights", "SW 1", {"k": "free"})
        if crit:  # bounds next to the error of a stage, where every digit counts
            self.add("crit", f"P {im(*crit[0])} 4 255 {crit[1]:016x}", {"k": "rgb", "px": crit[0][2]})
    def add(self, kind, text, descr):
        self.texts.append(text); self.descr.append(descr)
        self.pool.setdefault(kind, []).append(len(self.texts))
    def pick(self, rnd, kind):
        if kind == "pal" and "crit" in self.pool and rnd.random() < .4: kind = "crit"
        return rnd.choice(self.pool[kind])
    def text(self, r): return self.texts[r - 1]

class Twins(World):
    """A family of requests, each of which differs from the first in one aspect only: results that
    are kept under too small a key, or left behind in a buffer, appear in another one's answer."""
    def __init__(self, rnd, kind):
        self.pool = {}; self.texts = []; self.descr = []; self.share = []
        w, h, px = solid_image(rnd)
        for _ in range(100):
            c = [rcol(rnd, 1) for _ in range(rnd.choice([7, 9, 12]))]
            if gen3.flat(c): continue
            n = len(c); w, h = 6, 6; px = c + [rnd.choice(c) for _ in range(36 - n)]
            if gen3.rank([tuple(q) + (i % w, i // w) for i, q in enumerate(px)]) == 5: break
        order = rnd.sample(px, len(px))
        counts = c + [c[rnd.randrange(2)] for _ in range(36 - n)]         # the same colors, other counts
        last = px[:-1] + [rcol(rnd, 1)]
        mid = tuple(sum(q[i] for q in c) // n for i in range(3)); inner = [mid if q == px[-1] and i >= n else q for i, q in enumerate(px)]
        if kind == "pal":
            b, b2 = rnd.sample([0.0, 0.01, 0.02, 0.05, 0.1], 2); q = [(w, h, px), (w, h, counts), (w, h, order), (w, h, last), (w, h, inner)]
            for i in q: self.twin(f"P {im(*i)} 4 {rnd.choice([10, 10, 255])} {bits(b)}")
            self.twin(f"P {im(*q[0])} 4 255 {bits(b2)}"); self.twin(f"P {im(*q[0])} 6 255 {bits(b)}")
        elif kind == "dec":
            p = rpal(rnd, 1, rnd.choice([4, 5, 6])); p2 = p[:-1] + [rcol(rnd, 1)]
            q = [(w, h, px), (4, 9, px), (w, h, order), (w, h, last)]
            for i in q: self.twin(f"D {im(*i)} {pal(p)}")
            self.twin(f"D {im(*q[0])} {pal(rnd.sample(p, len(p)))}"); self.twin(f"D {im(*q[0])} {pal(p2)}"); self.twin(f"D {im(*q[0])} {pal(p[:4])}")
        else:
            d = rnd.choice([2, 3, 4]); t = points(rnd, d)
            while len(t) < d + 4: t = points(rnd, d)
            one = [list(x) for x in t]; one[-1][rnd.randrange(d)] += 1
            k = rnd.randrange(d); turned = [x[:k] + [-x[k]] + x[k + 1:] for x in map(list, t)]
            for v in (t, rnd.sample(t, len(t)), one, t[:-1], turned, [[2 * x for x in r] for r in t], [[x + 1 for x in r] for r in t]):
                self.twin(f"{'H' if kind == 'hull' else 'T'} {d} {len(v)} 0 0 {flatten(v)}")
    def twin(self, text): self.add(f"twin{len(self.texts)}", text, {"k": "free"})

def critical(rnd, argv, n):
    """Pictures and bounds at which their palettes change."""
    def saturated():   # simplification makes many imaginary colors, so that many pixels have an error
        r = []
        for _ in range(100):
            c = list(rcol(rnd, 1)); c[rnd.randrange(3)] = rnd.choice((0, 255)); r.append(tuple(c))
        return list(dict.fromkeys(r))
    pics = [picture(rnd, colors(rnd) if rnd.random() < .15 else saturated(), False) for _ in range(n)]
    rec = replay(argv, [[f"crit {im(*p)} 4 255 {bits(0.0)} {bits(4.0)}"] for p in pics])
    return [(p, int(r[0]["bits"], 16) + rnd.choice([-1, 0, 0, 1])) for p, r in zip(pics, rec) if r[0]["ev"] == "crit"]

def check(prop, tier, seed, rnd):
    big = tier == "thorough"
    argv = [os.path.join(build(), "vh"), "conc"]
    for private in (True,):
        model("Contexts", {"Threads": "{1, 2, 3}", "Calls": 2, "Private": "TRUE"},
              invariants=["Own", "JumpsOwn", "Released"], properties=["Ends"], name="Contexts (3 threads, 2 calls each)")
    nw = (14 if not big else 60)
    crit = critical(rnd, argv, nw * 4) if prop == "T01" else []
    worlds = [World(rnd, crit[i % len(crit)] if crit else None) for i in range(nw)]
    twins = []
    if prop == "T01":
        for i in range(12 if not big else 60): twins.append(Twins(rnd, ["pal", "pal", "dec", "hull", "tri", "pal"][i % 6]))
    worlds += twins
    # every request alone in a process of its own
    alone, where = [], []
    for wi, w in enumerate(worlds):
        for r in range(1, len(w.texts) + 1):
            alone.append((w.share if w.text(r)[0] == "S" else []) + [f"one {r} {w.text(r)}"]); where.append(wi)
    res = replay(argv, alone, fresh=True)
    memo = [[] for _ in worlds]
    for wi, s in zip(where, res): memo[wi].append(s[-1].get("res", s[-1]["ev"]))
    sessions, world = [], []
    def session(wi, ops): sessions.append(ops); world.append(wi)
    if prop == "E01":
        progs = generate("MemoGen", {"Mode": '"seq"', "Depth": 3, "Threads": 1}, invariants=["Emit"])
        if big: progs += generate("MemoGen", {"Mode": '"seq"', "Depth": 4, "Threads": 1}, invariants=["Emit"])
        rnd.shuffle(progs)
        for i in range(0, len(progs), 4):
            wi = rnd.randrange(nw); w = worlds[wi]
            session(wi, [f"one {r} {w.text(r)}" for p in progs[i:i + 4] for r in (w.pick(rnd, k) for k in p)])
        for wi, w in enumerate(worlds):   # refusals and answers on several threads
            for _ in range(3):
                ops = list(w.share); n = rnd.randint(2, 8)
                for t in range(1, n + 1):
                    for _ in range(6):
                        r = w.pick(rnd, rnd.choice(["badhull", "badtri", "badpal", "badweights", "hull", "tri", "pal", "locate"])); ops.append(f"add {t} {r} {w.text(r)}")
                session(wi, ops + ["go"] + [f"one {r} {w.text(r)}" for r in rnd.sample(range(1, len(w.texts) + 1), 6)])
            ops = []
            for k in ("badhull", "badtri", "badpal", "badweights"):
                for r in w.pool[k]: ops.append(f"many {r} 60 {w.text(r)}")
            for k in ("hull", "tri", "pal", "weights"):
                r = w.pick(rnd, k); ops.append(f"one {r} {w.text(r)}")
            session(wi, ops)
    else:
        progs = generate("MemoGen", {"Mode": '"par"', "Depth": 1, "Threads": 3}, invariants=["Emit"])
        progs += rnd.sample(p2 := generate("MemoGen", {"Mode": '"par"', "Depth": 2, "Threads": 2}, invariants=["Emit"]), 900 if not big else len(p2))
        rnd.shuffle(progs)
        for i in range(0, len(progs), 25):
            wi = rnd.randrange(nw); w = worlds[wi]; ops = list(w.share)
            for p in progs[i:i + 25]:
                n, m = (3, 1) if len(p) == 3 else (2, 2)
                for j, k in enumerate(p):
                    r = w.pick(rnd, k); ops.append(f"add {j // m + 1} {r} {w.text(r)}")
                ops.append("go")
            session(wi, ops)
        for _ in range(40 if not big else 400):   # up to eight threads, longer programs, often the same request
            wi = rnd.randrange(nw); w = worlds[wi]; ops = list(w.share)
            for _ in range(3):
                n = rnd.randint(2, 8); same = rnd.random() < .4; fav = rnd.randint(1, len(w.texts))
                for t in range(1, n + 1):
                    for _ in range(rnd.randint(1, 10)):
                        r = fav if same and rnd.random() < .8 else rnd.randint(1, len(w.texts)); ops.append(f"add {t} {r} {w.text(r)}")
                ops.append("go")
            session(wi, ops)
        seqs = generate("MemoGen", {"Mode": '"twin"', "Depth": 3, "Threads": 1}, invariants=["Emit"])
        for wi in range(nw, nw + len(twins)):
            w = worlds[wi]; rnd.shuffle(seqs)
            for i in range(0, len(seqs) if big else 100, 10):
                session(wi, [f"one {r} {w.text(r)}" for q in seqs[i:i + 10] for r in (w.pick(rnd, k) for k in q)])
        for wi, w in enumerate(worlds[:nw]):   # one after the other, repeatedly and in different orders
            rs = [r for r in range(1, len(w.texts) + 1)] * 2; rnd.shuffle(rs)
            session(wi, w.share + [f"one {r} {w.text(r)}" for r in rs] +
                    [f"many {r} 10 {w.text(r)}" for k in ("pal", "spal", "weights", "hull", "tri", "locate") for r in w.pool[k][:1]] +
                    [f"many {r} 40 {w.text(r)}" for r in w.pool.get("crit", [])])
        many = {}
        for i, (p, b) in enumerate(crit):         # equal calls in many processes and often
            w = World.__new__(World); w.pool = {}; w.texts = []; w.descr = []; w.share = []
            for k in range(-2, 3): w.add("crit", f"P {im(*p)} 4 255 {b + k:016x}", {"k": "rgb", "px": p[2]})
            worlds.append(w); memo.append(None)
            many[len(worlds) - 1] = [f"one {r} {w.text(r)}" for r in range(1, 6)]
            session(len(worlds) - 1, [f"many {r} 25 {w.text(r)}" for r in range(1, 6)])
        for (wi, _), s in zip(many.items(), replay(argv, list(many.values()), fresh=True)):
            memo[wi] = [x.get("res", x["ev"]) for x in s]
    raw = replay(argv, sessions, op_timeout=120)
    rec = []
    for s in raw:
        steps = [{"ev": "check"}]
        for x in s:
            if x["ev"] == "go": steps += [{"ev": "end" if e[0] else "begin", "t": e[1], "r": e[2], **({"res": e[3]} if e[0] else {})} for e in x["log"]]
            else: steps.append(x)
        rec.append(steps)
    info = [{"reqs": worlds[w].descr, "alone": memo[w]} for w in world]
    bad = validate("MemoTrace", rec, {"Prop": f'"{prop}"'}, info=info)
    out = []
    for i, k, why in bad:
        st = rec[i][k] if k < len(rec[i]) else None
        if st and st["ev"] == "check":
            w = worlds[world[i]]
            why += " (refusals of single requests)"; st = {"requests": [(t[:300], m) for t, m in zip(w.texts, memo[world[i]])]}
        out.append({"reason": why, "driver": "vh conc", "session": i, "rejected_step": k + 1, "step": st, "alone": memo[world[i]],
                    "texts": worlds[world[i]].texts, "script": sessions[i], "recorded": rec[i][:k + 1]})
    finish(prop, tier, seed, out, [sessions[0][:6], sessions[-1][:3]],
           {"sessions": len(sessions), "operations": sum(map(len, sessions)), "requests_in_processes_of_their_own": len(alone)},
           ["interleavings of threads are those the machine produces"])
