"""P01..P03: computed palettes."""
import os
from vlib import *
import gen3
from chk_recolor import rcol, rpal, image_from, op_img, op_pal, CUBE

INF = 1000000

def colors(rnd):
    step = rnd.choice([1, 1, 17, 51, 85]); n = rnd.choice([5, 6, 9, 12, 16, 20])
    for _ in range(100):
        m = rnd.random()
        if m < .1:  # pairs (or more) of nearly equal colors: narrow faces
            lo = rnd.choice([0, 40, 70]); r = rnd.choice([1, 2, 4, 7])
            b = [tuple(rnd.randint(lo, 255 - lo) for _ in range(3)) for _ in range(rnd.randint(4, 7))]
            c = b + [tuple(min(255, max(0, x + rnd.randint(-r, r))) for x in q) for q in b for _ in range(rnd.choice([1, 1, 2]))]
        elif m < .3: c = [rcol(rnd, step) for _ in range(n)]
        elif m < .6: c = rpal(rnd, step, n)
        elif m < .8: c = [tuple(min(255, max(0, int(rnd.gauss(128, 40)))) for _ in range(3)) for _ in range(n)]
        elif m < .9:  # around a corner of the color space: simplification makes imaginary colors
            k = rnd.choice(CUBE)
            c = [tuple(abs(x - min(255, int(abs(rnd.gauss(0, 60))))) for x in k) for _ in range(n)]
        else:  # a thin cloud along the gray axis
            c = []
            for _ in range(n):
                g = rnd.randrange(256); c.append(tuple(min(255, max(0, g + rnd.randrange(-12, 13))) for _ in range(3)))
        c = list(dict.fromkeys(c))
        if not gen3.flat(c): return c
    raise ToolError("no colors")

def cloud(rnd):
    """Colors in general position, mostly away from the limits of the color space."""
    while True:
        n = rnd.choice([5, 6, 6, 7, 7, 8, 8, 9, 10, 11]); lo, hi = rnd.choice([(0, 255), (40, 215), (60, 195), (90, 165)])
        if rnd.random() < .5: c = [tuple(rnd.randint(lo, hi) for _ in range(3)) for _ in range(n)]
        else:  # on a ball: all of them are corners
            r = (hi - lo) / 2; c = []; many = rnd.choice([1, 1, 10])
            flat = rnd.choice([1, 1, 1.5, 2])
            for _ in range(n):
                best = None
                for _ in range(many):  # far from the others, so that no face is narrow
                    g = [rnd.gauss(0, 1) for _ in range(3)]; l = sum(x * x for x in g) ** .5
                    q = tuple(int((hi + lo) / 2 + r * x / l / k) for x, k in zip(g, (1, 1, flat)))
                    m = min((gen3.dot(gen3.sub(q, p), gen3.sub(q, p)) for p in c), default=0)
                    if best is None or m > best[0]: best = (m, q)
                c.append(best[1])
        if rnd.random() < .15:  # colors in pairs: narrow faces
            r = rnd.choice([4, 7, 10])
            c = [q for p in c[:6] for q in (p, tuple(min(255, max(0, x + rnd.randint(-r, r))) for x in p))]
        elif rnd.random() < .3:  # a coarse body with cut corners
            k = rnd.randrange(len(c)); p = c.pop(k)
            for q in rnd.sample(c, 3): c.append(tuple((4 * a + b + rnd.randint(-1, 1)) // 5 for a, b in zip(p, q)))
        c = list(dict.fromkeys(c))
        if len(c) >= 5 and not gen3.flat(c): return c

def picture(rnd, cols, weighted=True):
    """Every color at least once, some much more often."""
    px = list(cols)
    if weighted:
        for c in rnd.sample(cols, rnd.randrange(1, 4)): px += [c] * rnd.randrange(0, 25)
    rnd.shuffle(px)
    w = rnd.choice([1, 2, 3, len(px)])
    while len(px) % w: px.append(rnd.choice(cols))
    return (w, len(px) // w, px)

def op_pic(w, h, px): return f"J {w} {h} " + " ".join(f"{a} {b} {c}" for a, b, c in px)

def mosaic(rnd, w, h):
    """So many copies that 16 bits can't count the pixels."""
    n = rnd.choice([70000, 300000, 300000]) // (w * h) + 1
    return rnd.choice([(n, 1), (1, n), (int(n ** .5) + 1, int(n ** .5) + 1)])

def limits(rnd, V):
    return f"P {rnd.choice([0, 1, 4, 4, 5, 6, 7, 8, V - 1, V, V + 1, 200])} {rnd.choice([0, 4, 5, 6, 7, 8, 10, V - 1, V, V + 1, 255])} {rnd.choice([-1, 0, 1, 4, 8, 20, 60, 200, INF])}"

def nearest(p, t):
    """The distance of p to a triangle."""
    a, b, c = t; best = None
    e, f, r = gen3.sub(b, a), gen3.sub(c, a), gen3.sub(p, a)
    ee, ef, ff, er, fr = gen3.dot(e, e), gen3.dot(e, f), gen3.dot(f, f), gen3.dot(e, r), gen3.dot(f, r)
    m = ee * ff - ef * ef
    if m:
        u, v = (ff * er - ef * fr) / m, (ee * fr - ef * er) / m
        if u >= 0 and v >= 0 and u + v <= 1: return max(0, gen3.dot(r, r) - u * er - v * fr) ** .5
    for x, y in ((a, b), (a, c), (b, c)):
        g, r = gen3.sub(y, x), gen3.sub(p, x)
        l = min(1, max(0, gen3.dot(g, r) / (gen3.dot(g, g) or 1)))
        d = sum((i - l * j) ** 2 for i, j in zip(r, g))
        if best is None or d < best: best = d
    return best ** .5

def exact_rms(pal, px):
    """The same with the distances to the hull and not just its planes."""
    S = gen3.planes(pal); t = 0; seen = {}
    for p in px:
        if p not in seen:
            out = max((gen3.dot(n, p) - o for n, o, _ in S)) > 0
            seen[p] = min(nearest(p, [pal[i] for i in x]) for _, _, x in S) ** 2 if out else 0
        t += seen[p]
    return (t / len(px)) ** .5

def rms(pal, px):
    """Only used to choose interesting bounds."""
    S = gen3.planes(pal)
    t = 0
    for p in px:
        d = max((gen3.dot(n, p) - o) / gen3.dot(n, n) ** .5 for n, o, _ in S)
        t += max(0, d) ** 2
    return (t / len(px)) ** .5

def check(prop, tier, seed, rnd):
    big = tier == "thorough"
    sessions = []
    d = build()
    argv = [os.path.join(d, "vh"), "recolor"]
    if prop == "P01":
        for _ in range(700 if not big else 9000):
            c = colors(rnd); V = len(gen3.extreme(c))
            if rnd.random() < .5:
                w, h, px = picture(rnd, c); ops = [op_pic(w, h, px)]; use = []
            else:
                ops = [op_img(*image_from(rnd, c + c[:1], rnd.choice([(4, 3), (4, 4), (5, 4), (3, 6)])))]; use = ["DP"]
                if gen3.flat([tuple(map(int, x)) for x in zip(*[iter(ops[0].split()[3:])] * 3)]): continue
            for k in range(4, min(V + 2, 14)): ops += [f"P {k} 255 {INF}"] + use
            for _ in range(6): ops += [limits(rnd, V)] + use
            sessions.append(ops)
    elif prop == "P03":
        for _ in range(900 if not big else 12000):
            c = colors(rnd); V = len(gen3.extreme(c))
            ops = [op_pic(*picture(rnd, c))]
            for k in range(4, V + 2): ops.append(f"P {k} 255 {INF}")
            for _ in range(4): ops.append(limits(rnd, V))
            sessions.append(ops)
    elif prop == "P04":
        for _ in range(450 if not big else 12000):
            c = cloud(rnd); V = len(gen3.extreme(c))
            sessions.append([op_pic(*picture(rnd, c))] + [f"P {k} 255 {INF}" for k in range(4, V + 2)])
    else:
        n = 8 if big else 6
        model("PaletteLoop", {"Prop": '"P02"', "N0": n, "Errs": "{0, 10, 20}"}, invariants=["Selected", "Sized", "Function"],
              properties=["Finishes"], deadlock=False, name=f"PaletteLoop (all chains of hulls of up to {n} corners, all limits)")
        # First see the chains, then ask with bounds around the errors of their stages
        pics = []
        for _ in range(700 if not big else 9000):
            c = colors(rnd); pics.append((picture(rnd, c), len(gen3.extreme(c))))
        chain = [[op_pic(*p)] + [f"P {k} 255 {INF}" for k in range(4, V + 2)] for p, V in pics]
        rec = replay(argv, chain)
        for (p, V), ops, r in zip(pics, chain, rec):
            ops = list(ops)
            pals = []
            for s in r[1:]:
                if s.get("res") == "ok" and s["pal"] not in pals: pals.append(s["pal"])
            bounds = []
            for q in pals[:8]:
                ops.append(op_pal("W", q))
                try: e = rms([tuple(x) for x in q], p[2])
                except ValueError: e = 0
                if e > 0.3: bounds += [round(4 * e * f + g) for f, g in ((1, -2), (1, 2), (1, -4), (1, 4), (1.3, 2), (.7, -2))]
            bounds = [b for b in bounds if b >= 0]
            fine = []
            if len(p[2]) <= 120:
                for q in rnd.sample(pals[:8], min(len(pals), 8, 3)):
                    try: e = exact_rms([tuple(x) for x in q], p[2])
                    except ValueError: continue
                    if .2 < e < 30: fine += [round(32 * e + g) for g in (-3, -2, 2, 3)]
            for b in fine: ops.append(f"PF {rnd.choice([0, 4, 4, 5])} {rnd.choice([255, 255, 200, 8])} {b}")
            for _ in range(10):
                mn = rnd.choice([0, 4, 4, 4, 5, 6, 7, 8, V - 1, V]); mx = rnd.choice([0, 4, 5, 6, 7, 8, 9, 10, V - 1, V, V + 1, 255])
                b = rnd.choice(bounds) if bounds and rnd.random() < .6 else rnd.choice([-1, -1, INF, 0, 8])
                ops.append(f"P {mn} {mx} {b}")
            sessions.append(ops)
    for ops in rnd.sample([o for o in sessions if o[0].startswith("J ")], 12 if not big else 150):
        _, w, h, px = ops[0].split(" ", 3)
        ops[0] = "JR %d %d" % mosaic(rnd, int(w), int(h)) + f" {w} {h} {px}"
    rec = replay(argv, sessions)
    bad = validate("PaletteTrace", rec, {"Prop": f'"{prop}"'})
    finish(prop, tier, seed, describe(bad, sessions, rec, "vh recolor"), [sessions[0][:4], sessions[-1][-4:]],
           {"sessions": len(sessions), "operations": sum(map(len, sessions))},
           ["images of up to about 90 pixels and 20 colors, some of them repeated to make up 70000 or 300000 pixels"])
