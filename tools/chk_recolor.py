"""R01..R06: images, weights, decompositions, layers, reconstructions."""
import itertools, os
from vlib import *
import gen3

CUBE = [(r, g, b) for r in (0, 255) for g in (0, 255) for b in (0, 255)]

def rcol(rnd, step):
    return tuple(rnd.randrange(0, 255 // step + 1) * step for _ in range(3))

def rpal(rnd, step, n, tries=200):
    """A usable palette of about n colors on the grid of multiples of step."""
    for _ in range(tries):
        if step == 1 and rnd.random() < .3:
            # on a sphere: many corners
            P = []
            for _ in range(n):
                v = [rnd.gauss(0, 1) for _ in range(3)]; l = sum(x*x for x in v) ** .5 or 1
                P.append(tuple(max(0, min(255, round(127.5 + 127 * x / l))) for x in v))
        elif rnd.random() < .25:
            P = rnd.sample(CUBE, min(8, n)) + [rcol(rnd, step) for _ in range(max(0, n - 8))]
        else:
            P = [rcol(rnd, step) for _ in range(n + rnd.randrange(3))]
        P = list(dict.fromkeys(P))
        if gen3.flat(P): continue
        P = gen3.extreme(P)
        if len(P) < 4: continue
        rnd.shuffle(P)
        return P
    raise ToolError("no palette found")

def solid(w, h, px):
    return gen3.rank([(*c, i % w, i // w) for i, c in enumerate(px)]) == 5

SHAPES = [(2, 3), (3, 2), (3, 3), (4, 3), (3, 4), (4, 4), (2, 7), (7, 2), (5, 4), (2, 5), (6, 3), (5, 5), (6, 6), (12, 2), (2, 11), (8, 5)]

def image_from(rnd, cols, shape=None):
    """A picture with colors out of cols whose RGBXY hull is solid."""
    for _ in range(200):
        w, h = shape or rnd.choice(SHAPES)
        m = rnd.random()
        if m < .6: px = [rnd.choice(cols) for _ in range(w * h)]
        elif m < .8:  # blocks of color
            k = rnd.sample(cols, min(len(cols), 5))
            px = [k[(x * 2 // w + 2 * (y * 2 // h) + (rnd.random() < .2)) % len(k)] for y in range(h) for x in range(w)]
        else:  # mostly one color
            c = rnd.choice(cols)
            px = [c if rnd.random() < .6 else rnd.choice(cols) for _ in range(w * h)]
        if solid(w, h, px): return w, h, px
        if shape and _ > 50: shape = None
    raise ToolError("no image found")

def inner_cols(rnd, P, n, step=1):
    """Colors inside the hull of P, among them corners, edge and face points."""
    S = gen3.planes(P)
    res = []
    for _ in range(30 * n):
        m = rnd.random()
        if m < .2: c = rnd.choice(P)
        else:
            k = rnd.sample(P, min(len(P), 2 if m < .35 else 3 if m < .5 else 4))
            ws = [rnd.random() for _ in k]; s = sum(ws)
            c = tuple(round(sum(wt * q[i] for wt, q in zip(ws, k)) / s / step) * step for i in range(3))
            c = tuple(max(0, min(255 // step * step, x)) for x in c)
        if gen3.inside(S, c): res.append(c)
        if len(res) >= n: break
    return res or list(P)

def op_img(w, h, px): return f"I {w} {h} " + " ".join(f"{a} {b} {c}" for a, b, c in px)
def op_pal(k, P): return f"{k} {len(P)} " + " ".join(f"{a} {b} {c}" for a, b, c in P)

def bad_palette(rnd, kind, step):
    if kind == "empty": return []
    if kind == "short": return [rcol(rnd, step) for _ in range(rnd.randrange(1, 4))]
    P = rpal(rnd, step, rnd.choice([4, 5, 6, 8]))
    if kind == "dup":
        P = list(P); P.insert(rnd.randrange(len(P) + 1), rnd.choice(P)); return P
    if kind == "flat":
        c0, c1, c2 = (rcol(rnd, 51) for _ in range(3))
        if rnd.random() < .3: return [tuple(51 * i if a == rnd.randrange(3) else 0 for a in range(3)) for i in range(5)]
        ax = rnd.randrange(3); v = rnd.choice([0, 255, 102])
        P = []
        for _ in range(rnd.randrange(4, 7)):
            c = list(rcol(rnd, step)); c[ax] = v; P.append(tuple(c))
        return P
    if kind == "inner":
        S = inner_cols(rnd, P, 12)
        c = [x for x in S if x not in P]
        if not c: return bad_palette(rnd, "dup", step)
        P = list(P); P.insert(rnd.randrange(len(P) + 1), rnd.choice(c)); return P
    raise ValueError(kind)

# ------------------------------------------------------------------ concretization of behaviors
def concretize(rnd, beh):
    """Turns an abstract behavior of RecolorGen into operations with data."""
    ops = []; P = None; S = None
    step = rnd.choice([1, 1, 17, 51])
    base = None
    for e in beh:
        op = e["op"]
        if op == "img":
            base = rpal(rnd, step, rnd.choice([4, 5, 6, 8]))
            if e["kind"] == "inside": cols = inner_cols(rnd, base, 12, step)
            else: cols = [rcol(rnd, step) for _ in range(10)]
            if gen3.flat(cols): cols = cols + base
            w, h, px = image_from(rnd, cols, rnd.choice(SHAPES[:10]))
            ops.append(op_img(w, h, px))
        elif op == "dec":
            if e["pal"] == "enclosing": P2 = list(base); rnd.shuffle(P2); P = P2; ops.append(op_pal("D", P))
            elif e["pal"] == "usable": P = rpal(rnd, step, rnd.choice([4, 5, 6, 8])); ops.append(op_pal("D", P))
            else: P = None; ops.append(op_pal("D", bad_palette(rnd, e["pal"], step)))
        elif op == "rec":
            n = len(P) + e["delta"]
            if e["delta"] == 0 and e["kind"] == "own": Q = P
            elif e["kind"] == "uniform": Q = [rcol(rnd, 1)] * n
            else: Q = [rcol(rnd, 1) for _ in range(n)]
            ops.append(op_pal("R", Q))
        elif op == "gray":
            c = {"first": 0, "mid": len(P) // 2, "last": len(P) - 1, "end": len(P), "past": len(P) + 1, "huge": 10**6}[e["c"]]
            ops.append(f"G {c}")
        elif op == "layers":
            ops += [f"G {i}" for i in range(len(P))]
    return ops

def histories(tier, seed, rnd, depth, sims):
    """All behaviors of the client protocol up to a depth, and random longer ones."""
    b = generate("RecolorGen", {"Depth": depth}, invariants=("Emit",))
    if sims:
        # (the simulator prints every last step it could have taken)
        more = generate("RecolorGen", {"Depth": 12}, simulate=sims, depth=14, seed=seed, invariants=("Emit",))
        b += rnd.sample(more, min(sims, len(more)))
    return b

# ------------------------------------------------------------------ data-driven sessions
def sess_identity(rnd):
    step = rnd.choice([1, 1, 1, 17, 51])
    P = rpal(rnd, step, rnd.choice([4, 4, 5, 6, 7, 8, 10, 12]))
    cols = inner_cols(rnd, P, rnd.choice([6, 10, 20, 40]), rnd.choice([1, step]))
    if gen3.flat(cols) or rnd.random() < .3: cols = cols + P
    w, h, px = image_from(rnd, cols)
    ops = [op_img(w, h, px), op_pal("D", P), op_pal("R", P)]
    for _ in range(rnd.randrange(3)):
        # further enclosing palettes from the same weights
        Q = rnd.choice([list(CUBE), list(P), gen3.extreme(list(P) + [rcol(rnd, 1) for _ in range(2)])])
        rnd.shuffle(Q)
        ops += [op_pal("D", Q), op_pal("R", Q)]
    return ops

def sess_nearest(rnd):
    step = rnd.choice([17, 17, 51, 1, 1])
    P = rpal(rnd, step, rnd.choice([4, 4, 4, 5, 6, 8, 9]))
    cols = [rcol(rnd, step) for _ in range(rnd.choice([8, 14, 25]))] + rnd.sample(CUBE, rnd.randrange(0, 5))
    if gen3.flat(cols): cols += P
    w, h, px = image_from(rnd, cols)
    ops = [op_img(w, h, px), op_pal("D", P), op_pal("R", P)]
    for _ in range(rnd.randrange(4)):
        Q = rpal(rnd, step, rnd.choice([4, 5, 6]))
        ops += [op_pal("D", Q), op_pal("R", Q)]
    return ops

def sess_mixture(rnd):
    step = rnd.choice([1, 17, 51])
    P = rpal(rnd, step, rnd.choice([4, 4, 5, 6, 8, 10]))
    cols = inner_cols(rnd, P, 12) if rnd.random() < .5 else [rcol(rnd, step) for _ in range(12)]
    if gen3.flat(cols): cols = cols + P
    w, h, px = image_from(rnd, cols)
    ops = [op_img(w, h, px), op_pal("D", P)] + [f"G {i}" for i in rnd.sample(range(len(P)), len(P))]
    ops.append(op_pal("R", [rcol(rnd, 1)] * len(P)))
    ops.append(op_pal("R", [(255, 255, 255)] * len(P)))
    for _ in range(3):
        Q = [rcol(rnd, rnd.choice([1, 255])) for _ in P]; ops.append(op_pal("R", Q))
    Q = list(P); Q[rnd.randrange(len(P))] = rcol(rnd, 1); ops.append(op_pal("R", Q))
    lo = [rnd.randrange(0, 200) for _ in range(3)]
    ops.append(op_pal("R", [tuple(l + rnd.randrange(0, 56) for l in lo) for _ in P]))
    return ops

def sess_star(rnd):
    step = rnd.choice([51, 51, 51, 17, 1])
    P = rpal(rnd, step, rnd.choice([4, 5, 6, 8, 9]))
    if rnd.random() < .15: P = list(CUBE); rnd.shuffle(P)
    cols = inner_cols(rnd, P, 10, step) if rnd.random() < .5 else [rcol(rnd, step) for _ in range(12)]
    cols += rnd.sample(P, 3)
    if gen3.flat(cols): cols = cols + P
    w, h, px = image_from(rnd, cols)
    ops = []
    ops.append(op_img(w, h, px))
    for i in range(rnd.randrange(1, 3)):
        if i: P = rpal(rnd, step, rnd.choice([4, 5, 6, 8, 9]))
        ops += [op_pal("D", P)] + [f"G {i}" for i in range(len(P))]
    return ops

def sess_large(rnd):
    """Images with more pixels than 16 bits can count, or more columns or rows than 8 bits can."""
    w, h = rnd.choice([(300, 230), (257, 256), (700, 95), (90, 740), (1100, 4), (3, 900), (260, 40)])
    P = rpal(rnd, 1, rnd.choice([4, 5, 6, 8])); n = rnd.choice([4, 6, 9])
    cols = list(dict.fromkeys(inner_cols(rnd, P, n)))
    if gen3.flat(cols) or rnd.random() < .5: cols = list(dict.fromkeys(cols + P))
    rnd.shuffle(cols)
    ops = [f"B {w} {h} {rnd.getrandbits(31)} {len(cols)} " + " ".join(f"{a} {b} {c}" for a, b, c in cols), op_pal("D", P), op_pal("R", P)]
    t = rnd.sample(range(3), 3); inv = rnd.random() < .7
    ops += [op_pal("R", [tuple(255 - p[i] if inv else p[i] for i in t) for p in P]), "GS", op_pal("R", [rcol(rnd, 1) for _ in P]),
            op_pal("R", P + P[:1]), op_pal("D", CUBE), op_pal("R", CUBE)]
    return ops

def sess_noise(rnd, prop):
    """Pictures of many colors, so that their hulls have hundreds of corners."""
    w, h = rnd.choice([(20, 17), (24, 20), (19, 23), (30, 16)] if prop in ("R01", "R03", "R06") else [(9, 11), (13, 10)])
    P = rpal(rnd, 1, rnd.choice([4, 5, 6, 8])) if rnd.random() < .6 else list(CUBE)
    if prop in ("R01", "R06") or rnd.random() < .3:
        cols = inner_cols(rnd, P, 500)
        if gen3.flat(cols): cols = cols + P
    else: cols = [rcol(rnd, 1) for _ in range(w * h)]
    px = list(cols[:w * h]); px += [rnd.choice(cols) for _ in range(w * h - len(px))]; rnd.shuffle(px)
    ops = [op_img(w, h, px), op_pal("D", P), op_pal("R", P)]
    if prop in ("R03", "R04"): ops[2:] = [f"G {i}" for i in range(len(P))] + [op_pal("R", [rcol(rnd, 1) for _ in P])]
    return ops

def long_palette(rnd, n):
    """Corners of a paraboloid on a grid, and for each a direction in which it is farthest out."""
    ax = rnd.sample(range(3), 3); s = [rnd.choice([-1, 1]) for _ in range(3)]
    res = []
    for x, y in rnd.sample([(x, y) for x in range(-7, 8) for y in range(-7, 8)], n):
        g = [(x, 17, 2 * x * 2), (y, 17, 2 * y * 2), (x * x + y * y, 2, -17)]
        c, d = [0] * 3, [0] * 3
        for a, (v, k, t), u in zip(ax, g, s):
            m = v * k + (128 if k == 17 else 20)
            c[a] = m if u == 1 else 255 - m; d[a] = u * t
        res.append((tuple(c), tuple(d)))
    return res

def sess_long(rnd, prop):
    """Long palettes, up to 225 colors."""
    n = rnd.choice([25, 40, 64, 65, 100, 127, 128, 129, 160, 225])
    W = long_palette(rnd, n); P = [c for c, _ in W]
    if prop == "R05": img = fixed_image(rnd)
    else:
        cols = rnd.sample(P, 12) if rnd.random() < .5 else [rcol(rnd, 1) for _ in range(10)] + CUBE[:4]
        img = op_img(*image_from(rnd, cols, (4, 3) if rnd.random() < .5 else (5, 3)))
    ops = [img, f"WD {n} " + " ".join(" ".join(map(str, c + d)) for c, d in W), op_pal("D", P)]
    if prop == "R05":
        for _ in range(3):
            Q = list(P); Q.insert(rnd.choice([0, n // 2, n, n]), rnd.choice(P)); ops.append(op_pal("D", Q))
            # the middle of two others
            for _ in range(50):
                a, b = rnd.sample(P, 2); m = tuple((x + y) // 2 for x, y in zip(a, b))
                if all((x + y) % 2 == 0 for x, y in zip(a, b)) and m not in P:
                    Q = list(P); Q.insert(rnd.choice([0, n // 2, n, n]), m); ops.append(op_pal("D", Q)); break
        ops.append(op_pal("D", rnd.sample(P, n)))
    elif prop == "R03":
        ops += [f"G {i}" for i in range(n)] + [op_pal("R", P), op_pal("R", [rcol(rnd, 1)] * n), op_pal("R", [rcol(rnd, 1) for _ in P]), op_pal("R", [rcol(rnd, 255) for _ in P])]
    else:
        ops += [op_pal("R", P), op_pal("R", P[:-1]), op_pal("R", P + P[:1]), "G 0", f"G {n - 1}", f"G {n}", "G 255", "G 256", f"G {256 + n - 1}", op_pal("R", [rcol(rnd, 1) for _ in P])]
    return ops

def fixed_image(rnd):
    """A small picture for sessions that only care about palettes."""
    return op_img(*image_from(rnd, [rcol(rnd, 17) for _ in range(10)] + CUBE, (4, 3)))

def sess_palettes(rnd, pals):
    return [fixed_image(rnd)] + [op_pal("D", p) for p in pals]

def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]

def palettes_exhaustive(rnd, tier):
    """Every list of at most 4 corners of the cube (any repetition, any order), every list of 5 over
    six of them up to the symmetry that TLC breaks, and sets from the 3x3x3 grid."""
    res = generate("PaletteGen", {"Mode": '"lists"', "Levels": 2, "Most": 4}, invariants=("Emit",), tag="PAL")
    k = 9000 if tier == "quick" else 17550
    grid = generate("PaletteGen", {"Mode": '"sets"', "Levels": 3, "Most": 4}, invariants=("Emit",), tag="PAL")
    out = [[tuple(x * 255 for x in c) for c in p] for p in res]
    scale = [(127, 254), (128, 255), (85, 170), (1, 2)]
    g2 = []
    for p in rnd.sample(grid, min(k, len(grid))):
        a = rnd.choice(scale)
        q = [tuple((0, *a)[x] for x in c) for c in p]; rnd.shuffle(q); g2.append(q)
    return out, g2

def random_palettes(rnd, n):
    res = []
    for _ in range(n):
        step = rnd.choice([1, 1, 17, 51, 85])
        m = rnd.random()
        if m < .3: p = rpal(rnd, step, rnd.choice([4, 5, 6, 8, 10, 12, 14]))
        elif m < .7: p = bad_palette(rnd, rnd.choice(["empty", "short", "dup", "flat", "inner", "inner"]), step)
        elif m < .85: p = [rcol(rnd, step) for _ in range(rnd.randrange(4, 9))]
        else:
            # nearly redundant: a corner pulled one level towards or away from the others' hull
            p = list(rpal(rnd, step, rnd.choice([4, 5, 6])))
            c = inner_cols(rnd, p, 6); q = list(rnd.choice(c))
            a = rnd.randrange(3); q[a] = max(0, min(255, q[a] + rnd.choice([-1, 1])))
            p.insert(rnd.randrange(len(p) + 1), tuple(q))
        res.append(p)
    return res

def check(prop, tier, seed, rnd):
    big = tier == "thorough"
    sessions = []
    if prop == "R01":
        sessions += [sess_identity(rnd) for _ in range(900 if not big else 12000)]
    elif prop == "R02":
        sessions += [sess_nearest(rnd) for _ in range(500 if not big else 6000)]
    elif prop == "R03":
        sessions += [sess_mixture(rnd) for _ in range(500 if not big else 6000)]
    elif prop == "R04":
        sessions += [sess_star(rnd) for _ in range(500 if not big else 6000)]
    elif prop == "R05":
        lists, grid = palettes_exhaustive(rnd, tier)
        pals = lists + grid + random_palettes(rnd, 6000 if not big else 60000)
        rnd.shuffle(pals)
        sessions += [sess_palettes(rnd, c) for c in chunks(pals, 40)]
        beh = histories(tier, seed, rnd, 2, 300 if not big else 3000)
        sessions += [concretize(rnd, b) for b in beh]
    if prop in ("R06",):
        beh = histories(tier, seed, rnd, 3, 400 if not big else 6000)
        sessions += [concretize(rnd, b) for b in beh]
    if prop in ("R01", "R02", "R03", "R04"):
        beh = histories(tier, seed, rnd, 2, 150 if not big else 2000)
        sessions += [concretize(rnd, b) for b in beh]
    if prop in ("R01", "R03", "R06"):
        sessions += [sess_large(rnd) for _ in range(14 if not big else 160)]
    if prop != "R05": sessions += [sess_noise(rnd, prop) for _ in range(8 if not big else 100)]
    if prop in ("R03", "R05", "R06"): sessions += [sess_long(rnd, prop) for _ in range(12 if not big else 120)]
    log(f"{len(sessions)} sessions made")
    d = build()
    rec = replay([os.path.join(d, "vh"), "recolor"], sessions)
    bad = validate("RecolorTrace", rec, {"Prop": f'"{prop}"'})
    finish(prop, tier, seed, describe(bad, sessions, rec, "vh recolor"),
           [sessions[0][:4], sessions[-1][:4]],
           {"sessions": len(sessions), "operations": sum(map(len, sessions))},
           ["images up to 12x11 pixels, some of about 500 pixels of as many colors, and some with up to 69000 pixels of few colors; palettes up to about 14 colors, and some of up to 225"])
