"""H01, H02, D01..D04: convex hulls, Delaunay triangulations and point location."""
import os
from vlib import *
import gen3

R = {2: 20, 3: 20, 4: 9, 5: 5}
NAN, INF, NINF, HUGE = 99999, 99998, -99998, 99997

def flatten(p): return " ".join(str(c) for q in p for c in q)

def special(rnd, d):
    """Point sets whose triangulations are known to be troublesome."""
    m = rnd.random()
    if m < .25:  # image-like: a pixel grid and few colors
        w, h = rnd.choice([(2, 3), (3, 3), (4, 2), (3, 4)])
        r = rnd.choice([1, 1, 2, R[d]])
        return [[x, y][:d] + [rnd.randint(0, r) for _ in range(d - 2)] for y in range(h) for x in range(w)]
    if m < .4:   # cross polytope around a center: everything cospherical
        c = 2; k = rnd.choice([1, 2])
        p = [[c + (k if i == j else 0) for j in range(d)] for i in range(d)] + [[c - (k if i == j else 0) for j in range(d)] for i in range(d)]
        if rnd.random() < .5: p.append([c] * d)
        return p
    if m < .55:  # a bipyramid: many points in one plane and two off it
        base = [[rnd.randint(0, min(5, R[d])) for _ in range(d - 1)] + [2] for _ in range(rnd.randint(d, 9))]
        return base + [[2] * (d - 1) + [0], [2] * (d - 1) + [4]]
    if m < .7:   # points on edges and in the middle of a simplex
        k = rnd.choice([2, 4]) if R[d] >= 4 else 2
        s = [[0] * d] + [[k if i == j else 0 for j in range(d)] for i in range(d)]
        mid = [[(a + b) // 2 for a, b in zip(*rnd.sample(s, 2))] for _ in range(rnd.randint(1, 6))]
        return s + mid
    if m < .85:  # clusters of equal points
        q = [[rnd.randint(0, R[d]) for _ in range(d)] for _ in range(d + rnd.randint(1, 4))]
        return q + [list(rnd.choice(q)) for _ in range(rnd.randint(1, 5))]
    # one simplex, and a prism
    if rnd.random() < .4: return [[rnd.randint(0, R[d]) for _ in range(d)] for _ in range(d + 1)]
    q = [[rnd.randint(0, R[d]) for _ in range(d - 1)] for _ in range(d + rnd.randint(0, 2))]
    return [x + [z] for x in q for z in (0, rnd.randint(1, R[d]))]

def points(rnd, d, most=None):
    most = most or {2: 16, 3: 16, 4: 12, 5: 10}[d]
    for _ in range(1000):
        if rnd.random() < .45: p = special(rnd, d)
        else:
            r = rnd.choice([1, 2, 3, R[d], R[d]]); n = rnd.randint(d + 1, most)
            p = [[rnd.randint(0, r) for _ in range(d)] for _ in range(n)]
        if len(p) > most + 3 or gen3.rank(p) < d: continue
        if rnd.random() < .6: rnd.shuffle(p)
        if rnd.random() < .3:
            k = rnd.choice([-1, 1]); ax = list(range(d)); rnd.shuffle(ax)
            p = [[q[a] if k == 1 else min(R[d], max(x[a] for x in p)) - q[a] for a in ax] for q in p]
            m = min(min(q) for q in p)
            if m < 0: p = [[c - m for c in q] for q in p]
            if max(max(q) for q in p) > R[d]: continue
        return p
    raise ToolError("no point set found")

def transform(rnd):
    """How the integer coordinates become the floats that the library sees."""
    return rnd.choice(["0 0"] * 5 + ["-30 0", "30 0", "-22 0", "-12 0", "9 0", "0 -7", "0 50", "3 -20", "-4 13"])

def grids(rnd, big):
    """Point sets enumerated by the specification."""
    res = []
    def add(dim, side, least, most, n):
        g = generate("GeoGen", {"Mode": '"sets"', "Depth": most, "Least": least, "Dim": dim, "Side": side}, invariants=["Emit"])
        sets = []
        for s in g:
            p = [[(x // side ** i) % side for i in range(dim)] for x in s]
            if gen3.rank(p) == dim: sets.append(p)
        if len(sets) > n: sets = rnd.sample(sets, n)
        res.extend((dim, p) for p in sets)
    add(2, 3, 3, 9, 1000)
    add(3, 2, 4, 8, 1000)
    add(4, 2, 5, 6 if not big else 7, 120 if not big else 3000)
    if big: add(5, 2, 6, 6, 1500); add(3, 3, 4, 5, 4000)
    return res

def polygon(rnd, n):
    """A convex polygon with many corners: the shortest directions of the lattice, one after the other."""
    from math import gcd, atan2
    v = sorted((x * x + y * y, x, y) for x in range(-20, 21) for y in range(-20, 21) if gcd(x, y) == 1)[:n]
    p, res = (0, 0), []
    for _, x, y in sorted(v, key=lambda t: atan2(t[2], t[1])):
        p = (p[0] + x, p[1] + y); res.append(p)
    m = [min(q[i] for q in res) for i in (0, 1)]
    return [[q[0] - m[0], q[1] - m[1]] for q in res]

def large(rnd, kind, big):
    """Sets of hundreds of points: more than fit into a byte, as corners, facets or simplices."""
    res = []
    def ball(d, r, n):
        c = r / 2; q = set()
        while len(q) < n:
            g = [rnd.gauss(0, 1) for _ in range(d)]; l = sum(x * x for x in g) ** .5
            q.add(tuple(round(c + c * x / l) for x in g))
        return [list(x) for x in q]
    def box(d, r, n):
        q = set()
        while len(q) < n: q.add(tuple(rnd.randint(0, r) for _ in range(d)))
        return [list(x) for x in q]
    for _ in range(1 if not big else 12):
        if kind == "H":
            res += [(2, polygon(rnd, rnd.choice([264, 280]))), (3, ball(3, 20, rnd.randint(200, 300))), (3, box(3, 20, 300)),
                    (4, ball(4, 9, rnd.randint(80, 150))), (5, ball(5, 5, rnd.randint(50, 80)))]
        else:
            res += [(2, box(2, 20, rnd.randint(150, 300))), (3, box(3, 20, rnd.randint(60, 90))), (4, box(4, 9, rnd.randint(35, 50))), (5, box(5, 5, rnd.randint(20, 26)))]
    for _, p in res: rnd.shuffle(p)
    return res

def vast(rnd, kind):
    """Tens of thousands of points, more than 65536 facets; judged by Vast.tla."""
    n, seed = rnd.randint(34000, 40000), rnd.randrange(1 << 30)
    return f"HV {n} {seed}" if kind == "H" else f"TV {n} 9999 {seed}"

def query(rnd, p, d, kind=None):
    kind = kind or rnd.choice(["corner", "edge", "face", "inner", "inner", "outside", "far", "weird", "grid", "near"])
    pick = lambda n: [rnd.choice(p) for _ in range(n)]
    if kind == "corner": return [4 * c for c in rnd.choice(p)]
    if kind == "edge": return [2 * sum(x) for x in zip(*pick(2))]
    if kind == "face": return [a + a2 + 2 * b for a, a2, b in zip(*pick(3))]
    if kind == "inner": return [sum(x) for x in zip(*pick(4))]
    r = max(max(x) for x in p)
    if kind == "grid": return [rnd.randint(0, 4 * r) for _ in range(d)]
    if kind == "near": return [min(4 * R[d] + 2, max(-2, c + rnd.choice([-1, 0, 0, 1]))) for c in query(rnd, p, d, rnd.choice(["corner", "edge", "face", "inner"]))]
    if kind == "outside": return [rnd.choice([-1, 4 * r + 1, rnd.randint(-2, 4 * r + 2)]) for _ in range(d)]
    if kind == "far": return [rnd.choice([-8, 4 * R[d] + 8, 2 * r]) if i else 4 * R[d] + 8 for i in range(d)]
    q = [2 * r] * d
    q[rnd.randrange(d)] = rnd.choice([NAN, INF, NINF, HUGE])
    return q

def one_query(rnd, prop, p, d, kind=None):
    q = " ".join(map(str, query(rnd, p, d, kind)))
    if prop == "D02": return (rnd.choice(["q", "f"]) + " " + q)
    return f"{rnd.choice(['rq', 'ru'])} {rnd.choice([9, 9, 7, 0])} {rnd.randint(0, 1)} {q}"

def location(rnd, prop, big, sets):
    sessions = []
    # every short history of calls, on triangulations of all dimensions
    gens = generate("GeoGen", {"Mode": '"hist"', "Depth": 3, "Least": 0, "Dim": 0, "Side": 0}, invariants=["Emit"])
    if big: gens += generate("GeoGen", {"Mode": '"hist"', "Depth": 4, "Least": 0, "Dim": 0, "Side": 0}, invariants=["Emit"])
    rnd.shuffle(gens)
    n = 5 if not big else 8
    for i in range(0, len(gens), n):
        d = rnd.choice([2, 2, 3, 3, 4, 5]); p = points(rnd, d)
        ops = [f"T {d} {len(p)} {transform(rnd)} {flatten(p)}"]
        if prop == "D02":
            for h in gens[i:i + n]:
                on = False
                ops.append("new")
                for x in h:
                    if x == "brute": on = not on; ops.append(f"brute {int(on)}")
                    elif x == "new": on = False; ops.append(x)
                    elif x.startswith("q "): ops.append(one_query(rnd, prop, p, d, x[2:]))
                    else: ops.append(x)
        else:
            for h in gens[i:i + n]:
                ops.append("nohint")
                for x in h:
                    if x in ("clear", "new"): ops.append("nohint")
                    elif x.startswith("q "): ops.append(one_query(rnd, prop, p, d, x[2:]))
        sessions.append(ops)
    # random long ones
    for _ in range(900 if not big else 36000):
        d = rnd.choice([2, 2, 3, 3, 3, 4, 4, 5]); p = points(rnd, d)
        sessions.append(walk(rnd, prop, p, d, 30))
    for _ in range(1 if not big else 10): sessions.append([vast(rnd, "T")])
    for d, p in large(rnd, "T", big): sessions.insert(0, walk(rnd, prop, p, d, 30))
    for d, p in (sets if big else rnd.sample(sets, min(len(sets), 300))):
        sessions.append(walk(rnd, prop, p, d, 12))
    return sessions

def walk(rnd, prop, p, d, n):
    ops = [f"T {d} {len(p)} {transform(rnd)} {flatten(p)}"]
    for _ in range(n):
        w = rnd.randint(0, 14)
        if prop == "D02":
            if w == 0: ops.append("clear")
            elif w == 1: ops.append("new")
            elif w == 2: ops.append(f"brute {rnd.randint(0, 1)}")
            elif w in (3, 4): ops.append(f"eps {rnd.choice([7, 9, 9])}")
            elif w == 5: ops.append(f"bc {rnd.randint(1, 60)} " + " ".join(map(str, query(rnd, p, d, "grid"))))
        elif w == 0: ops.append("nohint")
        elif w in (5, 6): ops.append(f"bs {rnd.randint(1, 60)} " + " ".join(map(str, query(rnd, p, d, "grid"))))
        ops.append(one_query(rnd, prop, p, d))
    return ops

def check(prop, tier, seed, rnd):
    big = tier == "thorough"
    d0 = build()
    argv = [os.path.join(d0, "vh"), "geo"]
    sets = grids(rnd, big)
    if prop in ("D02", "D03"): sessions = location(rnd, prop, big, sets)
    else:
        ops = []
        kinds = {"H01": "H", "H02": "H", "D01": "T", "D04": "HT"}[prop]
        for d, p in sets:
            q = list(p)
            if rnd.random() < .5: rnd.shuffle(q)
            for k in kinds: ops.append(f"{k} {d} {len(q)} {transform(rnd)} {flatten(q)}")
        scale = (1 if not big else 30) * (1 if kinds != "HT" else 0.6)
        for d, n in ((2, 800), (3, 1400), (4, 500), (5, 240)):
            for _ in range(int(n * scale)):
                p = points(rnd, d)
                for k in kinds: ops.append(f"{k} {d} {len(p)} {transform(rnd)} {flatten(p)}")
        rnd.shuffle(ops)
        sessions = [ops[i:i + 8] for i in range(0, len(ops), 8)]
        for _ in range(1 if not big else 10): sessions.append([vast(rnd, k) for k in kinds])
        for k in kinds:
            for d, p in large(rnd, k, big): sessions.insert(0, [f"{k} {d} {len(p)} {rnd.choice(['0 0', '9 0', '-12 0'])} {flatten(p)}"])
    rec = replay(argv, sessions)
    bad = validate("GeoTrace", rec, {"Prop": f'"{prop}"'})
    finish(prop, tier, seed, describe(bad, sessions, rec, "vh geo"), [sessions[0][:2], sessions[-1][:4]],
           {"sessions": len(sessions), "operations": sum(map(len, sessions)), "enumerated_point_sets": len(sets)},
           ["2 to 5 dimensions; integer coordinates up to 20 (2D, 3D; convex polygons up to 1200), 9 (4D), 5 (5D), scaled by powers of two and shifted"])
