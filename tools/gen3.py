"""Exact integer geometry for making inputs (never used to judge results)."""
def sub(a, b): return (a[0]-b[0], a[1]-b[1], a[2]-b[2])
def dot(a, b): return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]
def cross(a, b): return (a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])

def planes(P):
    """Supporting planes (n, o) of distinct triples of P."""
    res = []
    N = len(P)
    for i in range(N):
        for j in range(i+1, N):
            e = sub(P[j], P[i])
            for k in range(j+1, N):
                n = cross(e, sub(P[k], P[i]))
                if n == (0, 0, 0): continue
                o = dot(n, P[i])
                ds = [dot(n, p) - o for p in P]
                if max(ds) <= 0: res.append((n, o, (i, j, k)))
                elif min(ds) >= 0: res.append(((-n[0], -n[1], -n[2]), -o, (i, j, k)))
    return res

def flat(P):
    P = list(dict.fromkeys(P))
    if len(P) < 4: return True
    for i in range(1, len(P)):
        for j in range(i+1, len(P)):
            n = cross(sub(P[i], P[0]), sub(P[j], P[0]))
            if n != (0, 0, 0):
                return all(dot(n, sub(p, P[0])) == 0 for p in P)
    return True

def extreme(P):
    """The corners of the hull of P (not flat, any multiplicity), in order of first appearance."""
    P = list(dict.fromkeys(P))
    S = planes(P)
    res = []
    for p in P:
        tight = [n for n, o, _ in S if dot(n, p) == o]
        ok = False
        # the tight normals span the space
        for i in range(len(tight)):
            for j in range(i+1, len(tight)):
                c = cross(tight[i], tight[j])
                if c != (0, 0, 0) and any(dot(c, t) != 0 for t in tight):
                    ok = True; break
            if ok: break
        if ok: res.append(p)
    return res

def inside(S, p): return all(dot(n, p) <= o for n, o, _ in S)

def rank(points):
    """Affine rank of integer points of any dimension (exact, by fractions)."""
    from fractions import Fraction
    pts = list(dict.fromkeys(map(tuple, points)))
    rows = [[Fraction(a - b) for a, b in zip(p, pts[0])] for p in pts[1:]]
    r = 0
    D = len(pts[0])
    for c in range(D):
        piv = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if piv is None: continue
        rows[r], rows[piv] = rows[piv], rows[r]
        for i in range(r+1, len(rows)):
            if rows[i][c] != 0:
                f = rows[i][c] / rows[r][c]
                rows[i] = [a - f*b for a, b in zip(rows[i], rows[r])]
        r += 1
    return r
