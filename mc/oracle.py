"""
Reference mathematics, independent of the code under test (plain Python floats and Fractions)
"""
import math


# -- 2x3 affine matrices as tuples (a, b, c, d, e, f): x' = ax+by+c, y' = dx+ey+f

IDENT = (1.0, 0.0, 0.0, 0.0, 1.0, 0.0)


def mat_mul(m, n):
    """m after n"""
    a, b, c, d, e, f = m
    g, h, i, j, k, l = n
    return (a*g + b*j, a*h + b*k, a*i + b*l + c, d*g + e*j, d*h + e*k, d*i + e*l + f)


def mat_translate(dx, dy):
    return (1, 0, dx, 0, 1, dy)


def mat_scale(sx, sy):
    return (sx, 0, 0, 0, sy, 0)


def mat_rotate_ccw(deg):
    r = math.radians(deg)
    return (math.cos(r), -math.sin(r), 0, math.sin(r), math.cos(r), 0)


def mat_rotate_cw(deg):
    return mat_rotate_ccw(-deg)


def mat_rotate_cw_about(deg, x, y):
    return mat_mul(mat_translate(x, y), mat_mul(mat_rotate_cw(deg), mat_translate(-x, -y)))


def mat_apply(m, p):
    a, b, c, d, e, f = m
    x, y = p
    return (a*x + b*y + c, d*x + e*y + f)


def mat_linear(m, v):
    """Apply to a vector (no translation)"""
    a, b, _, d, e, _ = m
    return (a*v[0] + b*v[1], d*v[0] + e*v[1])


def mat_det(m):
    return m[0]*m[4] - m[1]*m[3]


# -- Bezier

def lerp(p, q, t):
    return (p[0] + (q[0]-p[0])*t, p[1] + (q[1]-p[1])*t)


def casteljau(pts, t):
    pts = list(pts)
    while len(pts) > 1:
        pts = [lerp(p, q, t) for p, q in zip(pts, pts[1:])]
    return pts[0]


def bez_pt(seg, t):
    """Point of cubic at t, by the Bernstein polynomials"""
    s = 1 - t
    w = (s*s*s, 3*s*s*t, 3*s*t*t, t*t*t)
    return (sum(wi*p[0] for wi, p in zip(w, seg)), sum(wi*p[1] for wi, p in zip(w, seg)))


def bez_tangent(seg, t):
    s = 1 - t
    w = (3*s*s, 6*s*t, 3*t*t)
    d = [(q[0]-p[0], q[1]-p[1]) for p, q in zip(seg, seg[1:])]
    return (sum(wi*p[0] for wi, p in zip(w, d)), sum(wi*p[1] for wi, p in zip(w, d)))


def segments(cps, closed):
    """
        Cubic segments [(p0, p1, p2, p3)] of control points given as (c, l, r) coordinate triples
    """
    n = len(cps)
    last = n if closed else n - 1
    return [(cps[i][0], cps[i][2], cps[(i+1) % n][1], cps[(i+1) % n][0]) for i in range(last)]


def map_segs(m, segs):
    return [tuple(mat_apply(m, p) for p in s) for s in segs]


def cp_xy(cp):
    """(c, l, r) coordinates of a ControlPoint, from its public values c, dl, dr"""
    c = tuple(map(float, cp.c.xy()))
    dl = cp.dl.xy()
    dr = cp.dr.xy()
    return c, (c[0]+dl[0], c[1]+dl[1]), (c[0]+dr[0], c[1]+dr[1])


def cps_xy(cps):
    return [cp_xy(cp) for cp in cps]


def sample_segs(segs, n):
    """All sample points of segments, n+1 per segment, joints not repeated"""
    out = []
    for s in segs:
        for i in range(0 if not out else 1, n+1):
            out.append(bez_pt(s, i/n))
    return out


def dist(p, q):
    return math.hypot(p[0]-q[0], p[1]-q[1])


def dist_to_polyline(p, poly):
    """Distance of p to polyline"""
    best = float('inf')
    px, py = p
    for (ax, ay), (bx, by) in zip(poly, poly[1:]):
        dx, dy = bx-ax, by-ay
        dd = dx*dx + dy*dy
        t = 0 if dd == 0 else max(0, min(1, ((px-ax)*dx + (py-ay)*dy)/dd))
        best = min(best, math.hypot(px-ax-t*dx, py-ay-t*dy))
    if len(poly) == 1:
        best = dist(p, poly[0])
    return best


def dist_to_segs(p, segs, n=64):
    """
        Distance of point to cubic segments, refined: coarse samples, then golden section around the best ones
    """
    best = float('inf')
    for s in segs:
        cand = sorted((dist(p, bez_pt(s, i/n)), i/n) for i in range(n+1))[:4]
        for d, t in cand:
            lo, hi = max(0.0, t - 1.0/n), min(1.0, t + 1.0/n)
            for _ in range(60):
                a = lo + (hi-lo)/3
                b = hi - (hi-lo)/3
                if dist(p, bez_pt(s, a)) < dist(p, bez_pt(s, b)):
                    hi = b
                else:
                    lo = a
            best = min(best, d, dist(p, bez_pt(s, (lo+hi)/2)))
    return best


def bbox_of(pts):
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    return min(xs), min(ys), max(xs), max(ys)


def pairs(flat_list):
    """[x, y, x, y] -> [(x, y), ...]"""
    it = iter(flat_list)
    return list(zip(it, it))
