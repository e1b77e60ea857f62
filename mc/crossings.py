"""Reference finder of crossings of cubic segments: polylines, then Newton"""
import numpy as np
from mc.oracle import bez_pt, bez_tangent
import math

N = 96


def _poly(seg, n=N):
    t = np.linspace(0, 1, n + 1)[:, None]
    s = 1 - t
    a = np.array(seg, float)
    return s**3 * a[0] + 3*s*s*t * a[1] + 3*s*t*t * a[2] + t**3 * a[3]


def crossings(a, b, skip=None, n=N):
    """
        Transversal crossings of cubics a and b: list of (t, s, point, sine of angle).  Second result is False if there
        could be others, because the curves come close to each other without a clear crossing.
        skip(t, s): pairs of parameters to ignore (neighbourhood of joints)
    """
    p, q = _poly(a, n), _poly(b, n)
    size = max(np.ptp(p, axis=0).max(), np.ptp(q, axis=0).max(), 1e-9)
    # segments of the polylines, widened: distance of segment boxes
    pl, ph = np.minimum(p[:-1], p[1:]), np.maximum(p[:-1], p[1:])
    ql, qh = np.minimum(q[:-1], q[1:]), np.maximum(q[:-1], q[1:])
    e = 1e-3 * size
    hit = ((pl[:, None] - e <= qh[None]) & (ql[None] - e <= ph[:, None])).all(2)
    idx = np.argwhere(hit)
    found = []
    clear = True
    todo = []
    for i, j in idx:
        t, s = (i + 0.5) / n, (j + 0.5) / n
        if skip and skip(t, s):
            continue
        todo.append((t, s))
    pts = [(t, s) for t, s in todo]
    for t0, s0 in pts:
        if any(abs(t0 - f[0]) < 2 / n and abs(s0 - f[1]) < 2 / n for f in found):
            continue
        r = newton(a, b, t0, s0)
        if r is None:
            clear = clear and not near(a, b, t0, s0, size)
            continue
        t, s = r
        if abs(t - t0) > 0.2 or abs(s - s0) > 0.2:
            # went elsewhere: nothing here, provided the curves stay apart here
            clear = clear and not near(a, b, t0, s0, size)
            continue
        if t < -1e-9 or t > 1 + 1e-9 or s < -1e-9 or s > 1 + 1e-9:
            if t < -0.005 or t > 1.005 or s < -0.005 or s > 1.005:
                continue
            clear = False
            continue
        if skip and skip(t, s):
            continue
        if any(abs(t - f[0]) < 1e-7 and abs(s - f[1]) < 1e-7 for f in found):
            continue
        u, v = bez_tangent(a, t), bez_tangent(b, s)
        lu, lv = math.hypot(*u), math.hypot(*v)
        sine = abs(u[0]*v[1] - u[1]*v[0]) / (lu * lv) if lu * lv else 0
        if sine < 0.05 or min(lu, lv) < 0.02 * size or not (0.005 < t < 0.995 and 0.005 < s < 0.995):
            clear = False
        found.append((t, s, bez_pt(a, t), sine))
    return found, clear


def near(a, b, t0, s0, size):
    """Curves come very close to each other around these parameters"""
    ts = [min(1, max(0, t0 + k / N / 2)) for k in (-1, -0.5, 0, 0.5, 1)]
    ss = [min(1, max(0, s0 + k / N / 2)) for k in (-1, -0.5, 0, 0.5, 1)]
    d = min(math.hypot(p[0] - q[0], p[1] - q[1]) for p in (bez_pt(a, t) for t in ts) for q in (bez_pt(b, s) for s in ss))
    return d < 2e-2 * size


def newton(a, b, t, s):
    for _ in range(30):
        p, q = bez_pt(a, t), bez_pt(b, s)
        dx, dy = q[0] - p[0], q[1] - p[1]
        u, v = bez_tangent(a, t), bez_tangent(b, s)
        det = -u[0]*v[1] + u[1]*v[0]
        if abs(det) < 1e-14:
            return None
        # u dt - v ds = d
        dt = (-dx*v[1] + dy*v[0]) / det
        ds = (u[0]*dy - u[1]*dx) / det
        step = max(abs(dt), abs(ds))
        if step > 0.1:
            dt, ds = dt * 0.1 / step, ds * 0.1 / step
        t += dt
        s += ds
        if not (-1 < t < 2 and -1 < s < 2):
            return None
        if step < 1e-13:
            break
    p, q = bez_pt(a, t), bez_pt(b, s)
    if math.hypot(p[0]-q[0], p[1]-q[1]) > 1e-9 * (1 + abs(p[0]) + abs(p[1])):
        return None
    return t, s


def self_crossings(segs):
    """
        Crossings of a closed curve with itself: [((i, t), (j, s), point)], and whether this is certain.  Joints of
        consecutive segments do not count.
    """
    out = []
    clear = True
    n = len(segs)
    for i in range(n):
        for j in range(i, n):
            if i == j:
                skip = (lambda t, s: t > s - 0.04)
            elif n == 2:
                skip = (lambda t, s: (t > 0.97 and s < 0.03) or (t < 0.03 and s > 0.97))
            elif j == i + 1:
                skip = (lambda t, s: t > 0.97 and s < 0.03)
            elif i == 0 and j == n - 1:
                skip = (lambda t, s: t < 0.03 and s > 0.97)
            else:
                skip = None
            f, c = crossings(segs[i], segs[j], skip)
            clear = clear and c
            out += [((i, t), (j, s), p) for t, s, p, _ in f]
    return out, clear


def arc_length(segs, n=2000):
    total = 0.0
    for s in segs:
        p = _poly(s, n)
        total += float(np.sqrt(((p[1:] - p[:-1]) ** 2).sum(1)).sum())
    return total
