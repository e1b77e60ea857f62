"""C04: queries of lines and segments"""
import itertools
import math
from fractions import Fraction as F
from mc.engine import same, equal, require, raises, Violation
from x7.geom.geom import *


def sub(a, b):
    return a[0] - b[0], a[1] - b[1]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def crossing(p, q, r, s):
    """Exact parameters of the crossing of the infinite lines pq and rs, None if parallel"""
    d, e = sub(q, p), sub(s, r)
    det = cross(d, e)
    if det == 0:
        return None
    w = sub(r, p)
    return F(cross(w, e)) / F(det), F(cross(w, d)) / F(det)


# -- Ways to make a line from two locations

def by_points(p, q):
    return Line(Point(*p), Point(*q))


def by_vector(p, q):
    return Line(Point(*p), Vector(*sub(q, p)))


def by_from_pts(p, q):
    return Line.from_pts(Point(*p), Point(*q))


def by_relative(p, q):
    base = Point(1, -2)
    return Line(PointRelative(p[0] - 1, p[1] + 2, base), PointRelative(q[0] - 1, q[1] + 2, base))


def by_live(p, q):
    a, b = Point(*p), PointRelative(q[0], q[1], Point(0, 0))
    return Line(a, VectorRelative(b, a))


def by_mixed(p, q):
    return Line(Point(*p), PointRelative(q[0] + 3, q[1] - 5, Point(-3, 5)))


def by_mixed_calc(p, q):
    return Line(PointRelative(p[0] - 1, p[1] + 2, Point(1, -2)), PointCalc(PointRelative(-q[0] / 2, -q[1] / 2, Point(0, 0)), -2))


def by_calc(p, q):
    a = PointCalc(PointRelative(-p[0] / 2, -p[1] / 2, Point(0, 0)), -2)
    return Line.from_pts(a, Point(*q))


MAKERS = [by_points, by_vector, by_from_pts, by_relative, by_live, by_calc, by_mixed, by_mixed_calc]


def snapshot(*lines):
    return [(ln.origin.xy(), ln.direction.xy()) for ln in lines]


def own(what, pt, *lines):
    """A point that was computed is the caller's own: moving it moves no line"""
    before = snapshot(*lines)
    if isinstance(pt, Point):
        pt.setxy(pt.x + 77, pt.y - 55)
    require(snapshot(*lines) == before, 'moving the %s that was returned moved the line', what)


def one(case, obs):
    (p, q), maker, others = case
    ln = maker(p, q)
    before = snapshot(ln)
    same('p1', ln.p1.xy(), p)
    same('p2', ln.p2.xy(), q)
    same('midpoint', ln.midpoint.xy(), ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2))
    same('direction', ln.direction.xy(), sub(q, p))
    b = ln.segment_bbox()
    same('segment_bbox', b.as_tuple(), (min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1])))
    require(ln == ln, 'line is not equal to itself')
    require(ln == maker(p, q), 'lines built alike are not equal')
    require(not ln == maker(p, (q[0] + 1, q[1])) and not ln == maker((p[0], p[1] + 2), q), 'different lines are equal')
    require(isinstance(str(ln), str) and isinstance(repr(ln), str), 'no text')
    for v in ((0, 0), (2, -1), (-0.5, 100)):
        for sign, moved in ((1, ln + Vector(*v)), (-1, ln - Vector(*v))):
            w = v[0] * sign, v[1] * sign
            same('moved by %r: p1' % (w,), moved.p1.xy(), (p[0] + w[0], p[1] + w[1]))
            same('moved by %r: p2' % (w,), moved.p2.xy(), (q[0] + w[0], q[1] + w[1]))
            require(moved is not ln and isinstance(moved, Line), 'moved line is %r', moved)
            require(moved.parallel(ln) and ln.parallel(moved), 'a moved line is parallel')
            raises(ParallelLineError, ln.intersection, moved)
            obs.step()
    d = sub(q, p)
    dd = d[0] ** 2 + d[1] ** 2
    for o in others:
        for pt in (Point(*o), PointRelative(o[0] - 1, o[1], Point(1, 0))):
            c = ln.closest(pt)
            t = F(d[0]) * F(o[0] - p[0]) + F(d[1]) * F(o[1] - p[1])
            t = t / F(dd)
            same('closest to %r' % (o,), c.xy(), (p[0] + float(t) * d[0], p[1] + float(t) * d[1]))
            own('closest point', c, ln)
            require(c is not pt, 'the closest point is the point asked about')
            obs.step()
    own('far end', ln.p2, ln)
    own('midpoint', ln.midpoint, ln)
    own('origin of the moved line', (ln + Vector(0, 0)).p1, ln)
    own('origin of the moved line', (ln - Vector(0, 0)).p1, ln)
    require(snapshot(ln) == before, 'a query changed the line')
    return p, q


def two(case, obs):
    (p, q), (r, s), ma, mb = case
    a, b = ma(p, q), mb(r, s)
    before = snapshot(a, b)
    size = max(1, *(abs(v) for z in (p, q, r, s) for v in z))
    ts = crossing(p, q, r, s)
    obs.step(4)
    equal('parallel', bool(a.parallel(b)), ts is None)
    equal('parallel, swapped', bool(b.parallel(a)), ts is None)
    if ts is None:
        raises(ParallelLineError, a.intersection, b)
        raises(ParallelLineError, b.intersection, a)
        for x, y in ((a, b), (b, a)):
            try:
                res = x.segment_intersection(y)
            except ParallelLineError:
                res = None
            require(res is None, 'parallel segments meet at %r', res)
        kind = 'parallel'
    else:
        t, u = ts
        at = (float(p[0] + t * (q[0] - p[0])), float(p[1] + t * (q[1] - p[1])))
        same('intersection', a.intersection(b).xy(), at)
        same('intersection, swapped', b.intersection(a).xy(), at)
        kind = ('in' if 0 < t < 1 else 'end' if t in (0, 1) else 'out') + ('in' if 0 < u < 1 else 'end' if u in (0, 1) else 'out')
        for x, y, tx, ty in ((a, b, t, u), (b, a, u, t)):
            res = x.segment_intersection(y)
            if kind == 'inin':
                require(res is not None, 'the crossing at %r is not reported', at)
            if 'out' in kind:
                require(res is None, 'no crossing, but reported: %r', res)
            if res is not None:
                pt, tr, ur = res
                require(0 <= tr <= 1 and 0 <= ur <= 1, 'parameters outside [0, 1]: %r', res)
                same('crossing', pt.xy(), at)
                same('parameters', (tr, ur), (float(tx), float(ty)))
                own('crossing', pt, a, b)
        own('intersection', a.intersection(b), a, b)
        own('intersection', b.intersection(a), a, b)
    require(snapshot(a, b) == before, 'a query changed a line')
    obs.state(kind)


def inexact(case, obs):
    """Segments of any size, with coordinates that arithmetic on floats rounds; those nearly parallel are left out"""
    (p, q), (r, s), ma, mb = case
    a, b = ma(p, q), mb(r, s)
    p, q, r, s = [tuple(F(v) for v in z) for z in (p, q, r, s)]
    size = float(max(abs(v) for z in (p, q, r, s) for v in z))
    d, e = sub(q, p), sub(s, r)
    if abs(float(cross(d, e))) < 1e-3 * math.hypot(*map(float, d)) * math.hypot(*map(float, e)):
        obs.state('nearly parallel')
        return
    t, u = crossing(p, q, r, s)
    at = float(p[0] + t * d[0]), float(p[1] + t * d[1])
    tol = 1e-9

    def there(what, pt):
        off = max(abs(x - y) for x, y in zip(pt.xy(), at))
        require(off <= tol * size * max(1, abs(t), abs(u)), '%s at %r, is at %r', what, pt, at)
    require(not a.parallel(b) and not b.parallel(a), 'crossing lines are reported as parallel')
    there('intersection', a.intersection(b))
    there('intersection, swapped', b.intersection(a))
    obs.step(4)
    inside = tol < t < 1 - tol and tol < u < 1 - tol
    outside = t < -tol or t > 1 + tol or u < -tol or u > 1 + tol
    for x, y, tx, ty in ((a, b, t, u), (b, a, u, t)):
        res = x.segment_intersection(y)
        require(not inside or res is not None, 'the crossing at %r is not reported', at)
        require(not outside or res is None, 'no crossing, but reported: %r', res)
        if res is not None:
            there('crossing', res[0])
            require(0 <= res[1] <= 1 and 0 <= res[2] <= 1, 'parameters outside [0, 1]: %r', res)
            require(abs(res[1] - tx) <= tol and abs(res[2] - ty) <= tol, 'parameters %r are %r', res[1:], (float(tx), float(ty)))
    for ln, o, d in ((a, p, d), (b, r, e)):
        for pt in (at, (-size, size / 3)):
            f = (d[0] * (F(pt[0]) - o[0]) + d[1] * (F(pt[1]) - o[1])) / (d[0] ** 2 + d[1] ** 2)
            c = ln.closest(Point(*pt))
            off = max(abs(x - float(y)) for x, y in zip(c.xy(), (o[0] + f * d[0], o[1] + f * d[1])))
            require(off <= tol * size, 'closest to %r is %r', pt, c)
    obs.state(inside, outside)


def near_ends(case, obs):
    """Segments that cross very near to their ends, inside or outside; every coordinate is exact"""
    (p, q), (r, s), (at, bt), ma, mb = case
    d, e = sub(q, p), sub(s, r)
    # a from p: starts -at before the origin, b likewise, so that both cross in the origin
    u = -at * d[0], -at * d[1]
    v = -bt * e[0], -bt * e[1]
    two((((u), (u[0] + d[0], u[1] + d[1])), (v, (v[0] + e[0], v[1] + e[1])), ma, mb), obs)
    if abs(at) > 1e-2 and abs(bt) > 1e-2:
        return
    obs.state('near', at, bt)


def moves(case, obs):
    """Lines with live end points follow them, others stay"""
    (p, q), seq = case
    a, b = Point(*p), Point(*q)
    rel = PointRelative(1, 2, a)
    live = Line(a, VectorRelative(b, a))
    follow = Line(rel, VectorRelative(b, rel))
    fixed = Line(a.copy(), b.copy())
    kept = Line(a, b)       # from now on, an origin and a direction
    kept2 = Line.from_pts(rel, b)
    d1, d2 = sub(q, p), sub(q, (p[0] + 1, p[1] + 2))
    derived = live + Vector(1, 1)
    frozen = p, q
    for i, to in enumerate(seq):
        (a if i % 2 == 0 else b).setxy(*to)
        p, q = (to, q) if i % 2 == 0 else (p, to)
        obs.step()
        same('live end points', (live.p1, live.p2), (p, q))
        same('live midpoint', live.midpoint.xy(), ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2))
        same('live box', live.segment_bbox().as_tuple(), (min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1])))
        r = p[0] + 1, p[1] + 2
        same('following end points', (follow.p1, follow.p2), (r, q))
        same('fixed end points', (fixed.p1, fixed.p2), frozen)
        same('line with kept direction', (kept.p1, kept.p2), (p, (p[0] + d1[0], p[1] + d1[1])))
        same('following line with kept direction', (kept2.p1, kept2.p2), (r, (r[0] + d2[0], r[1] + d2[1])))
        for name, ln, o, d in (('live', live, p, sub(q, p)), ('following', follow, r, sub(q, r)), ('kept', kept, p, d1), ('kept following', kept2, r, d2)):
            for sign, moved in ((1, ln + Vector(2, -3)), (-1, ln - Vector(2, -3))):
                s = o[0] + 2 * sign, o[1] - 3 * sign
                same(name + ' line, moved by (2, -3)', (moved.p1, moved.p2), (s, (s[0] + d[0], s[1] + d[1])))
            if any(d):
                c = ln.closest(Point(7, -1))
                f = (d[0] * (7 - o[0]) + d[1] * (-1 - o[1])) / (d[0] ** 2 + d[1] ** 2)
                same('closest of %s line' % name, c.xy(), (o[0] + f * d[0], o[1] + f * d[1]))
        same('origin of moved line', derived.p1.xy(), (frozen[0][0] + 1, frozen[0][1] + 1))
        if p != q:
            ts = crossing(p, q, (0, 5), (1, 7))
            equal('parallel', live.parallel(Line(Point(0, 5), Vector(1, 2))), ts is None)
            if ts is not None:
                at = (float(p[0] + ts[0] * (q[0] - p[0])), float(p[1] + ts[0] * (q[1] - p[1])))
                same('intersection', live.intersection(Line(Point(0, 5), Vector(1, 2))).xy(), at)
        obs.state(p, q)


def lattice(n, m, scale=1, dx=0, dy=0):
    return [(x * scale + dx, y * scale + dy) for x in range(n) for y in range(m)]


def segs(pts):
    return [(p, q) for p in pts for q in pts if p != q]


def run(ctx):
    grid = lattice(4, 3) + [(-5, 1000), (0.5, -0.25)]
    others = grid + [(100, -7), (1.5, 1.25)]
    ctx.sweep('one line', [(s, m, others) for s in segs(grid) for m in MAKERS], one,
              'all accessors, translations and closest points of every lattice segment, built in every way')
    base = segs(lattice(*ctx.pick((4, 4), (5, 4))))
    cases = [(s, t, by_points, by_vector) for s in base for t in base]
    long = segs([(0, 0), (12, 0), (10, 7), (3, 11), (-6, 5), (4, 4), (7, 1), (1, -9)] + ([(-3, -4), (20, 3), (5.5, 2.25)] if ctx.deep else []))
    cases += [(s, t, by_points, by_points) for s in long for t in long]
    for scale, dx, dy in ctx.pick([(0.25, -3, 7)], [(0.25, -3, 7), (256, 1000, -4096), (0.0625, 0, 0)]):
        some = segs(lattice(3, 3, scale, dx, dy))
        cases += [(s, t, by_from_pts, by_points) for s in some for t in some]
    for scale in (2.0 ** -8, 2.0 ** -12, 2.0 ** -20, 2.0 ** 12, 2.0 ** 24):
        some = segs(lattice(3, 2, scale))
        cases += [(s, t, by_vector, by_points) for s in some for t in some]
    cross_makers = segs(lattice(3, 2))
    cases += [(s, t, ma, mb) for s in cross_makers for t in cross_makers for ma in MAKERS for mb in MAKERS]
    ctx.sweep('two lines', cases, two, 'all ordered pairs of lattice segments against exact rational arithmetic')
    dirs = [((0, 0), d) for d in ((1, 0), (0, 2), (4, 4), (-3, 1), (2, -5), (-64, -48))]
    ends = [k * o + (k == -1) for k in (1, -1) for o in (2.0 ** -9, 2.0 ** -16, 2.0 ** -22, 2.0 ** -26)]
    ends += [-2.0 ** -10, 1 + 2.0 ** -12, -2.0 ** -24, 1 + 2.0 ** -24, 0.5, 0.25]
    ctx.sweep('near the ends', [(a, b, (t, u), m, by_points) for a in dirs for b in dirs if cross(a[1], b[1]) for t in ends for u in ends
                                for m in (by_points, by_vector)], near_ends, 'crossings very near to the ends of the segments against exact rational arithmetic')
    rough = [(0.1, 0.7), (1 / 3, -0.3), (0.9, 0.2), (-0.45, 0.95), (-0.6, -1 / 7), (0.77, -0.81)][:ctx.pick(5, 6)]
    sizes = [1e-9, 1e-6, 1e-4, 1e-2, 1, 7e2, 3e4, 1e6, 1e9, 3e11, 1e15, 1e30, 1e60]
    ctx.sweep('magnitudes', [((p, q), (r, s), by_points, m) for size in sizes
                             for rs in [[(x * size, y * size) for x, y in rough]]
                             for p, q in segs(rs) for r, s in segs(rs) for m in (by_vector, by_relative) if m is by_vector or 1 <= size < 1e9],
              inexact, 'all pairs of segments between points of every size against exact rational arithmetic')
    tos = [(0, 0), (3, 1), (-2, 0.5)]
    ctx.sweep('moves', [(s, seq) for s in segs(lattice(2, 2)) for n in range(1, ctx.pick(5, 7)) for seq in itertools.product(tos, repeat=n)],
              moves, 'all sequences of moves of the end points of a line')
