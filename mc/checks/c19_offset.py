"""C19: offset outlines lie at the requested distance on the requested side"""
import itertools
import math
from mc.engine import same, equal, require, Violation
from mc.oracle import *
from mc.models import *
from mc.edits import edited

PEN = PenBrush(('red', 2), 'blue')
KINDS = ['smooth', 'sharp', 'very-smooth', 'odd']


def area(pts):
    return sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(pts, pts[1:] + pts[:1])) / 2


def crosses(p, q, r, s):
    """Segments have a point in common"""
    def side(a, b, c):
        v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        return (v > 1e-9) - (v < -1e-9)

    def within(a, b, c):
        return side(a, b, c) == 0 and min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])
    return (side(p, q, r) * side(p, q, s) < 0 and side(r, s, p) * side(r, s, q) < 0) or within(p, q, r) or within(p, q, s) or within(r, s, p) or within(r, s, q)


def simple(pts):
    n = len(pts)
    if len(set(pts)) < n or abs(area(pts)) < 1e-9:
        return False
    for i in range(n):
        for j in range(i + 1, n):
            if j - i in (1, n - 1):
                continue
            if crosses(pts[i], pts[i + 1], pts[j], pts[(j + 1) % n]):
                return False
    # No turning back on the spot
    for i in range(n):
        a, b, c = pts[i - 1], pts[i], pts[(i + 1) % n]
        u, v = (a[0] - b[0], a[1] - b[1]), (c[0] - b[0], c[1] - b[1])
        if abs(u[0] * v[1] - u[1] * v[0]) < 1e-9 and u[0] * v[0] + u[1] * v[1] > 0:
            return False
    return True


def polygon(pts, fa, fb, xf=None, how='plain'):
    """A polygon as curve with straight handles that reach over the fractions fa and fb of the sides"""
    n = len(pts)
    cps = []
    for i, p in enumerate(pts):
        a, b = pts[i - 1], pts[(i + 1) % n]
        cps.append(make_cp((p, ((a[0] - p[0]) * fb, (a[1] - p[1]) * fb), ((b[0] - p[0]) * fa, (b[1] - p[1]) * fa), KINDS[i % 4]), how))
    return ElemCurve('p', PEN, cps, True, Transform(xf) if xf else None)


def check_frame(what, e, off, before):
    require(isinstance(off, ElemCurve) and off is not e, '%s is %r', what, off)
    equal(what + ': number of control points', len(off.control_points), len(e.control_points))
    equal(what + ': pen', off.penbrush, e.penbrush)
    equal(what + ': closed', off.closed, e.closed)
    equal('original', snapshot(e), before)
    require(list(off.xform.as_6tuple()) == [1, 0, 0, 0, 1, 0], '%s has a transform', what)
    mine = {id(v) for cp in e.control_points for v in (cp, cp.c, cp.dl, cp.dr)}
    require(not any(id(v) in mine for cp in off.control_points for v in (cp, cp.c, cp.dl, cp.dr)), '%s shares parts with the original', what)


def straight(cp):
    """Handles on a straight line through the anchor, pointing away from each other"""
    (ax, ay), (bx, by) = cp.dl.xy(), cp.dr.xy()
    return abs(ax * by - ay * bx) < 1e-12 * math.hypot(ax, ay) * math.hypot(bx, by) and ax * bx + ay * by < 0


def matches(e, off, ok):
    """ok(source index, result control point) for all, in the same or reversed cyclic order.  Kinds as well"""
    n = len(e.control_points)
    for rev in (False, True):
        for k in range(n):
            idx = [(k + i) % n for i in range(n)] if not rev else [(k - i) % n for i in range(n)]
            if all(ok(j, c, rev) for j, c in zip(idx, off.control_points)):
                if all(e.control_points[j].kind == c.kind for j, c in zip(idx, off.control_points)):
                    return True
    return False


def check_polygon(case, obs):
    pts, (fa, fb), d, xf, how = case
    e = polygon(pts, fa, fb, xf, how)
    n = len(pts)
    m = xf or IDENT
    world = [mat_apply(m, p) for p in pts]
    sign = 1 if area(world) > 0 else -1
    normals = []
    for p, q in zip(world, world[1:] + world[:1]):
        ln = dist(p, q)
        normals.append((sign * (q[1] - p[1]) / ln, -sign * (q[0] - p[0]) / ln))
    # Corners of the offset outline move so far
    far = 0
    for i in range(n):
        u, v = normals[i - 1], normals[i]
        cos = u[0] * v[0] + u[1] * v[1]
        far = max(far, abs(d) / math.sqrt(max(1e-12, (1 + cos) / 2)))
    before = snapshot(e)
    off = e.offset(d)
    check_frame('offset outline', e, off, before)
    scale = max(1, abs(d), max(abs(v) for p in world for v in p))
    if far <= 99:
        def dist_to_side(i, p):
            return (p[0] - world[i][0]) * normals[i][0] + (p[1] - world[i][1]) * normals[i][1] + d

        def ok(j, cp, rev):
            c, l, r = cp.c.xy(), cp.l.xy(), cp.r.xy()
            if rev:
                l, r = r, l
            return max(abs(dist_to_side(j, c)), abs(dist_to_side(j - 1, c)), abs(dist_to_side(j, r)), abs(dist_to_side(j - 1, l))) < 1e-8 * scale
        if not matches(e, off, ok):
            raise Violation('offset %s of %s (%s): sides are not at the distance, or kinds are lost: %s' % (
                d, world, 'anticlockwise' if sign > 0 else 'clockwise', [(cp.c.xy(), cp.kind) for cp in off.control_points]))
    if d == 0:
        check_same_shape('offset by zero', map_segs_of(off), oracle.map_segs(m, cps_segs(e.control_points, True)))
    # The other side
    back = e.offset(-d)
    check_opposite(e, off, back, m)
    off.control_points[0].c.setxy(77, 78)
    off.control_points[-1].dr.setxy(5, 6)
    equal('original after changing the offset outline', snapshot(e), before)
    obs.step(2)
    return d, sign, [cp.c.xy() for cp in back.control_points]


def check_opposite(e, plus, minus, m):
    """Anchors and handles move by opposite vectors"""
    src = [[mat_apply(m, p.xy()) for p in (cp.c, cp.l, cp.r)] for cp in e.control_points]
    if all(near_all([src[i][0]], [((a.c.x + b.c.x) / 2, (a.c.y + b.c.y) / 2)], 1e-6) for i, (a, b) in enumerate(zip(plus.control_points, minus.control_points))):
        order = list(range(len(src)))
        flip = False
    else:
        order = list(reversed(range(len(src))))
        flip = True
    for a, b, j in zip(plus.control_points, minus.control_points, order):
        c, l, r = src[j]
        if flip:
            l, r = r, l
        for name, p, q, s in (('anchor', a.c, b.c, c), ('left handle', a.l, b.l, l), ('right handle', a.r, b.r, r)):
            same('%s of control point %d: middle of both offsets' % (name, j), ((p.x + q.x) / 2, (p.y + q.y) / 2), s, 1e-6)


def near_all(a, b, tol):
    from mc.engine import near_all as na
    return na(a, b, tol)


def check_circle(case, obs):
    (cx, cy), r, frac, xf, rev, how = case
    d = r * frac
    c = ElemEllipse('e', PEN, Point(cx - r, cy + r), Point(cx + r, cy - r)).as_curves()[0]
    cps = c.control_points
    if rev:
        cps = [cp.reversed() for cp in reversed(cps)]
    k = 1.0
    if xf:
        k = math.sqrt(abs(xf[0] * xf[4] - xf[1] * xf[3]))
    e = ElemCurve('e', PEN, cps, True, Transform(xf) if xf else None)
    before = snapshot(e)
    off = e.offset(d * k)
    check_frame('offset circle', e, off, before)
    mx, my = mat_apply(xf or IDENT, (cx, cy))
    want = (r - d) * k
    tol = abs(d) * k / 12 + 3e-4 * r * k
    a = sample(map_segs_of(off), 40).reshape(-1, 2)
    dev = np.abs(np.hypot(a[:, 0] - mx, a[:, 1] - my) - want)
    require(dev.max() <= tol, 'circle of radius %s offset by %s: radius off by %.3g', r * k, d * k, dev.max())
    for cp in off.control_points:
        same('distance of an anchor from the center', dist(cp.c.xy(), (mx, my)), want)
        require(straight(cp), 'handles of the offset circle have a kink')
    check_opposite(e, off, e.offset(-d * k), xf or IDENT)
    return round(want, 9), rev


def check_smooth(case, obs):
    """A curved convex outline: anchors with straight handles move perpendicularly by the distance, on the outside"""
    cps, d, xf, rev = case
    cps = [make_cp(s) for s in cps]
    if rev:
        cps = [cp.reversed() for cp in reversed(cps)]
    e = ElemCurve('s', PEN, cps, True, Transform(xf) if xf else None)
    before = snapshot(e)
    m = xf or IDENT
    segs = map_segs_of(e)
    a = sample(segs, 50)[:, :-1].reshape(-1, 2)
    sign = 1 if area([tuple(p) for p in a]) > 0 else -1
    off = e.offset(d)
    check_frame('offset outline', e, off, before)
    world = [mat_apply(m, cp.c.xy()) for cp in e.control_points]
    tangents = []
    for cp, w in zip(e.control_points, world):
        t = mat_apply(m, cp.r.xy())
        l = mat_apply(m, cp.l.xy())
        t = (t[0] - l[0], t[1] - l[1])
        ln = math.hypot(*t)
        tangents.append((sign * t[1] / ln, -sign * t[0] / ln))

    def ok(j, cp, _rev):
        want = world[j][0] - d * tangents[j][0], world[j][1] - d * tangents[j][1]
        return dist(cp.c.xy(), want) < 1e-8 * (1 + abs(d) + max(map(abs, want)))
    require(matches(e, off, ok), 'offset %s: anchors are not moved perpendicularly by the distance: %s', d, [cp.c.xy() for cp in off.control_points])
    check_opposite(e, off, e.offset(-d), m)
    return d, sign


def check_spike(case, obs):
    """Very sharp corners: both offsets are limited, to opposite sides, and away from the corner"""
    tip, half, d, turn, rev = case
    pts = [(0, half), (tip, 0), (0, -half)]
    if rev:
        pts.reverse()
    c, s = math.cos(turn), math.sin(turn)
    xf = (c, -s, 3, s, c, -1)
    e = polygon(pts, 1/3, 1/3, xf)
    before = snapshot(e)
    plus, minus = e.offset(d), e.offset(-d)
    for o in (plus, minus):
        check_frame('offset spike', e, o, before)
    check_opposite(e, plus, minus, xf)
    w = mat_apply(xf, (tip, 0))
    k = min(range(3), key=lambda i: dist(plus.control_points[i].c.xy(), w) + dist(minus.control_points[i].c.xy(), w) - 0)
    # In the direction of the tip for negative offsets
    tips = [((p.c.x - w[0]) * c + (p.c.y - w[1]) * s, p.c.xy()) for p in plus.control_points]
    moved = max(t for t, _ in tips)
    if d < 0:
        sharp = abs(d) * math.hypot(tip, half) / half
        want = min(sharp, 100)
        require(abs(moved - want) < 1e-6 * max(1, want), 'tip of a spike moves outward by %s instead of %s', moved, want)
    return d, half, rev


def check_notch(case, obs):
    """Very sharp notches: the tip moves along the notch, outward towards its opening, no farther than the limit"""
    depth, half, d, turn, rev = case
    pts = [(-10, -10 - depth), (10, -10 - depth), (10, 10), (half, 10), (0, 10 - depth), (-half, 10), (-10, 10)]
    if rev:
        pts.reverse()
    c, s = math.cos(turn), math.sin(turn)
    xf = (c, -s, 3, s, c, -1)
    e = polygon(pts, 1/3, 1/3, xf)
    before = snapshot(e)
    plus, minus = e.offset(d), e.offset(-d)
    for o in (plus, minus):
        check_frame('offset notch', e, o, before)
    check_opposite(e, plus, minus, xf)
    w = mat_apply(xf, (0, 10 - depth))
    want = min(abs(d) * math.hypot(depth, half) / half, 100)
    for o, sign in ((plus, -1 if d > 0 else 1), (minus, 1 if d > 0 else -1)):
        tip = w[0] - s * want * sign, w[1] + c * want * sign
        got = min((dist(cp.c.xy(), tip) for cp in o.control_points))
        require(got < 1e-6 * max(1, want), 'tip of a notch is %s away from where it should be', got)
    return d, half, rev


def ask(what, e, d):
    for dist_ in (0.5, -0.25, 3):
        got, want = snapshot(e.offset(dist_)), snapshot(build(d).offset(dist_))
        require(got == want, '%s: offset by %s is not that of a new curve of the same points', what, dist_)


def run(ctx):
    lat = list(itertools.product((0, 1, 3), (0, 1, 2)))
    tri = [p for p in itertools.permutations(lat, 3) if simple(list(p))]
    quad = [p for p in itertools.permutations(lat, 4) if p[0] == min(p) and simple(list(p))]
    pents = [p for p in itertools.permutations(lat, 5) if p[0] == min(p) and simple(list(p))]
    offs = ctx.pick((0, 0.25, -0.25, 3), (0, 0.25, -0.25, 1, -1, 3, -12))
    xfs = ctx.pick((None, XFORMS['skew']), list(XFORMS.values()))
    fr = [(1/3, 1/3), (0.1, 0.6), (0.6, 0.1)]
    cases = [(list(p), f, d, xf, 'plain') for p in tri for f in fr[:ctx.pick(2, 3)] for d in offs for xf in xfs]
    cases += [(list(p), f, d, xf, 'plain') for p in quad[::ctx.pick(1, 1)] for f in fr[:ctx.pick(1, 3)] for d in offs[:ctx.pick(3, 9)] for xf in ((None,) if not ctx.deep else xfs)]
    cases += [(list(p), f, d, None, 'plain') for p in (pents if ctx.deep else pents[:0]) for f in fr[:1] for d in (0.5, -0.5)]
    shapes = [[(0, 0), (4, 0), (4, 3), (2, 1), (0, 3)], [(0, 0), (2, 0), (4, 0), (4, 4)], [(-5, -5), (5, -4), (6, 5), (-4, 6), (-7, 0), (-6, -3)],
              [(0.5, 0.25), (100.5, 0.25), (100.5, 0.5), (0.5, 0.5)], [(1000, 1000), (1001, 1000), (1001, 1001)]]
    shapes += [[(3 * math.cos(t * 2 * math.pi / n), 2 * math.sin(t * 2 * math.pi / n)) for t in range(n)] for n in (7, 12)]
    shapes += [list(reversed(s)) for s in shapes]
    cases += [(s, f, d, xf, how) for s in shapes for f in fr for d in (0, 0.5, -0.5, 7) for xf in XFORMS.values() for how in ('plain', 'relative', 'live')]
    # Tiny and huge drawings
    for k in (1e-4, 1e-3, 0.01, 100, 1e4):
        small = [[(x * k, y * k) for x, y in s] for s in shapes[:4] + shapes[5:7] + tri[::9] + quad[::29]]
        cases += [(s, f, d * k, xf, 'plain') for s in small for f in fr[:2] for d in (0, 1e-3, -1e-3, 0.05, -0.4) for xf in (None, XFORMS['turn'])]
    ctx.sweep('polygons', cases, check_polygon, 'simple polygons of a lattice, drawn either way, with straight handles: every side moves in parallel by the distance')
    ctx.sweep('circles', [(c, r, f, xf, rev, 0) for c in ((0, 0), (-3, 20)) for r in (0.5, 1, 30) for f in (0, 0.1, 0.5, 0.9, -0.1, -1, -1.75)
                          for xf in [None] + [XFORMS[k] for k in ('move', 'turn', 'mirror', 'quarter', 'far')] for rev in (False, True)],
              check_circle, 'circles, drawn either way')
    smooth = [[((4, 0), (0, -1), (0, 1)), ((0, 3), (2, 0), (-1, 0)), ((-5, -1), (0, 1), (0, -1.5)), ((0, -4), (-2, 0.5), (2, -0.5))],
              [((0, 0), (1, -1), (-2, 2)), ((-1, 6), (-1, -1), (2, 2)), ((5, 5), (-1, 2), (0.5, -1))],
              [((3, 0), (-0.5, -2), (0.5, 2)), ((-3, 0), (0, 2), (0, -2))]]
    ctx.sweep('smooth outlines', [(s, d, xf, rev) for s in smooth for d in (0, 0.5, -0.5, 2, -30) for xf in XFORMS.values() for rev in (False, True)],
              check_smooth, 'curved outlines: anchors move perpendicularly by the distance')
    ctx.sweep('spikes', [(tip, half, d, turn, rev) for tip in (5, 50) for half in (1, 0.1, 0.01, 0.001, 1e-5) for d in (0.5, -0.5, 3, -3, 60, -60)
                         for turn in (0, 1, 2.5, math.pi, -1.2) for rev in (False, True)], check_spike, 'very sharp corners')
    ctx.sweep('notches', [(depth, half, d, turn, rev) for depth in (5, 50) for half in (1, 0.1, 0.01, 0.001, 1e-5) for d in (0.5, -0.5, 3, -3, 60, -60)
                          for turn in (0, 1, 2.5, math.pi, -1.2) for rev in (False, True)], check_notch, 'very sharp notches')
    ctx.assume('Handles of neighbouring control points neither coincide nor overlap on a straight side, outlines do not turn back on the spot.',
               'Sides are compared while no corner moves farther than the limit of the implementation (ElemCurve.OFFSET_PT_LIMIT = 100).',
               'A circle is met to within a twelfth of the offset (the control polygon is offset, so the handles are not ideal); its anchors exactly.')
    edited(ctx, ask, ctx.pick(2, 3), ('curve', 'open'))
