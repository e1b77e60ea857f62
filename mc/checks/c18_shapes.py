"""C18: rectangles, ellipses and rounded rectangles have their ideal geometry"""
import itertools
import math
import numpy as np
from mc.engine import same, equal, require, Violation
from mc.oracle import *
from mc.models import *
from mc.edits import edited

PEN = PenBrush(('red', 2), 'blue')
TOL = 3e-4


def box(p1, p2):
    return min(p1[0], p2[0]), min(p1[1], p2[1]), max(p1[0], p2[0]), max(p1[1], p2[1])


def sd_rounded(a, b, r):
    """Signed distance of points to the rounded rectangle b with corner radius r (negative inside)"""
    cx, cy, hx, hy = (b[0] + b[2]) / 2, (b[1] + b[3]) / 2, (b[2] - b[0]) / 2, (b[3] - b[1]) / 2
    qx, qy = np.abs(a[:, 0] - cx) - (hx - r), np.abs(a[:, 1] - cy) - (hy - r)
    return np.hypot(np.maximum(qx, 0), np.maximum(qy, 0)) + np.minimum(np.maximum(qx, qy), 0) - r


def check_closed(what, a, size):
    require(np.abs(a[0] - a[-1]).max() <= 1e-9 * (size + np.abs(a).max()), '%s does not close: %s .. %s', what, a[0], a[-1])


def check_within(what, a, b, size):
    eps = 1e-9 * (size + np.abs(a).max())
    require((a[:, 0] >= b[0] - eps).all() and (a[:, 0] <= b[2] + eps).all() and (a[:, 1] >= b[1] - eps).all() and (a[:, 1] <= b[3] + eps).all(),
            '%s leaves the rectangle %s', what, b)
    for got, want, side in ((a[:, 0].min(), b[0], 'left'), (a[:, 0].max(), b[2], 'right'), (a[:, 1].min(), b[1], 'lower'), (a[:, 1].max(), b[3], 'upper')):
        require(abs(got - want) <= eps, '%s does not touch the %s side at %s (only %s)', what, side, want, got)


def check_covers(what, a, want, tol):
    off = dist_to_lines(want, a[:-1], a[1:], tol)
    if off.max() > tol:
        i = int(off.argmax())
        raise Violation('%s does not reach %s by %.3g' % (what, tuple(want[i]), off[i]))


def check_once(what, a, b, size):
    """Runs round the shape exactly once, without going back"""
    if b[2] - b[0] < 1e-9 * size or b[3] - b[1] < 1e-9 * size:
        return
    c = np.array([(b[0] + b[2]) / 2, (b[1] + b[3]) / 2])
    d = (a - c) / np.array([b[2] - b[0], b[3] - b[1]])
    ang = np.unwrap(np.arctan2(d[:, 1], d[:, 0]))
    step = np.diff(ang)
    require(abs(abs(ang[-1] - ang[0]) - 2 * math.pi) < 1e-6, '%s runs round by %.1f degrees', what, math.degrees(ang[-1] - ang[0]))
    require((step > -1e-6).all() or (step < 1e-6).all(), '%s goes back', what)


def check_rect(what, a, b, size):
    check_closed(what, a, size)
    check_within(what, a, b, size)
    sd = sd_rounded(a, b, 0)
    require(np.abs(sd).max() <= 1e-9 * (size + np.abs(a).max()), '%s leaves the sides by %.3g', what, np.abs(sd).max())
    for x in (b[0], b[2]):
        for y in (b[1], b[3]):
            require(np.abs(a - (x, y)).max(1).min() <= 1e-9 * (size + np.abs(a).max()), '%s misses the corner %s', what, (x, y))
    check_once(what, a, b, size)


def check_ellipse(what, a, b, size):
    check_closed(what, a, size)
    check_within(what, a, b, size)
    cx, cy, hx, hy = (b[0] + b[2]) / 2, (b[1] + b[3]) / 2, (b[2] - b[0]) / 2, (b[3] - b[1]) / 2
    if hx and hy:
        r = np.hypot((a[:, 0] - cx) / hx, (a[:, 1] - cy) / hy)
        require(np.abs(r - 1).max() <= TOL, '%s is off the ellipse by %.3g', what, np.abs(r - 1).max())
    t = np.linspace(0, 2 * math.pi, 73)
    check_covers(what, a, np.stack([cx + hx * np.cos(t), cy + hy * np.sin(t)], 1), 0.02 * size + 1e-9 * np.abs(a).max())
    check_once(what, a, b, size)


def check_rounded(what, a, b, size, radius):
    r = min(radius, (b[2] - b[0]) / 2, (b[3] - b[1]) / 2)
    check_closed(what, a, size)
    check_within(what, a, b, size)
    eps = 1e-9 * (size + np.abs(a).max())
    sd = sd_rounded(a, b, r)
    require(np.abs(sd).max() <= TOL * r + eps, '%s is off the rounded rectangle by %.3g', what, np.abs(sd).max())
    # The straight sides exactly
    cx, cy, hx, hy = (b[0] + b[2]) / 2, (b[1] + b[3]) / 2, (b[2] - b[0]) / 2, (b[3] - b[1]) / 2
    side = (np.abs(a[:, 0] - cx) <= hx - r) | (np.abs(a[:, 1] - cy) <= hy - r)
    if side.any():
        require(np.abs(sd[side]).max() <= eps, '%s is off a straight side by %.3g', what, np.abs(sd[side]).max())
    want = []
    for sx, sy in itertools.product((-1, 1), repeat=2):
        for t in np.linspace(0, math.pi / 2, 7):
            want.append((cx + sx * (hx - r + r * math.cos(t)), cy + sy * (hy - r + r * math.sin(t))))
    check_covers(what, a, np.array(want), 0.005 * r + eps)
    check_once(what, a, b, size)


def polyline(segs):
    s = sample(segs, 60)
    return np.concatenate([s[0]] + [x[1:] for x in s[1:]])


def check_tangent(what, cps, r, size):
    """Sides and arcs join without a kink"""
    if r <= 1e-6 * size:
        return
    segs = [s for s in cps_segs(cps, True) if max(dist(p, s[0]) for p in s) > 1e-9 * size]
    for s, t in zip(segs, segs[1:] + segs[:1]):
        u = next((s[3][0] - p[0], s[3][1] - p[1]) for p in (s[2], s[1], s[0]) if dist(p, s[3]) > 1e-9 * size)
        v = next((p[0] - t[0][0], p[1] - t[0][1]) for p in t[1:] if dist(p, t[0]) > 1e-9 * size)
        cross = (u[0] * v[1] - u[1] * v[0]) / math.hypot(*u) / math.hypot(*v)
        require(abs(cross) < 1e-6 and u[0] * v[0] + u[1] * v[1] > 0, '%s has a kink at %s', what, s[3])


def make_point(p, how, k):
    if how == 'relative':
        return PointRelative(p[0] - 1 - k, p[1] + 2, Point(1 + k, -2))
    return Point(*p)


def check_shape(case, obs):
    p1, p2, radius, how, show = case
    b = box(p1, p2)
    size = max(b[2] - b[0], b[3] - b[1], 1e-3)
    q1, q2 = make_point(p1, how, 0), make_point(p2, how, 1)
    snaps = q1.xy(), q2.xy()
    dc = canvas()
    dc.show_cps = show
    r = min(radius, (b[2] - b[0]) / 2, (b[3] - b[1]) / 2)
    shapes = [('rectangle', ElemRectangle('r', PEN, q1, q2), check_rect),
              ('ellipse', ElemEllipse('e', PEN, q1, q2), check_ellipse),
              ('rounded rectangle', ElemRectangleRounded('q', PEN, q1, q2, radius), lambda *a: check_rounded(*a, radius))]
    for name, e, chk in shapes:
        before = snapshot(e)
        paths = e.paths(dc)
        equal('number of paths', len(paths), 1)
        chk('path of the ' + name, np.array(path_points(paths[0]), float), b, size)
        require(paths[0].closed is True and paths[0].penbrush == PEN, '%s: %r %r', name, paths[0].closed, paths[0].penbrush)
        ctrl = e.control_paths(dc)
        equal('number of control paths', len(ctrl), 1)
        chk('control path of the ' + name, polyline(control_segs(ctrl[0].points, True)), b, size)
        curves = e.as_curves()
        equal('number of curves', len(curves), 1)
        chk('curve of the ' + name, polyline(map_segs_of(curves[0])), b, size)
        chk('path of the curve of the ' + name, np.array(path_points(curves[0].paths(dc)[0]), float), b, size)
        if not isinstance(e, ElemRectangle):
            check_tangent('curve of the ' + name, curves[0].control_points, r if name[0] == 'r' else min(b[2] - b[0], b[3] - b[1]), size)
        digi = list(e.as_digi_points())
        chk('digitized ' + name, polyline(cps_segs(digi, True)), b, size)
        bb = e.bbox()
        same('box of the ' + name, (bb.xl, bb.yl, bb.xh, bb.yh), b)
        equal(name, snapshot(e), before)
        obs.step(6)
    pts = shapes[0][1].points()
    same('corners', sorted(p.xy() for p in pts), sorted([p1, p2, (p1[0], p2[1]), (p2[0], p1[1])]))
    chk_cps = make_rounded_rect_cps(q1, q2, radius)
    check_rounded('make_rounded_rect_cps', polyline(cps_segs(chk_cps, True)), b, size, radius)
    if radius == 5:
        check_rounded('make_rounded_rect_cps by default', polyline(cps_segs(make_rounded_rect_cps(q1, q2), True)), b, size, 5)
    equal('corner points', (q1.xy(), q2.xy()), snaps)
    return b, r


def check_circle(case, obs):
    c, rx, ry = case
    center = Point(*c)
    cps = make_ellipse_cps(center, rx) if ry is None else make_ellipse_cps(center, rx, ry)
    ry = rx if ry is None else ry
    check_ellipse('make_ellipse_cps', polyline(cps_segs(cps, True)), (c[0] - rx, c[1] - ry, c[0] + rx, c[1] + ry), max(rx, ry, 1e-3))
    equal('center', center.xy(), c)
    # The control points are independent of the center
    for cp in cps:
        cp.c.setxy(99, 99)
        cp.dl.setxy(1, 1)
    equal('center', center.xy(), c)
    again = make_ellipse_cps(center, rx, ry)
    check_ellipse('make_ellipse_cps again', polyline(cps_segs(again, True)), (c[0] - rx, c[1] - ry, c[0] + rx, c[1] + ry), max(rx, ry, 1e-3))
    return c, rx, ry


def ask(what, e, d):
    check_paths(what, e.paths(canvas()), d, IDENT)
    check_control_paths(what, e.control_paths(canvas()), d, IDENT)
    check_curves(what, e.as_curves(), d, IDENT)
    b = box(d['p1'], d['p2'])
    size = max(b[2] - b[0], b[3] - b[1], 1e-3)
    plain = e.copy()
    plain.xform = Transform()
    a = np.array(path_points(plain.paths(canvas())[0]))
    if d['kind'] == 'rect':
        check_rect(what, a, b, size)
    elif d['kind'] == 'ellipse':
        check_ellipse(what, a, b, size)
    else:
        check_rounded(what, a, b, size, d['radius'])


def run(ctx):
    xs = ctx.pick((-3, 0, 0.7, 4), (-3, -1.1, 0, 0.7, 2, 4))
    ys = ctx.pick((-2, 0, 1.3), (-2, 0, 0.1, 1.3, 5))
    corners = list(itertools.product(xs, ys))
    radii = (0, 0.25, 0.35, 1, 1.65, 5, 1000)
    hows = [('plain', False), ('relative', False), ('plain', True)]
    cases = [(p, q, r, how, show) for p in corners for q in corners for r in radii for how, show in (hows if ctx.deep else hows[:1])]
    cases += [(p, q, r, how, show) for p in ((0, 0), (3, -2)) for q in corners for r in (0, 1) for how, show in hows[1:]]
    # Radius exactly half of a side in spite of rounding, narrow and far away shapes, equal sides
    for w, h in itertools.product((0.1, 0.3, 0.7, 1.1, 3.3, 1e-3, 1234.5), repeat=2):
        for x, y in ((0, 0), (0.1, 0.2), (-1/3, 1e4)):
            for r in (w / 2, h / 2, min(w, h) / 2, (x + w - x) / 2, min(w, h) * 0.49999):
                for a, b in (((x, y), (x + w, y + h)), ((x + w, y), (x, y + h)), ((x, y + h), (x + w, y)), ((x + w, y + h), (x, y))):
                    cases.append((a, b, r, 'plain', False))
    # Almost square, almost flat, radii almost half of a side
    for w, h in ((2000, 1999), (1999.9, 2000), (1, 1.0005), (1e-3, 1.0001e-3), (1e4, 1), (1, 1e4), (1e5, 1e5 + 1), (0.5, 0.500001)):
        for r in (0, w / 2, h / 2, (w + h) / 4, min(w, h) / 2 * (1 - 1e-4), min(w, h) / 2 * (1 + 1e-4), 1e-3, min(w, h) * 1e-4):
            for x, y in ((0, 0), (-3, 7)):
                cases += [((x, y), (x + w, y + h), r, 'plain', False), ((x + w, y), (x, y + h), r, 'plain', True)]
    ctx.sweep('shapes', cases, check_shape, 'rectangles, ellipses and rounded rectangles given by any two corners: paths, control paths, curves')
    ctx.sweep('circles', [((x, y), rx, ry) for x in (-2, 0, 0.3) for y in (0, 7.5) for rx in (0, 0.5, 1, 300) for ry in (None, 0, 0.25, 2)] +
              [((x, 1), r, r * k) for x in (0, -2.5) for r in (1e-3, 1, 2000) for k in (1, 1.001, 0.9995, 1.00001, 0.999999)],
              check_circle, 'control points of circles and ellipses about a center')
    ctx.assume('Radii are not negative.')
    edited(ctx, ask, ctx.pick(3, 4), ('rect', 'ellipse', 'rrect'))
