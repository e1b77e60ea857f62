"""C25: arcs, circles and path helpers produce points where they promise"""
import itertools
import math
from mc.engine import same, equal, require, raises, fail, near, Disabled, Violation
from mc.oracle import *
from x7.geom.geom import Point, PointRelative, Vector
from x7.geom.utils import *

ANGLES = [0, 30, 0.9, 2.1, 45, 89.5, 90, 91, 135, 180, 180.25, 225, 270, 315, 359, 360, 361, 450, 540, 719.5, 720, -1, -45, -90, -180, -270.5, -360, -405]
CENTRES = [None, (0, 0), (3, -2), (-1.5, 1e3)]


def centre(c, kind=Point):
    return () if c is None else (kind(*c),)


def on_circle(r, deg, c):
    t = math.radians(deg)
    return c[0] + r * math.cos(t), c[1] + r * math.sin(t)


def sweep_of(sa, ea, direction):
    if direction == 'ccw':
        return (ea - sa) % 360
    if direction == 'cw':
        return -((sa - ea) % 360)
    return ea - sa


def check_xy(what, pts):
    require(isinstance(pts, list) and all(isinstance(p, tuple) and len(p) == 2 for p in pts), '%s: not a list of (x, y): %r', what, pts[:2])


def check_arc(case, obs):
    sa, ea, r, c, direction, steps = case
    kw = {}
    if direction:
        kw['direction'] = direction
    if steps:
        kw['steps'] = steps
    if c is not None:
        kw['c'] = Point(*c)
    pts = arc(r, sa, ea, **kw)
    check_xy('arc', pts)
    centre_pt = c or (0, 0)
    sweep = sweep_of(sa, ea, direction or 'ccw')
    n = len(pts) - 1
    if steps:
        require(n == steps, '%d points, expected %d', n + 1, steps + 1)
    else:
        # One step per degree
        require(abs(sweep) - 1e-9 <= n <= abs(sweep) + 1 + 1e-9, '%d steps for %s degrees', n, sweep)
    same('points of the arc', pts, [on_circle(r, sa + sweep * k / n, centre_pt) for k in range(n + 1)])
    if c is not None:
        equal('centre', kw['c'].xy(), c)
    require(arc(r, sa, ea, **kw) == pts, 'another result the second time')
    return sa, ea, direction


POINTS = [(x, y) for x in (-2, 0, 1) for y in (-1, 0, 2)]


def check_arc2p(case, obs):
    s, e, r, side, steps = case
    ps, pe = Point(*s), PointRelative(e[0] - 1, e[1] + 2, Point(1, -2))
    d = dist(s, e)
    kw = {}
    if side is not None:
        kw['side'] = side
    if steps:
        kw['steps'] = steps
    if d > 2 * r or d == 0:
        raises(ValueError, arc2p, r, ps, pe, **kw)
        return 'refused', d > 2 * r
    pts = arc2p(r, ps, pe, **kw)
    check_xy('arc2p', pts)
    # End, centre and start come first
    same('end', pts[0], e)
    same('start', pts[2], s)
    c = pts[1]
    same('distance of centre and start', dist(c, s), r)
    same('distance of centre and end', dist(c, e), r)
    # The centre is right of the way from start to end for positive sides
    cross_ = (e[0] - s[0]) * (c[1] - s[1]) - (e[1] - s[1]) * (c[0] - s[0])
    if d < 2 * r:
        require((cross_ < 0) == ((side or 1) > 0), 'centre %s is on the wrong side', c)
    on = pts[3:]
    same('arc starts at start', on[0], s, 1e-7)
    same('arc ends at end', on[-1], e, 1e-7)
    a0 = math.degrees(math.atan2(s[1] - c[1], s[0] - c[0]))
    a1 = math.degrees(math.atan2(e[1] - c[1], e[0] - c[0]))
    n = len(on) - 1
    sw = (a1 - a0) % 360
    require(n == steps if steps else sw <= n + 1e-9 and n <= sw + 2 + 1e-9, '%d steps for %s degrees', n, sw)
    same('points of the arc', on, [on_circle(r, a0 + sw * k / n, c) for k in range(n + 1)], 1e-7)
    equal('given start', ps.xy(), s)
    same('given end', pe, e)
    return s, e, r, side


def check_circle(case, obs):
    r, c = case
    pts = circle(r, *centre(c))
    check_xy('circle', pts)
    n = len(pts) - 1
    require(n >= 12, 'only %d points', n)
    same('points of the circle', pts, [on_circle(r, 360 * k / n, c or (0, 0)) for k in range(n + 1)])
    return r, c


def check_sign(case, obs):
    which, r, c = case
    fn, first = (cross, 45) if which == 'cross' else (plus, 0)
    pts = fn(r, *centre(c))
    check_xy(which, pts)
    cc = c or (0, 0)
    require(len(pts) == 5, '%d points', len(pts))
    same('middle', pts[2], cc)
    arms = [pts[i] for i in (0, 1, 3, 4)]
    want = [on_circle(r, first + 90 * k, cc) for k in range(4)]
    for w in want:
        require(any(dist(w, a) < 1e-9 * max(1, r, abs(cc[1])) for a in arms), 'no arm ends at %s: %s', w, arms)
    # Drawn in one go, only arms are drawn
    for a, b in (pts[0], pts[1]), (pts[3], pts[4]):
        same('middle of an arm', lerp(a, b, 0.5), cc)
    return which, r, c


PATHS = [[], [(0, 0)], [(1, 2), (3, -4), (1, 2)], [(-1.5, 0), (0, 2), (1e3, -1e-3), (2, 2), (5, 6)]]


def make_path(path, kind):
    if kind == 'relative':
        return [PointRelative(x - 2, y + 3, Point(2, -3)) for x, y in path]
    return [Point(x, y) for x, y in path]


def check_result(what, got, want, as_pt):
    require(isinstance(got, list) and len(got) == len(want), '%s: %d points, expected %d', what, len(got), len(want))
    for g, w in zip(got, want):
        require(isinstance(g, Point if as_pt else tuple), '%s gives %r', what, g)
        same(what, tuple(g), w)


def check_paths(case, obs):
    path, kind, as_pt, op, arg = case
    given = make_path(path, kind)
    before = [p.xy() for p in given]
    kw = {} if as_pt is None else dict(as_pt=as_pt)
    if op == 'translate':
        for how in Vector, Point:
            got = path_translate(given, how(*arg), **kw)
            check_result('translated', got, [(x + arg[0], y + arg[1]) for x, y in path], as_pt)
    elif op == 'rotate':
        got = path_rotate(given, arg, **kw)
        check_result('rotated', got, [mat_apply(mat_rotate_cw(arg), p) for p in path], as_pt)
    elif op == 'rotate ccw':
        got = path_rotate_ccw(given, arg, **kw)
        check_result('rotated', got, [mat_apply(mat_rotate_ccw(arg), p) for p in path], as_pt)
    require([p.xy() for p in given] == before, 'the given path changed')
    if as_pt:
        for g in got:
            g.setxy(77, 78)
        require([p.xy() for p in given] == before, 'changing the result changes the given path')
    return len(path), op, arg


def check_convert(case, obs):
    path, kind = case
    given = make_path(path, kind)
    xy = path_to_xy(given)
    check_result('as xy', xy, path, False)
    back = path_from_xy(xy)
    check_result('as points', back, path, True)
    check_result('from lists', path_from_xy([list(p) for p in path]), path, True)
    for b in back:
        b.setxy(5, 5)
    check_result('as xy again', path_to_xy(given), path, False)
    check_point_list(given)
    check_point_list(back)
    for bad in ((1, 2), Vector(1, 2), None, 'a', 3.5, [Point(1, 2)]):
        for at in range(len(given) + 1):
            raises(ValueError, check_point_list, given[:at] + [bad] + given[at:])
    return len(path), kind


def check_min_rotation(case, obs):
    source, = case
    for target in case_targets(source):
        got = min_rotation(target, source)
        require(abs(got) <= 180, 'min_rotation(%s, %s) = %s', target, source, got)
        off = (source + got - target) % 360
        require(min(off, 360 - off) < 1e-9, 'turning %s by %s does not lead to %s', source, got, target)
        equal('by keyword', min_rotation(target_degrees=target, source_degrees=source), got)
        obs.step()
    return source


def case_targets(source):
    return TARGETS


TARGETS = [sign * t for t in (2530, 2701.5, 3599.5, 7205, 1e4, 36000, 36181, 123456.5, 1e6) for sign in (1, -1)] + [0.005, -0.005, 359.995, 180.001, 179.9999, -179.9995, 1e-4, -1e-6, 90.0003, 720.002, -719.99, 1e-9] + [d / 2 for d in range(-1500, 1501, 15)] + list(range(-361, 362))


def check_plot(case, obs):
    """Plotted lines go through the given points"""
    import matplotlib.pyplot as plt
    from matplotlib.colors import same_color
    from x7.geom.plot_utils import plot
    path, kind, width, how = case
    given = path if kind == 'xy' else make_path(path, kind)
    fig, ax = plt.subplots()
    try:
        kw = dict(linewidth=width) if width else {}
        line = plot(given, 'red', label='l', plotter=ax, **kw) if how == 'axes' else plot(given, 'red', 'l', **kw)
        require(line.axes is ax, 'plotted elsewhere')
        same('plotted points', [tuple(map(float, p)) for p in line.get_xydata()], path)
        require(same_color(line.get_color(), 'red'), 'plotted in %r', line.get_color())
        equal('label', line.get_label(), 'l')
        if width:
            equal('line width', line.get_linewidth(), width)
    finally:
        plt.close(fig)
    return kind, width


def run(ctx):
    ctx.assume('Angles of arcs are multiples of a quarter degree, so that taking them modulo a turn is exact', 'Radii are not negative, and arcs have at least one step')
    angles = ANGLES if not ctx.deep else sorted(set(ANGLES + [d * 7.5 for d in range(-100, 101)]))
    pairs = list(itertools.product(angles, angles))
    cases = [(sa, ea, 2, None, d, None) for sa, ea in pairs for d in (None, 'ccw', 'cw', 'none')]
    cases += [(sa, ea, r, c, d, n) for sa, ea in itertools.product(ANGLES[::2], ANGLES[1::2]) for r in (0, 0.5, 100) for c in CENTRES
              for d in (None, 'cw', '') for n in (None, 1, 2, 7)]
    cases += [(sa, ea, r, c, d, n) for sa, ea in ((0, 90), (90, 0), (-45, 200), (10, 10), (0, 1), (0, 720.5)) for r, c in ((1, None), (40, (3, -2)))
              for d in (None, 'cw', 'none') for n in (99, 100, 101, 179, 359, 360, 361, 500, 1000, 5000)]
    ctx.sweep('arcs', cases, check_arc, 'start angle x end angle x radius x centre x direction x steps: every point')
    ctx.sweep('arcs through points', [(s, e, r, side, n) for s in POINTS for e in POINTS for r in (0.5, 1, 1.5, 2, 5, 40) for side in (None, 1, -1, 0.25, -7)
                                      for n in (None, 1, 5)] +
              [(s, e, r, side, n) for s in POINTS[::2] for e in POINTS[1::2] for r in (1.5, 7) for side in (1, -1) for n in (100, 360, 361, 777)] +
              [(s, e, dist(s, e) / 2 * (1 + sign * f), side, n) for s in POINTS for e in POINTS if s != e for f in (0.3, 1e-2, 1e-3, 5e-4, 1e-5, 1e-7, 1e-9)
               for sign in (1, -1) for side in (1, -1) for n in (None, 4)], check_arc2p, 'start x end x radius x side')
    radii = (0, 0.001, 1, 2.5, 1000)
    ctx.sweep('circles', list(itertools.product(radii, CENTRES)), check_circle, 'circles')
    ctx.sweep('signs', list(itertools.product(('cross', 'plus'), radii, CENTRES)), check_sign, 'crosses and plus signs')
    turns = ANGLES + [1e-3, 12.34]
    ops = [('translate', v) for v in ((0, 0), (1, -2), (0.5, 1e3))] + [(o, a) for o in ('rotate', 'rotate ccw') for a in turns]
    ctx.sweep('paths', [(p, k, a, o, g) for p in PATHS for k in ('plain', 'relative') for a in (None, True, False) for o, g in ops], check_paths, 'moved paths')
    ctx.sweep('conversions', list(itertools.product(PATHS, ('plain', 'relative'))), check_convert, 'points and tuples')
    ctx.sweep('rotations', [(s,) for s in TARGETS], check_min_rotation, 'source x target angle over several turns')
    ctx.sweep('plots', list(itertools.product(PATHS[1:], ('xy', 'plain', 'relative'), (None, 1, 3), ('axes', 'current'))), check_plot, 'plotted paths')
