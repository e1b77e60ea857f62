"""C07: sampled curve paths"""
import itertools
import math
from mc.engine import same, equal, require, near_all
from mc.oracle import *
from mc.models import *
from mc.edits import edited
from x7.geom.geom import *
from x7.geom.bezier import *
from x7.geom.model import ElemCurve
from x7.geom.transform import Transform


def raw_points(pts, how):
    if how == 'tuples':
        return list(pts)
    if how == 'points':
        return [Point(*p) for p in pts]
    if how == 'relative':
        return [PointRelative(x - 1, y + 1, Point(1, -1)) for x, y in pts]
    return [Point(*p) if i % 2 else p for i, p in enumerate(pts)]


def curve(case, obs):
    pts, steps, how = case
    raw = raw_points(pts, how)
    kw = {} if steps is None else dict(steps=steps)
    path = bez(raw, as_xy=True, **kw)
    line = bez(raw, **kw)
    obs.step()
    n = len(path) - 1
    if steps is not None:
        equal('number of points', n, steps)
    equal('first point', tuple(path[0]), tuple(pts[0]))
    equal('last point', tuple(path[-1]), tuple(pts[3]))
    for i, p in enumerate(path):
        require(len(p) == 2, 'point %d is %r', i, p)
        same('sample %d of %d' % (i, n), tuple(p), bez_pt(pts, i / n))
    require(all(not isinstance(v, (tuple, list, BasePoint)) for v in line), 'flat path is not flat')
    equal('flat path', list(line), [v for p in path for v in p])
    if how != 'tuples':
        equal('arguments afterwards', [p.xy() if isinstance(p, BasePoint) else p for p in raw], list(pts))
    obs.state(tuple(round(v, 3) for v in line[2:4]), n)


def joined(case, obs):
    specs, closed, how, steps, (tname, m) = case
    cps = [make_cp(s, h) for s, h in zip(specs, how)]
    before = repr(cps)
    t = Transform(m)
    kw = {} if steps is None else dict(steps=steps)
    path = pairs(bez_path(t, cps, closed, **kw))
    segs = map_segs(m, curve_segs(specs, closed))
    obs.step()
    check_path('path', path, segs, closed, steps)
    equal('control points afterwards', repr(cps), before)
    same('transform afterwards', t.as_6tuple(), m)
    moved = [cp.transform(t) for cp in cps]
    same('path of mapped control points', pairs(bez_path(Transform(), moved, closed, **kw)), path)
    # Element
    if steps is None:
        dc = canvas(t)
        for n in (1, 2, 9, 250, None):
            if n:
                dc.points_per_curve = n
            else:
                dc.show_cps = True
            for xf in (None, (1, 0.5, 2, 0, 2, -1)):
                elem = ElemCurve('e', PENS['thin'](), cps, closed, xform=Transform(xf) if xf else None)
                paths = elem.paths(dc)
                obs.step()
                equal('number of paths', len(paths), 1)
                pts = path_points(paths[0])
                check_path('element path', pts, map_segs(m, map_segs(xf, curve_segs(specs, closed))) if xf else segs, closed, n)
                equal('closed', paths[0].closed, closed)
                same('transform after paths', dc.matrix.as_6tuple(), m)
    obs.state(len(path), closed, tname)


def check_path(what, path, segs, closed, steps):
    if not segs:
        require(len(path) == 0, '%s of no segment has %d points', what, len(path))
        return
    if steps is None:
        steps = (len(path) - 1) // len(segs)
    equal('number of points of ' + what, len(path), steps * len(segs) + 1)
    want = sample_segs(segs, steps)
    same(what, path, want, 1e-9)
    if closed:
        same('end of closed ' + what, path[-1], path[0], 1e-12)
    # the joints are the anchors exactly
    for i, s in enumerate(segs):
        same('anchor %d of %s' % (i, what), path[i * steps], s[0], 1e-12)


ALPHABET = [
    ((0, 0), (0, 0), (0, 0)), ((3, 1), (-1, 0), (1, 0)), ((-2, 4), (0, 2), (0.5, -2), 'sharp'), ((3, 1), (0, 0), (2, -3)),
    ((100, -50), (-30, 7), (0, 0), 'very-smooth'), ((0.5, 0.25), (5, 5), (-5, 5)),
]
MAPS = [('identity', IDENT), ('screen', (2, 0, 500, 0, -2, 500)), ('affine', mat_mul(mat_translate(-1, 2), mat_mul(mat_rotate_cw(30), mat_scale(1, -3))))]


def ask(what, e, d):
    segs = curve_segs(d['cps'], d.get('closed', True))
    for m in (None, (2, 0, 500, 0, -2, 500)):
        dc = canvas(Transform(m) if m else None)
        for n in (7, 3):
            dc.points_per_curve = n
            paths = e.paths(dc)
            equal(what + ': number of paths', len(paths), 1)
            check_path(what, path_points(paths[0]), map_segs(m or IDENT, map_segs(d['xform'], segs) if d['xform'] else segs), d.get('closed', True), n)
            equal(what + ': closed', paths[0].closed, d.get('closed', True))


def run(ctx):
    pos = [(0, 0), (1, 0), (-2, 3), (10, -0.5)] + ctx.pick([], [(0.125, 1e3)])
    quad = list(itertools.product(pos, repeat=4))
    cases = [(q, s, how) for q in quad for s in ctx.pick((1, 2, 3, 7), (1, 2, 3, 4, 5, 10, 33)) for how in ('tuples', 'points')]
    cases += [(q, s, how) for q in quad[::7] for s in (1, 4, 20, 80, None) for how in ('tuples', 'points', 'relative', 'mixed')]
    cases += [(q, s, how) for q in quad[5::50] for s in (500, 999, 1000, 1001, 2500, 7000) for how in ('tuples', 'points')]
    ctx.sweep('one curve', cases, curve, 'every sample of every curve of the lattice against the Bernstein polynomials')
    cases, long = [], []
    for n in range(1, ctx.pick(4, 5)):
        for specs in itertools.product(ALPHABET if n < 4 else ALPHABET[1:5], repeat=n):
            for closed in (False, True):
                for steps in (1, 2, 5, None):
                    for t in MAPS if n < 4 else MAPS[1:2]:
                        cases.append((specs, closed, ('plain', 'relative', 'live', 'plain'), steps, t))
    ctx.sweep('paths', cases, joined, 'paths through all sequences of control points, open and closed, as functions and as drawn elements')
    # Many control points, with repeated ones and with loops from a point to itself
    loop = ((3, 1), (-4, 0), (0, 4))
    for n in ctx.pick((8, 9, 10, 17), (8, 9, 10, 17, 33, 100)):
        for k in range(5):
            specs = tuple(ALPHABET[(i * (k + 1) + i // 3 + k) % len(ALPHABET)] for i in range(n))
            specs = specs[:n // 2] + (loop, ) * min(k, 3) + specs[n // 2:]
            for closed in (False, True):
                long += [(specs, closed, ('plain', 'live', 'relative') * n, steps, MAPS[k % 3]) for steps in (None, 4)]
    ctx.sweep('long paths', long, joined, 'paths through many control points, repeated ones among them')
    edited(ctx, ask, ctx.pick(3, 4), ('curve', 'open'))
