"""C08: splitting curves and adding control points"""
import itertools
from mc.engine import same, equal, require, Disabled
from mc.oracle import *
from mc.models import *
from x7.geom.bezier import *
from x7.geom.geom import *
from x7.geom.model import ElemCurve
from x7.geom.transform import Transform


def sub_curve(seg, t0, t1):
    """Control polygon of seg restricted to [t0, t1], by blossoming"""
    def blossom(*ts):
        pts = list(seg)
        for t in ts:
            pts = [lerp(p, q, t) for p, q in zip(pts, pts[1:])]
        return pts[0]
    return blossom(t0, t0, t0), blossom(t0, t0, t1), blossom(t0, t1, t1), blossom(t1, t1, t1)


def check_kind(what, cp, kind):
    """cp was an anchor of that kind before: it still is, unless its handles no longer balance"""
    if kind == 'very-smooth':
        (x, y), l, r = cp_xy(cp)
        balanced = dist((-cp.dl.x, -cp.dl.y), cp.dr.xy()) < 1e-9 * max(1, abs(cp.dl.x), abs(cp.dl.y))
        require(cp.kind == 'smooth' or cp.kind == kind and balanced, '%s: control point %r was very smooth', what, cp)
    else:
        equal(what + ': kind', cp.kind, kind)


def split(case, obs):
    sa, sb, t, how = case
    a, b = make_cp(sa, how), make_cp(sb, how)
    before = repr((a, b)), cp_xy(a), cp_xy(b)
    kw = {} if t is None else dict(t=t)
    left, middle, right = bez_split(a, b, **kw)
    obs.step()
    t = 0.5 if t is None else t
    seg = (spec_xy(sa)[0], spec_xy(sa)[2], spec_xy(sb)[1], spec_xy(sb)[0])
    lo, = segments([cp_xy(left), cp_xy(middle)], False)
    hi, = segments([cp_xy(middle), cp_xy(right)], False)
    same('first piece', lo, sub_curve(seg, 0, t))
    same('second piece', hi, sub_curve(seg, t, 1))
    for i in range(5):
        u = i / 4
        same('first piece at %s' % u, bez_pt(lo, u), bez_pt(seg, t * u))
        same('second piece at %s' % u, bez_pt(hi, u), bez_pt(seg, t + (1 - t) * u))
    # Handles on the outside belong to the neighbours
    same('outer handle of first', left.dl.xy(), sa[1])
    same('outer handle of last', right.dr.xy(), sb[2])
    same('position at the split', middle.c.xy(), bez_pt(seg, t))
    l, r = middle.dl.xy(), middle.dr.xy()
    tx, ty = bez_tangent(seg, t)
    # handles at the split are along the tangent: t/3 of it backwards, (1-t)/3 forwards
    same('handles at the split', (l, r), ((-tx * t / 3, -ty * t / 3), (tx * (1 - t) / 3, ty * (1 - t) / 3)))
    equal('control points afterwards', (repr((a, b)), cp_xy(a), cp_xy(b)), before)
    require(middle.kind != 'very-smooth' or dist((-l[0], -l[1]), r) < 1e-9 * max(1, abs(l[0]), abs(l[1])), 'the point at the split is very smooth: %r', middle)
    check_kind('left', left, a.kind)
    check_kind('right', right, b.kind)
    # Splitting the pieces again changes nothing either
    l2, m2, r2 = bez_split(middle, right)
    same('second half of second half', segments([cp_xy(m2), cp_xy(r2)], False), [sub_curve(seg, t + (1 - t) / 2, 1)], 1e-8)
    obs.state(sa, sb, t)


def anchors(elem):
    return [tuple(map(float, cp.c.xy())) for cp in elem.control_points]


def in_order(old, new):
    """old anchors occur in new, in order"""
    it = iter(new)
    return all(any(near_pt(p, q) for q in it) for p in old)


def near_pt(p, q):
    return dist(p, q) <= 1e-9 * max(1, abs(p[0]), abs(p[1]))


def check_elem(what, elem, segs, old, count, closed, m):
    """elem still draws segs (external space) and has old anchors"""
    equal(what + ': number of control points', len(elem.control_points), count)
    require(in_order(old, anchors(elem)), '%s: anchors %r are not %r with additions', what, anchors(elem), old)
    equal(what + ': closed', elem.closed, closed)
    got = map_segs(m, cps_segs(elem.control_points, elem.closed))
    check_same_shape(what, got, segs)
    # New segments do not run back and forth: total length of control polygons does not grow
    def length(ss):
        return sum(dist(p, q) for s in ss for p, q in zip(s, s[1:]))
    require(length(got) <= length(segs) * (1 + 1e-9) + 1e-9, '%s: the curve is traced more than once', what)
    dc = canvas()
    path, = elem.paths(dc)
    check_outline(what + ' as drawn', path_points(path), segs, closed)


def add(case, obs):
    specs, closed, how, xf, times = case
    elem = ElemCurve('e', PENS['thin'](), [make_cp(s, how) for s in specs], closed, xform=Transform(xf) if xf else None)
    m = xf or IDENT
    segs = map_segs(m, curve_segs(specs, closed))
    old = [tuple(map(float, s[0])) for s in specs]
    kinds = {}
    for cp in elem.control_points:
        kinds.setdefault(tuple(map(float, cp.c.xy())), []).append(cp.kind)
    for n in range(1, times + 1):
        elem.add_one()
        obs.step()
        check_elem('after %d additions' % n, elem, segs, old, len(specs) + n, closed, m)
        old = anchors(elem)
        for p, ks in kinds.items():
            if len(ks) == 1 and old.count(p) == 1:
                check_kind('after %d additions' % n, elem.control_points[old.index(p)], ks[0])
    same('transform', elem.xform.as_6tuple(), m)
    equal('name', elem.name, 'e')
    obs.state(tuple(old), closed, xf)


class World(object):
    """An element and its copies, each with the outline it must keep"""
    spec = closed = how = xf = None

    def __init__(self):
        m = self.xf or IDENT
        e = ElemCurve('e', PENS['line'](), [make_cp(s, self.how) for s in self.spec], self.closed, xform=Transform(m) if self.xf else None)
        self.items = [[e, map_segs(m, curve_segs(self.spec, self.closed)), anchors(e), len(self.spec)]]

    def apply(self, op):
        what, i, *a = op
        if i >= len(self.items):
            raise Disabled()
        elem, segs, old, count = self.items[i]
        if what == 'add':
            elem.add_one()
            require(in_order(old, anchors(elem)), 'an anchor was lost: %r, now %r', old, anchors(elem))
            self.items[i][2:] = [anchors(elem), count + 1]
        elif what == 'copy':
            self.items.append([elem.copy(), segs, anchors(elem), count])
        elif what == 'transform':
            new = elem.transform(Transform(a[0]))
            self.items.append([new, map_segs(a[0], segs), anchors(new), count])
        elif what == 'restore':
            if len(self.items) < 2 or self.items[1 - i][3] != count:
                raise Disabled()
            other = self.items[1 - i]
            elem.restore(other[0])
            self.items[i] = [elem, other[1], anchors(other[0]), count]

    def check(self):
        for n, (elem, segs, old, count) in enumerate(self.items):
            check_elem('element %d' % n, elem, segs, old, count, self.closed, elem.xform.as_6tuple())

    def canon(self):
        return tuple(tuple((round(x, 5), round(y, 5)) for x, y in anchors(e)) for e, *_ in self.items)


def world(spec, closed, how, xf):
    return type('World_', (World,), dict(spec=spec, closed=closed, how=how, xf=xf))


ALPHABET = [
    ((0, 0), (0, -1), (0, 1)), ((3, 1), (-1, 0), (1, 0)), ((-2, 4), (0, 2), (0.5, -2), 'sharp'), ((0, 0), (0, 0), (0, 0)),
    ((100, -50), (-30, 7), (0, 0), 'very-smooth'), ((4, 4), (5, 5), (-5, 5)),
]
XF = (1, 0.5, 2, 0, -2, -1)
OPS = [('add', 0), ('add', 1), ('copy', 0), ('transform', 0, (0, -1, 5, 2, 0, 1)), ('restore', 0), ('restore', 1)]


def run(ctx):
    pos = [((x, y), h1, h2, k) for (x, y), h1, h2, k in itertools.product(
        [(0, 0), (3, 1), (-50, 7)], [(0, 0), (1, -2)], [(0, 0), (-1, 5)], ['smooth', 'sharp', 'very-smooth'])]
    ts = ctx.pick([None, 0.5, 0.25, 0.1, 0.75, 0.999, 0, 1, 0.4997, 0.500001, 1e-6], [None, 0, 1, 1e-6, 0.999, 0.4997, 0.50001, 0.500001] + [i / 16 for i in range(1, 16)])
    ctx.sweep('split', [(a, b, t, how) for a in pos for b in pos for t in ts for how in ('plain', 'relative', 'live')], split,
              'every pair of control points, every parameter, against blossoming')
    cases = [(specs, closed, how, xf, ctx.pick(3, 6)) for n in (2, 3) for specs in itertools.product(ALPHABET, repeat=n)
             for closed in (True, False) for how, xf in ((('plain', None), ('live', XF)) if n == 2 else (('plain', XF),))]
    cases += [((s,), True, how, xf, 5) for s in ALPHABET for how, xf in (('plain', None), ('relative', XF), ('live', XF))]
    cases += [(specs, closed, 'relative', None, 9) for specs in (ALPHABET[:2], ALPHABET[:4], ALPHABET) for closed in (True, False)]
    ctx.sweep('add', cases, add, 'repeated additions to every curve of the alphabet')
    for name, specs in (('two', ALPHABET[:2]), ('four', ALPHABET[1:5])):
        for closed in (True, False):
            ctx.histories('%s points, %s' % (name, 'closed' if closed else 'open'), world(specs, closed, 'relative', XF if closed else None),
                          OPS, ctx.pick(4, 5), 'all sequences of additions, copies, transforms and restores')
