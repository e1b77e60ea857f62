"""C10: transforming, copying and reversing control points"""
import itertools
import math
import numpy as np
from mc.engine import same, equal, require, Disabled
from mc.oracle import *
from mc.models import make_cp, spec_xy, curve_segs
from x7.geom.bezier import *
from x7.geom.geom import *
from x7.geom.transform import *
from x7.geom.vec_field import Mesh, VectorField


class Warp(Transformer):
    """Some smooth non-linear mapping"""
    LINEAR = False

    def transform_np_pts(self, np_pts):
        return [warp(x, y) for x, y in zip(np_pts[0], np_pts[1])]


class Mirror(Transformer):
    """A linear mapping that is not a Transform"""
    def transform_np_pts(self, np_pts):
        return np.array([-np_pts[0] + 3, 2 * np_pts[1] - 1, np_pts[2]]).T


def warp(x, y):
    return x + y * y / 8 + 1, y * 1.5 - x * y / 16 + abs(x) / 4


def shear_field():
    vf = VectorField(Mesh(BBox(-8, -8, 8, 8), 3))
    for i in range(3):
        for j in range(3):
            vf.vx[i, j] = i * j - 1
            vf.vy[i, j] = i - j * j / 2
    return vf


def field_map(x, y):
    vx, vy = shear_field().lookup(x, y)
    return x + vx, y + vy


class Bend(Transformer):
    """A mapping that is hardly not linear"""
    LINEAR = False

    def __init__(self, k):
        self.k = k

    def map(self, x, y):
        return x + self.k * y * y, y + self.k * x * x - self.k * x * y / 3

    def transform_np_pts(self, np_pts):
        return [self.map(x, y) for x, y in zip(np_pts[0], np_pts[1])]


LINEAR = [IDENT, (1, 0, 5, 0, 1, -7), (2, 0, 0, 0, 0.5, 1), (0, -1, 3, 1, 0, 2), (0.6, 0.8, 0, -0.8, 0.6, 0), (-1, 0, 0, 0, 1, 0),
          (1, 0.5, 2, 0, -2, -1), (0, 0, 4, 0, 0, 5), (1, 1, 0, 1, 1, 0), (1e-3, 0, 0, 0, 1e3, 1e4)]
NONLINEAR = {'warp': (Warp, warp), 'field': (shear_field, field_map)}
HOW = ('plain', 'relative', 'live')
KINDS = ('smooth', 'very-smooth', 'sharp')


def check_source(cp, spec, text):
    same('original afterwards', cp_xy(cp), spec_xy(spec))
    equal('kind of original afterwards', cp.kind, spec[3])
    equal('original afterwards', repr(cp), text)


def linear(case, obs):
    spec, m, how = case
    cp = make_cp(spec, how)
    text = repr(cp)
    if m == 'mirror':
        xf, m = Mirror(), (-1, 0, 3, 0, 2, -1)
    else:
        xf = Transform(m)
    new = cp.transform(xf)
    obs.step()
    same('mapped control point', cp_xy(new), [mat_apply(m, p) for p in spec_xy(spec)])
    equal('kind', new.kind, spec[3])
    same('left and right', (new.l, new.r), [mat_apply(m, p) for p in spec_xy(spec)[1:]])
    check_source(cp, spec, text)
    # .. also when the original moves afterwards
    cp.dl, cp.dr = Vector(99, 98), Vector(97, 96)
    if how == 'plain':
        cp.c.setxy(95, 94)
    same('mapped control point after the original moved', cp_xy(new), [mat_apply(m, p) for p in spec_xy(spec)])
    obs.state(spec, m, how)


def nonlinear(case, obs):
    spec, which, how = case
    make, f = NONLINEAR[which] if which in NONLINEAR else (lambda: Bend(which), Bend(which).map)
    cp = make_cp(spec, how)
    text = repr(cp)
    new = cp.transform(make())
    obs.step()
    c, l, r = [f(*p) for p in spec_xy(spec)]
    gc, gl, gr = cp_xy(new)
    same('anchor', gc, c)
    equal('kind', new.kind, spec[3])
    dl, dr = sub(l, c), sub(r, c)
    gl, gr = sub(gl, gc), sub(gr, gc)
    axis = sub(dr, dl)
    n = math.hypot(*axis)
    if spec[3] == 'sharp' or n < 1e-12 and spec[3] == 'smooth':
        same('handles', (gl, gr), (dl, dr))
    elif spec[3] == 'very-smooth':
        same('handles', (gl, gr), ((-axis[0] / 2, -axis[1] / 2), (axis[0] / 2, axis[1] / 2)))
    else:
        ll, lr = math.hypot(*dl), math.hypot(*dr)
        u = axis[0] / n, axis[1] / n
        same('handles', (gl, gr), ((-u[0] * ll, -u[1] * ll), (u[0] * lr, u[1] * lr)))
    check_source(cp, spec, text)
    obs.state(spec, which, how)


def sub(p, q):
    return p[0] - q[0], p[1] - q[1]


def copies(case, obs):
    spec, how = case
    cp = make_cp(spec, how)
    text = repr(cp)
    xy = spec_xy(spec)
    for what, new in (('copy', cp.copy()), ('fixed', cp.fixed()), ('identity', cp.transform(Transform())),
                      ('reversed twice', cp.reversed().reversed())):
        same(what, cp_xy(new), xy)
        equal(what + ': kind', new.kind, spec[3])
        require(new.close(cp) or how == 'live', '%s is not close to the original', what)
        if how == 'plain' and what != 'identity':
            equal(what, new, cp)
            require(not new != cp, '%s differs', what)
        obs.step()
    other = ControlPoint(Point(7, 7), Vector(1, 2), Vector(3, 4), 'other')
    other.restore(cp)
    same('restored', cp_xy(other), xy)
    equal('restored: kind', other.kind, spec[3])
    if how != 'live':
        for digits in (0, 1, 2):
            new = cp.round(digits)
            c, dl, dr = spec[:3]
            want = [tuple(round(float(v), digits) for v in p) for p in (c, dl, dr)]
            same('rounded to %d' % digits, (new.c, new.dl, new.dr), want)
            equal('rounded: kind', new.kind, spec[3])
    rev = cp.reversed()
    same('reversed', cp_xy(rev), (xy[0], xy[2], xy[1]))
    equal('reversed: kind', rev.kind, spec[3])
    bb = cp.bbox()
    xs, ys = zip(*xy)
    same('bounding box', (bb.xl, bb.yl, bb.xh, bb.yh), (min(xs), min(ys), max(xs), max(ys)))
    same('left and right', (cp.l, cp.r), xy[1:])
    check_source(cp, spec, text)
    # Changing one part in place changes nothing else
    for what in ('copy', 'fixed', 'round', 'identity', 'restored', 'restored twice'):
        for part in ('c', 'dl', 'dr'):
            src = make_cp(spec, how)
            if what == 'identity':
                new = src.transform(Transform())
            elif what.startswith('restored'):
                new = ControlPoint(Point(7, 7), Vector(1, 2), Vector(3, 4), 'other')
                for _ in what.split():
                    new.restore(src)
            else:
                new = getattr(src, what)()
            v = getattr(new, part)
            if type(v) not in (Point, Vector):
                continue
            want = {n: tuple(map(float, getattr(new, n).xy())) for n in ('c', 'dl', 'dr')}
            v.setxy(50, 60)
            want[part] = (50, 60)
            if how != 'live':
                same('%s after setting its %s' % (what, part), [getattr(new, n).xy() for n in ('c', 'dl', 'dr')], list(want.values()))
            check_source(src, spec, text)
            obs.step()
    # Values differ from those that are not equal
    for change in range(4):
        new = cp.copy()
        if change == 3:
            new.kind = 'odd'
        elif change == 0:
            new.c = Point(xy[0][0], xy[0][1] + 1e-3)
        elif change == 1:
            new.dl = Vector(spec[1][0] + 1e-3, spec[1][1])
        else:
            new.dr = Vector(spec[2][0], spec[2][1] - 1e-3)
        require(new != cp and not new == cp, 'still equal after a change of item %d', change)
        require(not new.close(cp) and not cp.close(new), 'still close after a change of item %d', change)
        if change != 3:
            require(new.close(cp, 1e-2) and cp.close(new, 1e-2), 'not close within 1e-2 after a change of item %d by 1e-3', change)
    check_source(cp, spec, text)
    obs.state(spec, how)


def reverse(case, obs):
    specs, how = case
    cps = [make_cp(s, how) for s in specs]
    text = repr(cps)
    rev = ControlPoint.reverse_list(cps)
    equal('number', len(rev), len(cps))
    back = ControlPoint.reverse_list(rev)
    equal('reversed twice', repr(back), text)
    equal('reversed twice', back, cps)
    equal('original afterwards', repr(cps), text)
    for closed in (True, False):
        a = curve_segs(specs, closed)
        b = segments(cps_xy(rev), closed)
        b = [tuple(reversed(s)) for s in reversed(b)]
        if closed:
            b = b[1:] + b[:1]   # the closing segment comes last both ways
        same('curve reversed', b, a)
    for cp, s in zip(rev, reversed(specs)):
        equal('kind', cp.kind, s[3])
        obs.step()
    obs.state(specs, how)


class World(object):
    """Control points with copies; the model keeps every coordinate separately, except the base that derived ones share"""
    how = 'plain'

    def __init__(self):
        self.base = [3, -1]
        self.base_pt = Point(3, -1)
        # anchor is ('abs', x, y) or ('rel', dx, dy)
        if self.how == 'plain':
            c, m = Point(1, 2), ['abs', 1, 2]
        else:
            c, m = PointRelative(1, 2, self.base_pt, 'n'), ['rel', 1, 2]
        self.items = [(ControlPoint(c, Vector(-1, 3), Vector(2, 0.25), 'smooth'), dict(c=m, dl=(-1, 3), dr=(2, 0.25), kind='smooth'))]

    def where(self, m):
        k, x, y = m['c']
        return (x, y) if k == 'abs' else (x + self.base[0], y + self.base[1])

    def apply(self, op):
        what, *a = op
        if what == 'base':
            self.base = [self.base[0] + a[0], self.base[1] + a[1]]
            self.base_pt.setxy(*self.base)
            return
        i = a[0]
        if i >= len(self.items):
            raise Disabled()
        cp, m = self.items[i]
        c = self.where(m)
        if what in ('copy', 'fixed', 'round', 'transform'):
            if len(self.items) > 2:
                raise Disabled()
            n = dict(m)
            if what == 'copy':
                new = cp.copy()
                n['c'] = list(m['c'])
            elif what == 'fixed':
                new = cp.fixed()
                n['c'] = ['abs', *c]
            elif what == 'round':
                new = cp.round(1)
                n.update(c=['abs'] + [round(v, 1) for v in c], dl=tuple(round(v, 1) for v in m['dl']), dr=tuple(round(v, 1) for v in m['dr']))
            else:
                new = cp.transform(Transform(a[1]))
                n.update(c=['abs', *mat_apply(a[1], c)], dl=mat_linear(a[1], m['dl']), dr=mat_linear(a[1], m['dr']))
            self.items.append((new, n))
        elif what == 'restore':
            j = a[1]
            if j >= len(self.items):
                raise Disabled()
            other, o = self.items[j]
            cp.restore(other)
            m.update(c=list(o['c']), dl=o['dl'], dr=o['dr'], kind=o['kind'])
        elif what == 'move':
            if m['c'][0] == 'abs':
                cp.c.setxy(c[0] + a[1], c[1] + a[2])
            else:
                cp.c.dx += a[1]
                cp.c.dy += a[2]
            m['c'] = [m['c'][0], m['c'][1] + a[1], m['c'][2] + a[2]]
        elif what == 'handle':
            if a[1] == 'alike':
                cp.dl = Vector(*m['dr'])
                m['dl'] = m['dr']
            elif a[1] == 'l':
                cp.dl = cp.dl * 2 + Vector(0.5, 0)
                m['dl'] = (m['dl'][0] * 2 + 0.5, m['dl'][1] * 2)
            else:
                # in place
                x, y = m['dr']
                cp.dr.setxy(x + 1, y - 1)
                m['dr'] = (x + 1, y - 1)
        elif what == 'kind':
            cp.kind = m['kind'] = a[1]

    def check(self):
        for n, (cp, m) in enumerate(self.items):
            c = self.where(m)
            same('control point %d' % n, cp_xy(cp), (c, (c[0] + m['dl'][0], c[1] + m['dl'][1]), (c[0] + m['dr'][0], c[1] + m['dr'][1])))
            equal('kind of %d' % n, cp.kind, m['kind'])
        same('base', self.base_pt, self.base)

    def canon(self):
        return (tuple(self.base), tuple((tuple(m['c']), m['dl'], m['dr'], m['kind']) for _, m in self.items))


class Derived(World):
    how = 'relative'


def run(ctx):
    xs = ctx.pick([(0, 0), (3, -2), (-7, 0.5)], [(0, 0), (3, -2), (-7, 0.5), (1e4, 1), (0.125, 6)])
    hs = ctx.pick([(0, 0), (1, 2), (-1, -2), (0.25, -4)], [(0, 0), (1, 2), (-1, -2), (0.25, -4), (2, 4), (30, -1), (-2, 0)])
    specs = [(c, a, b, k) for c in xs for a in hs for b in hs for k in KINDS]
    ctx.sweep('linear', [(s, m, how) for s in specs for m in LINEAR + ['mirror'] for how in HOW], linear,
              'every control point under every linear mapping')
    tiny = [(c, mat_linear((k, 0, 0, 0, k, 0), a), mat_linear((k, 0, 0, 0, k, 0), b), kind) for c in xs for k in (1e-2, 1e-3, 1e-4, 1e-5)
            for a in ((1, 2), (-1, 0.5), (0, -2), (3, 0)) for b in ((1, 2), (1, -0.5), (0, 2), (-3, 1)) for kind in KINDS]
    ctx.sweep('tiny handles', [(s, w, how) for s in tiny for w in list(NONLINEAR) + [1e3, 30, 1, 0.1] for how in HOW[:2]], nonlinear,
              'control points with tiny handles under non-linear mappings')
    ctx.sweep('nonlinear', [(s, w, how) for s in specs for w in list(NONLINEAR) + [0.1, 0.01, 1e-3, -1e-4, 1e-5] for how in HOW], nonlinear,
              'every control point under non-linear mappings')
    specs += [((1.2345, -6.789), (0.111, 0.999), (-3.456, 2.5), k) for k in KINDS] + [((1, 2), (3, 4), (5, 6), 'any-kind')]
    ctx.sweep('copies', [(s, how) for s in specs for how in HOW], copies, 'copies, fixed copies, rounding, restoring, reversing, box')
    few = specs[::11][:ctx.pick(6, 12)]
    ctx.sweep('reverse', [(s, how) for n in range(0, 4) for s in itertools.product(few, repeat=n) for how in HOW if n or how == 'plain'], reverse,
              'lists of 0..3 control points reversed')
    ops = [('copy', 0), ('fixed', 0), ('round', 0), ('copy', 1), ('transform', 0, (0, -1, 5, 2, 0, 1)), ('restore', 0, 1), ('restore', 1, 0),
           ('restore', 2, 1), ('move', 0, 1, -0.5), ('move', 1, -2, 3.25), ('handle', 0, 'l'), ('handle', 1, 'r'), ('handle', 0, 'r'), ('handle', 0, 'alike'),
           ('kind', 0, 'sharp'), ('kind', 1, 'very-smooth')]
    depth = ctx.pick(5, 6)
    ctx.histories('plain', World, ops, depth, 'copies, edits and restores of control points with plain anchors')
    ctx.histories('derived', Derived, ops + [('base', 2, 5)], depth, 'the same with anchors relative to a shared base')
