"""C26: vector fields interpolate exactly and move points by the interpolated value"""
import itertools
import math
import numpy as np
from mc.engine import same, equal, require, raises, fail, near, Disabled, Violation
from mc.oracle import *
from x7.geom.geom import BBox, Point, PointRelative, Vector
from x7.geom.bezier import ControlPoint
from x7.geom.vec_field import Mesh, VectorField

BOXES = [(0, 0, 4, 4), (-2, 1, 3, 2), (-100, -50, -20, 300), (5, 5, 5.5, 9), (0, -1e-8, 3e-8, 2e-8), (-1e9, 1e8, 3e9, 5e8)]


def nodes(box, n):
    xl, yl, xh, yh = box
    return [xl + (xh - xl) * k / (n - 1) for k in range(n)], [yl + (yh - yl) * k / (n - 1) for k in range(n)]


def bilinear(box, n, vals, x, y):
    """Reference interpolation of vals[i][j] stored at (x_i, y_j); continued linearly outside"""
    xs, ys = nodes(box, n)
    i = max(0, min(n - 2, int(math.floor((x - xs[0]) / (xs[-1] - xs[0]) * (n - 1)))))
    j = max(0, min(n - 2, int(math.floor((y - ys[0]) / (ys[-1] - ys[0]) * (n - 1)))))
    s = (x - xs[i]) / (xs[i + 1] - xs[i])
    t = (y - ys[j]) / (ys[j + 1] - ys[j])
    return ((1 - s) * (1 - t) * vals[i][j] + s * (1 - t) * vals[i + 1][j] + (1 - s) * t * vals[i][j + 1] + s * t * vals[i + 1][j + 1])


def queries(box, n, per=4):
    """Points at nodes, edges, and inside of cells"""
    xs, ys = nodes(box, (n - 1) * per + 1)
    return [(x, y) for x in xs for y in ys]


def outside(box):
    xl, yl, xh, yh = box
    w, h = xh - xl, yh - yl
    return [(x, y) for x in (xl - w, xl - 0.1 * w, xl + 0.3 * w, xh + 0.25 * w, xh + 3 * w) for y in (yl - 2 * h, yl - 0.5 * h, yl + 0.6 * h, yh + h)
            if not (xl <= x <= xh and yl <= y <= yh)]


def far_outside(box):
    xl, yl, xh, yh = box
    w, h = xh - xl, yh - yl
    return [(xl - k * w, yl + f * h) for k in (15, 60, 1000) for f in (-900, 0.3, 40)] + [(xl + f * w, yh + k * h) for k in (11, 250) for f in (0.7, 20, 100)]


def moved(p, v):
    return p[0] + v[0], p[1] + v[1]


def check_moves(vf, points, want, rel=1e-12):
    """However it is called, points move by the interpolated vector"""
    pts = list(points)
    vals = [want(*p) for p in pts]
    targets = [moved(p, v) for p, v in zip(pts, vals)]
    scale = max([1e-300] + [abs(c) for l in (pts, vals, targets) for t in l for c in t])
    tol = rel * scale

    def agree(what, got, exp):
        require(len(got) == len(exp), '%s: %d results for %d points', what, len(got), len(exp))
        for p, g, e in zip(pts, got, exp):
            require(abs(g[0] - e[0]) <= tol and abs(g[1] - e[1]) <= tol, '%s at %s: got %s, expected %s', what, p, tuple(map(float, g)), e)
    agree('lookup', [vf.lookup(*p) for p in pts], vals)
    agree('transform', [vf.transform(*p) for p in pts], targets)
    agree('interp_coords', list(zip(*vf.interp_coords(np.array(pts, float)))), vals)
    given = [Point(*p) for p in pts]
    res = vf.transform_pts(given)
    require(all(type(r) is Point for r in res), 'transform_pts of points gives %r', res[:1])
    agree('transform_pts', [r.xy() for r in res], targets)
    equal('transform_pts of nothing', (vf.transform_pts([]), vf.transform_pts([], flatten=True)), ([], []))
    res = vf.transform_pts(pts)
    require(all(type(r) is tuple for r in res), 'transform_pts of tuples gives %r', res[:1])
    agree('transform_pts of tuples', res, targets)
    res = list(vf.transform_pts(given, flatten=True))
    agree('transform_pts flattened', list(zip(res[::2], res[1::2])), targets)
    agree('transform_np_pts', [tuple(r)[:2] for r in vf.transform_np_pts(vf.points_to_np_points(given))], targets)
    require([g.xy() for g in given] == pts, 'the given points changed')
    one = []
    for p in pts[:12]:
        r = vf.transform_pt(PointRelative(p[0] / 2, p[1] * 0.75, Point(p[0] / 2, p[1] * 0.25)))
        require(type(r) is Point, 'transform_pt gives %r', r)
        one.append(r.xy())
        r = vf.transform_pt(Point(*p), as_pt=False)
        require(type(r) is tuple, 'transform_pt gives %r', r)
        require(max(abs(x - y) for x, y in zip(r, one[-1])) <= tol, 'transform_pt gives %r and %r', r, one[-1])
    agree('transform_pt', one, targets[:len(one)])
    for p, t in list(zip(pts, targets))[:12]:
        cp = ControlPoint(Point(*p), Vector(0.25, 0.5), Vector(-0.5, 0.125))
        same('anchor of control point', cp.transform(vf).c, t, tol)
        equal('given anchor', cp.c.xy(), p)


def arrays(n, fx, fy):
    return np.array([[float(fx(i, j)) for j in range(n)] for i in range(n)]), np.array([[float(fy(i, j)) for j in range(n)] for i in range(n)])


def check_one_hot(case, obs):
    box, n, (a, b), axis, value, how = case
    mesh = Mesh(BBox(*box), n)
    hot = arrays(n, lambda i, j: value * (axis != 'y' and (i, j) == (a, b)), lambda i, j: -2 * value * (axis != 'x' and (i, j) == (a, b)))
    if how == 'given':
        vf = VectorField(mesh, hot[0].copy(), hot[1].copy())
    elif how == 'one':
        vf = VectorField(mesh, **{'v' + axis: hot[axis == 'y'].copy()})
    else:
        vf = mesh.zeros()
        if axis != 'y':
            vf.vx[a, b] = value
        if axis != 'x':
            vf.vy[a, b] = -2 * value

    def want(x, y):
        return bilinear(box, n, hot[0], x, y), bilinear(box, n, hot[1], x, y)
    check_moves(vf, queries(box, n, 2 if n > 3 else 4), want)
    xs, ys = nodes(box, n)
    same('value at the node', vf.lookup(xs[a], ys[b]), (hot[0][a, b], hot[1][a, b]))
    require((vf.vx == hot[0]).all() and (vf.vy == hot[1]).all(), 'looking up changed the field')
    return case


LINEAR = [(0, 0, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0), (0, 0, 0, 0, 0, -3), (0, 1, 0, 0, 0, 0), (0, 0, 1, 0, 0, 0), (0, 0, 0, 0, 2, 0), (2, -0.5, 0.25, -1, 3, 0.125),
          (0, 0, 0, 0.5, 0, 1)]


def check_linear(case, obs):
    box, n, (a, bx, by, c, dx, dy), xy = case
    xs, ys = nodes(box, n)

    def want(x, y):
        return a + bx * x + by * y + xy * x * y, c + dx * x + dy * y - xy * x * y
    v = arrays(n, lambda i, j: want(xs[i], ys[j])[0], lambda i, j: want(xs[i], ys[j])[1])
    vf = VectorField(Mesh(BBox(*box), n), *v)
    check_moves(vf, queries(box, n, 3) + outside(box), want)
    # What is rounded in the mesh counts the more
    check_moves(vf, far_outside(box), want, 1e-8)
    return case


def check_mesh(case, obs):
    box, n = case
    m = Mesh(BBox(*box), n)
    xs, ys = nodes(box, n)
    same('coord_x', list(map(float, m.coord_x)), xs)
    same('coord_y', list(map(float, m.coord_y)), ys)
    same('x_grid', m.x_grid.tolist(), [xs for _ in range(n)])
    same('y_grid', m.y_grid.tolist(), [[y] * n for y in ys])
    equal('shape', tuple(m.x_shape), (n, n))
    equal('steps', m.steps, n)
    z, z2 = m.zeros(), m.zeros()
    require(z.vx.shape == (n, n) and z.vy.shape == (n, n) and not z.vx.any() and not z.vy.any(), 'zeros')
    require(z == z2 and z.mesh is m, 'zeros differ')
    z.vx[0, 0] = 1
    require(not z2.vx.any() and not z2.vy.any() and not z.vy.any() and z != z2, 'fields share their values')
    digits = arrays(n, lambda i, j: (i + 1) / (j + 3) - 1 / 7, lambda i, j: (j + 2) / (3 + i * n) * 1e9)
    for z in (m.zeros(), m.uniform(0.25)):
        z.vx[:], z.vy[:] = digits
        require((z.vx == digits[0]).all() and (z.vy == digits[1]).all(), 'a field keeps other values than it was given')
        check_moves(z, queries(box, n, 1 if n > 3 else 2), lambda x, y: (bilinear(box, n, digits[0], x, y), bilinear(box, n, digits[1], x, y)))
    u = m.uniform(0.5)
    require((abs(u.vx) <= 0.5).all() and (abs(u.vy) <= 0.5).all() and u.vx.shape == (n, n) and u.vy.shape == (n, n), 'uniform')
    require(u.vx.any() and u.vy.any() and not (u.vx == u.vy).all(), 'uniform field of %r', u.vx)
    if n == 5:
        require(all((v > 0).any() and (v < 0).any() and (abs(v) > 0.2).any() for v in (m.uniform(0.5).vx, m.uniform(0.5).vy, -m.uniform(0.5).vx)), 'uniform field is one-sided')
    for b2 in BOXES:
        for n2 in (2, 3, 5):
            m2 = Mesh(BBox(*b2), n2)
            require((m == m2) is ((b2, n2) == (box, n)), 'meshes %r and %r compare wrongly', case, (b2, n2))
            require((m.zeros() == m2.zeros()) is ((b2, n2) == (box, n)), 'fields on meshes %r and %r compare wrongly', case, (b2, n2))
    require(not m == 'mesh' and not z2 == 'field' and z2 != m, 'compares equal to something else')
    return case


# -- histories of fields

def smooth(v, n):
    out = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            near_ = [v[x][y] for x in range(max(0, i - 2), min(n, i + 2)) for y in range(max(0, j - 2), min(n, j + 2))]
            out[i][j] = (sum(near_) + 19 * v[i][j]) / (len(near_) + 19)
    return out


def normal(vx, vy, n):
    mag = max(math.hypot(vx[i][j], vy[i][j]) for i in range(n) for j in range(n))
    if mag == 0:
        return [r[:] for r in vx], [r[:] for r in vy]
    return [[v / mag for v in r] for r in vx], [[v / mag for v in r] for r in vy]


def check_larger(case, obs):
    """Smoothing and normalising on meshes of any size"""
    n, (a, b), kind = case
    if kind == 'hot':
        vx, vy = arrays(n, lambda i, j: 3 * ((i, j) == (a, b)), lambda i, j: -2 * ((j, i) == (a, b)))
    elif kind == 'minute':
        vx, vy = arrays(n, lambda i, j: 3e-14 * ((i, j) == (a, b)), lambda i, j: 1e-200 * (i + j))
    elif kind == 'tiny':
        vx, vy = arrays(n, lambda i, j: 3e-9 * ((i, j) == (a, b)), lambda i, j: 1e-10 * (i + j))
    else:
        vx, vy = arrays(n, lambda i, j: (i * 7 + j * 3 + a) % 5 - 1.5, lambda i, j: (i * 2 + j * j + b) % 7 - 2.25)
    vf = VectorField(Mesh(BBox(-1, 2, 5, 4), n), vx.copy(), vy.copy())
    x, y = vx.tolist(), vy.tolist()
    want = [vf.normalized(), vf.smoothed(), vf.smoothed().smoothed(), vf.scaled(2, -3)]
    sx, sy = normal(smooth(x, n), smooth(y, n), n)
    refs = [normal(x, y, n), (sx, sy), normal(smooth(sx, n), smooth(sy, n), n), ([[2 * v for v in r] for r in x], [[-3 * v for v in r] for r in y])]
    for what, f, (rx, ry) in zip(('normalized', 'smoothed', 'smoothed twice', 'scaled'), want, refs):
        scale = max(abs(v) for r in rx + ry for v in r)
        same(what + ' vx', f.vx.tolist(), rx, 1e-12 * scale)
        same(what + ' vy', f.vy.tolist(), ry, 1e-12 * scale)
        require(f.mesh == vf.mesh, '%s: other mesh', what)
    require((vf.vx == vx).all() and (vf.vy == vy).all(), 'the field changed')
    return case


def check_almost(case, obs):
    """Fields that differ, however little, are different"""
    n, base, (a, b), axis, delta = case
    v = arrays(n, lambda i, j: base * (i + 1), lambda i, j: base * (2 - j))
    w = v[0].copy(), v[1].copy()
    w[axis][a, b] += delta
    mesh = Mesh(BBox(0, 0, 4, 4), n)
    p, q = VectorField(mesh, *v), VectorField(mesh, *w)
    differ = bool(w[axis][a, b] != v[axis][a, b])
    for x, y in ((p, q), (q, p), (p.copy(), q), (q.copy(), p.copy())):
        require((x == y) is not differ and (x != y) is differ, 'fields that differ by %s at one node compare wrongly', delta)
    require(p == p.copy() and q == q.copy() and not p != p.copy(), 'a copy is different')
    return differ, delta


class FieldWorld(object):
    """All fields made so far, with the values they should have"""
    BOX = (-1, 0, 3, 2)
    N = 3

    def __init__(self, start):
        n = self.N
        if start == 'zero':
            vx, vy = arrays(n, lambda i, j: 0, lambda i, j: 0)
        elif start == 'mixed':
            vx, vy = arrays(n, lambda i, j: i - 2 * j + 0.5, lambda i, j: (i * i - j) * 0.75)
        else:
            vx, vy = arrays(n, lambda i, j: 5 * ((i, j) == (1, 2)), lambda i, j: -3 * ((i, j) == (0, 0)))
        self.mesh = Mesh(BBox(*self.BOX), n)
        self.fields = [(VectorField(self.mesh, vx, vy), [vx.tolist(), vy.tolist()])]
        if start == 'same array':
            # Given one array for both directions; all edits are of its copies
            both = VectorField(self.mesh, vx, vx)
            self.fields = [(both, [vx.tolist(), vx.tolist()]), (both.copy(), [vx.tolist(), vx.tolist()])]
        self.log = []

    def apply(self, op):
        n = self.N
        kind, *args = op
        if len(self.fields) > 1 and self.fields[0][0].vx is self.fields[0][0].vy and args and args[0] == 0 and kind in ('edit', 'assign'):
            raise Disabled()
        vf, (vx, vy) = self.fields[args.pop(0) if args and kind in ('edit', 'assign', 'look') else -1]
        if kind == 'copy':
            new = vf.copy(), [[r[:] for r in vx], [r[:] for r in vy]]
        elif kind == 'scaled':
            sx, sy = args[0], args[-1]
            new = vf.scaled(*args), [[[v * sx for v in r] for r in vx], [[v * sy for v in r] for r in vy]]
        elif kind == 'normalized':
            new = vf.normalized(), list(normal(vx, vy, n))
        elif kind == 'smoothed':
            new = vf.smoothed(), list(normal(smooth(vx, n), smooth(vy, n), n))
        elif kind == 'edit':        # In place
            i, j, v = args
            vf.vx[i, j] = v
            vx[i][j] = v
            vf.vy[j, i] = -v
            vy[j][i] = -v
            new = None
        elif kind == 'assign':      # Other arrays
            nx, ny = arrays(n, lambda i, j: vx[j][i] + 1, lambda i, j: -vy[i][j])
            vf.vx = nx
            vx[:] = nx.tolist()
            if args[0]:
                vf.vy = ny
                vy[:] = ny.tolist()
            new = None
        elif kind == 'look':
            vf.lookup(0.3, 0.7)
            vf.transform_pts([(0, 0), (1, 1)])
            new = None
        if new:
            require(new[0] is not vf and isinstance(new[0], VectorField), '%s returns %r', kind, new[0])
            require(new[0].mesh == self.mesh, '%s: other mesh', kind)
            self.fields.append(new)
        self.log.append(op)

    def check(self):
        n = self.N
        xs, ys = nodes(self.BOX, n)
        for k, (vf, (vx, vy)) in enumerate(self.fields):
            same('vx of field %d of %d' % (k, len(self.fields)), vf.vx.tolist(), vx)
            same('vy of field %d of %d' % (k, len(self.fields)), vf.vy.tolist(), vy)
            other, (ox, oy) = self.fields[0]
            eq = (vf.vx.tolist(), vf.vy.tolist()) == (other.vx.tolist(), other.vy.tolist())
            require((vf == other) is eq and (vf != other) is not eq, 'fields %d and 0 compare wrongly', k)
        # Looking up, not before everything was compared
        for k, (vf, (vx, vy)) in enumerate(self.fields):
            # The same place as last time first
            same('field %d between nodes' % k, vf.lookup(0.3, 0.7), [bilinear(self.BOX, n, v, 0.3, 0.7) for v in (vx, vy)])
            for i, j in ((0, 0), (1, 2), (2, 1)):
                same('field %d at node' % k, vf.lookup(xs[i], ys[j]), (vx[i][j], vy[i][j]))
            same('field %d between nodes' % k, vf.lookup(0.3, 0.7), [bilinear(self.BOX, n, v, 0.3, 0.7) for v in (vx, vy)])

    def canon(self):
        return tuple(self.log)


OPS = [('copy',), ('scaled', 2), ('scaled', -0.5, 3), ('scaled', 0), ('scaled', 2, 0), ('normalized',), ('smoothed',), ('edit', -1, 0, 1, 7.5), ('edit', 0, 2, 2, -4),
       ('assign', 0, True), ('assign', -1, False), ('look', 0)]


def run(ctx):
    ctx.assume('Meshes have at least two nodes in each direction, and their box has an area', 'Arrays of whole-number types are not edited after looking up values in them',
               'Smoothing weighs the neighbourhood as recorded in the tests, and normalises')
    hots = []
    for box in BOXES:
        for n in (2, 3) + ((4, 5) if ctx.deep else ()):
            for ab in itertools.product(range(n), range(n)):
                for axis in ('x', 'y', 'xy'):
                    hots.append((box, n, ab, axis, 3, 'given' if axis == 'xy' else 'set'))
                    if axis != 'xy':
                        hots.append((box, n, ab, axis, 3, 'one'))
    hots += [((0, 0, 4, 4), 5, (a, b), 'xy', -1.5, 'set') for a in range(5) for b in range(5)]
    ctx.sweep('one value', hots, check_one_hot, 'one value at every node of small meshes: looked up and mapped at nodes and between')
    ctx.sweep('linear', [(box, n, lin, xy) for box in BOXES for n in (2, 3, 4) for lin in LINEAR for xy in (0, 0.25)
                         if not (xy and n > 2)], check_linear, 'fields linear in position (and bilinear ones on one cell), also outside the mesh')
    ctx.sweep('meshes', list(itertools.product(BOXES, (2, 3, 5))), check_mesh, 'coordinates, comparisons')
    ctx.sweep('larger meshes', [(n, ab, k) for n in range(2, ctx.pick(11, 15)) for k in ('hot', 'mixed', 'tiny', 'minute')
                                for ab in (itertools.product(range(n), range(n)) if k == 'hot' else ((0, 0), (1, 1)))], check_larger,
              'one value at every node, smoothed, normalised and scaled')
    ctx.sweep('nearly equal', [(n, base, ab, axis, d) for n in (2, 3, 9) for base in (0, 1, -250, 1e-6) for ab in ((0, 0), (0, n - 1), (n - 1, 1), (1, 0))
                               for axis in (0, 1) for d in (0, 1e-3, -1e-6, 1e-8, -1e-9, 1e-11, 1e-13, 1e-20, 1e-300)], check_almost,
              'fields that differ at one node by very little')
    for start in ('zero', 'mixed', 'spots', 'same array'):
        ctx.histories('fields from %s' % start, lambda: FieldWorld(start), OPS, ctx.pick(3, 4), 'all orders of copying, scaling, normalising, smoothing, editing, looking up')
