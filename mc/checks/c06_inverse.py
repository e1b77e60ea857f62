"""C06: un-transforming, decomposition, fitting boxes, widths"""
import itertools
import math
from mc.engine import same, equal, require, raises, Disabled
from mc.oracle import *
from mc.checks.c05_transforms import change, mat_of, maps, START_U, PROBES
from x7.geom.geom import *
from x7.geom.transform import *


def inverse_ok(name, t, m, pts=PROBES, tol=1e-8):
    objs = [Point(*p) for p in pts]
    screen = [mat_apply(m, p) for p in pts]
    for p, o, s in zip(pts, objs, screen):
        same(name + ' untransform', t.untransform(*s), p, tol)
        q = t.untransform_pt(Point(*s))
        require(isinstance(q, BasePoint), '%s untransform_pt gives %r', name, q)
        same(name + ' untransform_pt', q.xy(), p, tol)
        same(name + ' untransform_pt of pair', t.untransform_pt(s).xy(), p, tol)
        same(name + ' untransform of transform', t.untransform(*t.transform(*p)), p, tol)
        same(name + ' transform of untransform', t.transform(*t.untransform(*p)), p, tol)
    same(name + ' untransform_pts', t.untransform_pts(screen), pts, tol)
    same(name + ' untransform_pts of points', t.untransform_pts([Point(*s) for s in screen]), pts, tol)
    same(name + ' untransform_pts of one', t.untransform_pts(screen[-1:]), pts[-1:], tol)
    equal(name + ' untransform_pts of nothing', t.untransform_pts([]), [])
    same(name + ' untransform_pts of transform_pts', t.untransform_pts(t.transform_pts(list(pts))), pts, tol)
    same(name + ' there and back', [mat_apply(m, q) for q in t.untransform_pts(list(pts))], pts, tol)


class World(object):
    """Changes interleaved with inverse queries, so that anything remembered for the inverse can go stale"""
    def __init__(self):
        self.o = {'T': Transform(), 'C': Transform().scale(2, 1), 'U': Transform(START_U)}
        self.m = {'T': IDENT, 'C': mat_scale(2, 1), 'U': START_U}
        self.s = {'T': [], 'C': [], 'U': []}

    def apply(self, op):
        o, m, s = self.o, self.m, self.s
        what, t, *a = op
        if what == 'do':
            change(o[t], a)
            m[t] = mat_mul(mat_of(a), m[t])
        elif what == 'query':
            getattr(self, 'query_' + a[0])(t)
        elif what == 'compose':
            o[t].compose(o[a[0]])
            m[t] = mat_mul(m[t], m[a[0]])
        elif what == 'compose_outer':
            o[t].compose_outer(o[a[0]])
            m[t] = mat_mul(m[a[0]], m[t])
        elif what == 'reset':
            o[t].reset()
            m[t] = IDENT
        elif what == 'set':
            o[t].set_matrix(o[a[0]])
            m[t] = m[a[0]]
        elif what == 'copy':
            o[t] = o[a[0]].copy()
            m[t], s[t] = m[a[0]], []
        elif what == 'push':
            o[t].push()
            s[t].append(m[t])
        elif what == 'pop':
            if not s[t]:
                raise Disabled()
            o[t].pop()
            m[t] = s[t].pop()
        elif what == 'fit':
            o[t].scale_bbox(BBox(0, 0, 2, 1), BBox(1, 1, 3, 5), keep_aspect=a[0])
            m[t] = mat_mul((1, 0, 1, 0, 1, 2.5) if a[0] else (1, 0, 1, 0, 4, 1), m[t])
        elif what == 'with':
            with o[t].push().scale(2, -1).translate(1, 1):
                inner = mat_mul(mat_translate(1, 1), mat_mul(mat_scale(2, -1), m[t]))
                same('in block', o[t].untransform(*mat_apply(inner, (3, 4))), (3, 4), 1e-8)
        else:
            raise KeyError(what)

    def query_one(self, t):
        same('untransform', self.o[t].untransform(*mat_apply(self.m[t], (3, 4))), (3, 4), 1e-8)

    def query_list(self, t):
        same('untransform_pts', self.o[t].untransform_pts([mat_apply(self.m[t], (3, 4))]), [(3, 4)], 1e-8)

    def query_inverse(self, t):
        inv = self.o[t].inverse
        x, y = mat_apply(self.m[t], (3, 4))
        same('inverse', [float(r[0] * x + r[1] * y + r[2]) for r in inv][:2], (3, 4), 1e-8)

    def check(self):
        for n in 'TCU':
            inverse_ok(n, self.o[n], self.m[n], PROBES[2:])
            same(n, self.o[n].as_6tuple(), self.m[n])

    def canon(self):
        return tuple(tuple(round(v, 6) for v in self.m[n]) for n in 'TCU') + tuple(len(self.s[n]) for n in 'TCU')


OPS = [('query', 'T', 'one'), ('query', 'T', 'list'), ('query', 'T', 'inverse'), ('query', 'U', 'one'),
       ('do', 'T', 'translate', 2, -3), ('do', 'T', 'scale', 2, -0.5), ('do', 'T', 'rotate', 30), ('do', 'T', 'rotate_ccw', 20),
       ('do', 'T', 'rotate_about', 90, (2, 1)), ('do', 'T', 'rotate_about', 25, (1, -2)), ('do', 'C', 'translate', 1, 1), ('do', 'U', 'scale', 3, 1),
       ('compose', 'T', 'U'), ('compose_outer', 'T', 'U'), ('compose', 'T', 'T'), ('reset', 'T'), ('set', 'T', 'U'), ('set', 'U', 'T'),
       ('copy', 'C', 'T'), ('copy', 'T', 'C'), ('push', 'T'), ('pop', 'T'), ('fit', 'T', False), ('fit', 'T', True), ('with', 'T')]


def matrix(case, obs):
    """Decomposition, inverse, scales and widths of every matrix"""
    m = case
    t = Transform(m)
    outer, inner = t.simplify()
    obs.step(3)
    for p in PROBES:
        same('outer part of inner part at %r' % (p,), outer.transform(*inner.transform(*p)), mat_apply(m, p))
    same('transform after simplify', t.as_6tuple(), m)
    # The second part never moves the origin, so translations are in the first
    same('inner part at the origin', inner.transform(0, 0), (0, 0))
    # The first part is a translation, scaling or rotation by quarter turns
    om = tuple(map(float, outer.as_6tuple()))
    for v in ((1, 0), (0, 1)):
        w = mat_linear(om, v)
        require(abs(w[0]) < 1e-12 or abs(w[1]) < 1e-12, 'outer part maps %r to %r', v, w)
    outer.translate(5, 5)
    inner.scale(3, 3)
    outer.compose(inner)
    maps('transform after changing its parts', t, m, PROBES[3:])
    if t.is_simple():
        # only axis-parallel mappings are simple
        for v in ((1, 0), (0, 1)):
            w = mat_linear(m, v)
            require(abs(w[0]) < 1e-12 or abs(w[1]) < 1e-12, 'simple, but %r is mapped to %r', v, w)
    elif m[1] == 0 and m[3] == 0:
        require(False, 'translation and scale are not simple: %r', m)
    sx, sy = math.hypot(m[0], m[3]), math.hypot(m[1], m[4])
    same('scale_vals', t.scale_vals(), (sx, sy))
    for w in (0, 1, 2.5, -3):
        same('width %r' % w, t.transform_width(w), w * (sx + sy) / 2)
    if abs(mat_det(m)) > 1e-9:
        inverse_ok('matrix', t, m)
        inverse_ok('matrix again', t, m)
        c = t.copy()
        c.translate(1, 0)
        inverse_ok('copy', c, mat_mul(mat_translate(1, 0), m))
        inverse_ok('matrix, after changing a copy', t, m)
    return tuple(round(v, 4) for v in m)


def tiny(case, obs):
    """Decomposition, inverse, scales and widths of very small and very large mappings, relative to their size"""
    size, twist, (dx, dy) = case
    m = mat_mul(mat_translate(dx, dy), mat_mul((size, 0, 0, 0, size, 0), twist))
    t = Transform(m)
    outer, inner = t.simplify()
    om, im = (tuple(map(float, x.as_6tuple())) for x in (outer, inner))
    tol = 1e-12 * size + 1e-15
    for v in ((1, 0), (0, 1)):
        got, want = mat_linear(om, mat_linear(im, v)), mat_linear(m, v)
        require(max(abs(got[0] - want[0]), abs(got[1] - want[1])) <= tol, 'parts map %r to %r, the transform to %r', v, got, want)
    same('parts at the origin', outer.transform(*inner.transform(0, 0)), (dx, dy))
    sx, sy = math.hypot(m[0], m[3]), math.hypot(m[1], m[4])
    got = t.scale_vals()
    require(abs(got[0] - sx) <= tol and abs(got[1] - sy) <= tol, 'scales %r, expected %r', got, (sx, sy))
    require(abs(t.transform_width(2) - (sx + sy)) <= 2 * tol, 'width %r, expected %r', t.transform_width(2), sx + sy)
    inv = t.inverse
    prod = [[sum(float(inv[i][k]) * (m[3 * k + j] if k < 2 else j == 2) for k in range(3)) for j in range(3)] for i in range(2)]
    for i in range(2):
        for j in range(2):
            require(abs(prod[i][j] - (i == j)) < 1e-9, 'inverse of %r is %r', m, inv.tolist())
    for p in PROBES:
        x, y = mat_apply(m, p)
        slack = 1e-9 * (1 + max(map(abs, p))) + 1e-14 * max(abs(x), abs(y), abs(dx), abs(dy)) / size
        q = t.untransform(x, y)
        require(max(abs(q[0] - p[0]), abs(q[1] - p[1])) <= slack, '%r came back as %r', p, q)
    obs.step(8)
    return case


def fit(case, obs):
    (start, target), keep, (prior, m) = case
    t = Transform(m)
    a, b = BBox(*start), BBox(*target)
    require(t.scale_bbox(a, b, keep_aspect=keep) is t, 'scale_bbox returns something else')
    equal('boxes afterwards', (a.as_tuple(), b.as_tuple()), case[0])
    sw, sh = start[2] - start[0], start[3] - start[1]
    tw, th = target[2] - target[0], target[3] - target[1]
    fx, fy = tw / sw, th / sh
    if keep:
        fx = fy = min(fx, fy)
        cx, cy = (target[0] + target[2]) / 2, (target[1] + target[3]) / 2
        target = cx - sw * fx / 2, cy - sh * fy / 2, cx + sw * fx / 2, cy + sh * fy / 2
    # corners of start go to corners of target, whatever was in the transform before
    back = Transform(m)
    for i, j in itertools.product((0, 2), (1, 3)):
        p = back.untransform(start[i], start[j])
        obs.step()
        same('corner %r' % ((start[i], start[j]),), t.transform(*p), (target[i], target[j]), 1e-8)
    f = mat_mul((fx, 0, target[0] - fx * start[0], 0, fy, target[1] - fy * start[1]), m)
    maps('fitted', t, f)
    inverse_ok('fitted', t, f)
    return case


def many(case, obs):
    """Lists of any length"""
    n, m = case
    t = Transform(m)
    pts = [((k * 37 % 101) - 50.25, (k * 53 % 211) / 7 - 11) for k in range(n)]
    screen = [mat_apply(m, p) for p in pts]
    for lst in (screen, [Point(*p) for p in screen]):
        same('%d points' % n, t.untransform_pts(lst), pts)
    obs.step(n)
    obs.state(n, m)


def canvas(case, obs):
    size, zoom, zero = case
    args = [a for a in (size, zoom, zero) if a is not None]
    t = Transform.canvas_fit(*args)
    z = 1.0 if zoom is None else zoom
    ox, oy = zero or (0, 0)
    m = (z, 0, ox, 0, -z, size[1] - oy)
    maps('canvas', t, m)
    inverse_ok('canvas', t, m)
    # up in the model is up (less y) on the screen, the canvas is covered from its lower left corner
    require((t.transform(0, 1)[1] < t.transform(0, 0)[1]) == (z > 0), 'up is not up')
    same('width', t.transform_width(2), 2 * abs(z))
    obs.step(3)
    return case


def run(ctx):
    ctx.histories('operations and queries', World, OPS, ctx.pick(3, 4), 'all sequences of changes interleaved with inverse queries')
    core = [OPS[i] for i in (0, 3, 4, 6, 9, 12, 16, 18, 19, 20, 21, 22)]
    ctx.histories('longer', World, core, ctx.pick(4, 5), 'longer histories of the operations that could leave a stale inverse')
    vals = ctx.pick([-2, 0, 0.5, 1], [-2, -1, 0, 0.5, 1, 3])
    mats = [(a, b, c, d, e, f) for a, b, d, e in itertools.product(vals, repeat=4) for c, f in ((0, 0), (3, -7.5))]
    mats += [mat_mul(mat_translate(1, 2), mat_mul(mat_rotate_cw(r), mat_scale(*s))) for r in range(-360, 361, 15) for s in ((1, 1), (2, -0.5), (100, 1))]
    mats += [(1, 1e-15, 0, 0, 1, 0), (1e-15, 1, 2, 1, 1e-15, 3), (1, 1e-7, 0, 1e-7, 1, 0), (1e-5, 0, 0, 0, 1e-5, 0), (1e5, 0, 1, 0, 1e5, 0)]
    ctx.sweep('matrices', mats, matrix, 'decomposition, inverse, scales and widths of every matrix of the lattice')
    twists = [IDENT, mat_scale(2, -1), mat_rotate_cw(30), mat_rotate_cw(90), mat_rotate_cw(180), mat_rotate_ccw(1e-9), mat_rotate_ccw(1e-5),
              mat_rotate_cw(1e-3), mat_mul(mat_rotate_cw(10), mat_scale(1, 3)), (1, 0.5, 0, 0, 1, 0), (1, 1e-9, 0, 0, 1, 0), (1, 0, 0, 1e-10, 1, 0)]
    sizes = [1e-9, 1e-8, 1e-7, 1e-6, 1e-4, 1e-2, 1, 100, 1e5, 1e8]
    ctx.sweep('sizes', [(s, w, d) for s in sizes for w in twists for d in ((0, 0), (1e-6, -1e-6), (3, -7.5))], tiny,
              'mappings of sizes over 17 orders of magnitude, twisted from hardly to completely')
    bx = [(x, y, x + w, y + h) for x in (0, -3) for y in (0, 2.5) for w in (1, 4) for h in (0.5, 1, 6)]
    prior = [('none', IDENT), ('affine', mat_mul(mat_translate(2, 1), mat_rotate_cw(30)))]
    ctx.sweep('box to box', [((a, b), k, p) for a in bx for b in bx for k in (False, True) for p in prior], fit, 'all pairs of boxes')
    ctx.sweep('many points', [(n, m) for n in [2, 7, 16, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025, 2048, 2049, 4097] + ctx.pick([], [10001, 65537])
                              for m in (IDENT, START_U, (0.5, 3, -2, 1, -4, 1000))], many, 'lists of points of many lengths')
    ctx.sweep('canvas', [(s, z, o) for s in [(1, 1), (100, 50), (3, 640.5)] for z in (None, 1, 2, 0.25) for o in (None, (0, 0), (5, -3), (10, 800), (-300, -40.5), (1e5, 49), (0, 50), (0.25, 640)) if z is not None or o is None],
              canvas, 'all canvas sizes, zooms and offsets')
