"""C03: the algebra of bounding boxes"""
import itertools
from mc.engine import same, equal, require, raises, Disabled
from mc import oracle
from x7.geom.geom import *
from x7.geom.transform import Transform


# -- Reference: a box is None or (xl, yl, xh, yh)

def r_union(a, b):
    if a is None or b is None:
        return b if a is None else a
    return min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3])


def r_common(a, b):
    """The common region of two closed boxes"""
    if a is None or b is None:
        return None
    r = max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3])
    return r if r[0] <= r[2] and r[1] <= r[3] else None


def r_area(a):
    return 0 if a is None else (a[2] - a[0]) * (a[3] - a[1])


def box(t):
    return BBox(None) if t is None else BBox(*t)


def is_box(what, b, t):
    require(type(b) is BBox, '%s is %r', what, b)
    if t is None:
        require(b.is_none and b.as_tuple() == (None,) * 4, '%s is %r, expected no box', what, b)
    else:
        require(not b.is_none, '%s has no coordinates, expected %r', what, t)
        same(what, b.as_tuple(), t)


def boxes(vals):
    spans = [(a, b) for a in vals for b in vals if a <= b]
    return [None] + [(x[0], y[0], x[1], y[1]) for x in spans for y in spans]


class Rec(object):
    """Boxes and what they must remain"""
    def __init__(self, *ts):
        self.items = [(box(t), t) for t in ts]

    def boxes(self):
        return [b for b, _ in self.items]

    def intact(self, what):
        for b, t in self.items:
            require(b.as_tuple() == (t or (None,) * 4), '%s changed a box from %r to %r', what, t, b)

    def fresh(self, what, res):
        """res must not be, or be tied to, one of the boxes"""
        for b, _ in self.items:
            require(res is not b, '%s returned its argument', what)
        if not res.is_none:
            res[0] -= 100
            res.yh = 1000
        res.grow(Point(-50, 77))
        self.intact('changing the result of ' + what)


def one(t, obs):
    r = Rec(t)
    b, = r.boxes()
    equal('is_none', b.is_none, t is None)
    equal('is_empty', b.is_empty, r_area(t) == 0)
    same('area', b.area(), r_area(t))
    w, h = (0, 0) if t is None else (t[2] - t[0], t[3] - t[1])
    same('width, height, size', (b.width, b.height, b.size()), (w, h, w, h))
    require(b == b and b == box(t), 'box %r is not equal to an equal one', b)
    require(not b == (t or 5), 'box %r equals something else', b)
    equal('tuple(box)', tuple(b), t or (None,) * 4)
    equal('indexing', tuple(b[i] for i in range(4)), t or (None,) * 4)
    equal('attributes', (b.xl, b.yl, b.xh, b.yh), t or (None,) * 4)
    for name, make in [('copy', lambda: b.copy()), ('self + self', lambda: b + b), ('self & self', lambda: b.intersection(b)),
                       ('+ none', lambda: b + BBox(None)), ('none +', lambda: BBox(None) + b)]:
        is_box(name, make(), t)
        r.fresh(name, make())
        obs.step()
    raises(TypeError, lambda: b + 5)
    if t is None:
        for name in ('p1', 'p2', 'pll', 'plh', 'phl', 'phh', 'center'):
            raises(ValueError, getattr, b, name)
        for p in ((0, 0), (1, 1)):
            require(not b.contains_pt(Point(*p)) and not b.touches_pt(Point(*p)), 'the empty box has points')
        r.intact('a query')
        return 'none'
    xl, yl, xh, yh = t
    for name, xy in [('p1', (xl, yl)), ('p2', (xh, yh)), ('pll', (xl, yl)), ('plh', (xl, yh)), ('phl', (xh, yl)),
                     ('phh', (xh, yh)), ('center', ((xl + xh) / 2, (yl + yh) / 2))]:
        p = getattr(b, name)
        require(isinstance(p, BasePoint), '%s is %r', name, p)
        same(name, p.xy(), xy)
        p.setxy(-77, 99)
        r.intact('moving ' + name)
    for n in (None, 0, 1):
        res = round(b, n)
        same('round(%s)' % n, res.as_tuple(), tuple(round(v, n) for v in t))
        r.fresh('round', res)
    for args in [(1,), (0.5, 2), (0,), (-0.25,), (-0.5, 1), (-1,), (-100,), (2, -100), (0, 3), (3, 0), (-100, 1), (-0.75, -0.75)]:
        res = b.expand(*args)
        ex, ey = args if len(args) == 2 else args * 2
        ex, ey = max(ex, -(xh - xl) / 2), max(ey, -(yh - yl) / 2)
        is_box('expand%r of %r' % (args, t), res, (xl - ex, yl - ey, xh + ex, yh + ey))
        require(res.xl <= res.xh and res.yl <= res.yh, 'expand%r gives low > high: %r', args, res)
        r.fresh('expand', b.expand(*args))
        obs.step()
    # All ways to construct it, from any two opposite corners
    for x1, x2 in ((xl, xh), (xh, xl)):
        for y1, y2 in ((yl, yh), (yh, yl)):
            d = Point(x1, y1), Point(x2, y2)
            rel = PointRelative(x1 - 3, y1 + 2, Point(3, -2)), PointRelative(x2 - 3, y2 + 2, Point(3, -2))
            for how, c in [('coordinates', BBox(x1, y1, x2, y2)), ('tuple', BBox((x1, y1, x2, y2))), ('points', BBox(*d)),
                           ('relative points', BBox(*rel)), ('mixed points', BBox(d[0], rel[1]))]:
                is_box('box of %s %r' % (how, (x1, y1, x2, y2)), c, t)
            c = BBox(*d)
            d[0].setxy(500, 500)
            is_box('box of points, after moving a point', c, t)
            c = BBox(None)
            c.xl, c.yl, c[2], c[3] = x1, y1, x2, y2
            c.sort()
            is_box('sort of %r' % ((x1, y1, x2, y2),), c, t)
            equal('repr', eval(repr(BBox(x1, y1, x2, y2)), {'BBox': BBox}), b)
            obs.step(6)
    is_box('box of box', BBox(b.as_tuple()), t)
    is_box('box of iterated box', BBox(*b), t)
    for bad in [(1,), (1, 2), (1, 2, 3), (Point(1, 2), 3), ([1, 2, 3, 4],), (Point(1, 2),), (1, Point(1, 2)),
                (Point(1, 2), Point(2, 3), None, 5), ('1234', )]:
        raises((TypeError, ValueError), BBox, *bad)
    r.intact('a query')
    return t


def place(t, q):
    """-1 outside, 0 on the border, 1 in the interior"""
    x, y = q
    if t is None or not (t[0] <= x <= t[2] and t[1] <= y <= t[3]):
        return -1
    return 1 if t[0] < x < t[2] and t[1] < y < t[3] else 0


def point_in_box(case, obs):
    t, pts = case
    r = Rec(t)
    b, = r.boxes()
    for q in pts:
        for p in (Point(*q), PointRelative(q[0] - 1, q[1] + 1, Point(1, -1))):
            obs.step()
            equal('%r contains_pt %r' % (t, q), bool(b.contains_pt(p)), place(t, q) == 1)
            equal('%r touches_pt %r' % (t, q), bool(b.touches_pt(p)), place(t, q) == 0)
            c = b.copy()
            c.grow(p)
            is_box('%r grown by %r' % (t, q), c, r_union(t, q + q))
            equal('point after grow', p.xy(), q)
            if t is not None:
                equal('grow keeps box %r exactly for its points (%r)' % (t, q), c == b, place(t, q) >= 0)
    r.intact('a query')
    return t


def two(case, obs):
    s, t = case
    r = Rec(s, t)
    a, b = r.boxes()
    what = '%r, %r' % case
    obs.step(8)
    is_box('union of ' + what, a + b, r_union(s, t))
    com = r_common(s, t)
    is_box('intersection of ' + what, a.intersection(b), com)
    r.fresh('union', a + b)
    r.fresh('intersection', a.intersection(b))
    equal('equality of ' + what, a == b, s == t)
    if s is None or t is None:
        require(not a.touches(b) and not a.touches_side(b), 'no box touches: %s', what)
        for name in ('contains', 'overlaps'):
            try:
                require(not getattr(a, name)(b), 'box without coordinates: %s %s', name, what)
            except ValueError:
                pass
    else:
        contains = t[0] >= s[0] and t[1] >= s[1] and t[2] <= s[2] and t[3] <= s[3]
        equal('contains ' + what, bool(a.contains(b)), contains)
        equal('containing means the common region is the contained box ' + what, bool(a.contains(b)), com == t)
        if r_area(s) and r_area(t):
            side = com is not None and (com[0] < com[2]) != (com[1] < com[3])
            equal('overlaps ' + what, bool(a.overlaps(b)), r_area(com) > 0)
            equal('touches ' + what, bool(a.touches(b)), com is not None and r_area(com) == 0)
            equal('touches_side ' + what, bool(a.touches_side(b)), side)
    r.intact('a combination')
    obs.state(com, s == t)


def three(case, obs):
    r = Rec(*case)
    a, b, c = r.boxes()
    s, t, u = case
    want = r_union(r_union(s, t), u)
    com = r_common(r_common(s, t), u)
    obs.step(4)
    is_box('a+(b+c)', a + (b + c), want)
    is_box('(a+b)+c', (a + b) + c, want)
    is_box('a&(b&c)', a.intersection(b.intersection(c)), com)
    is_box('(a&b)&c', a.intersection(b).intersection(c), com)
    is_box('sum', sum([b, c], a), want)
    r.intact('a combination')
    obs.state(want, com)


def grow(case, obs):
    start, pts = case
    b = box(start)
    want = start
    for i, q in enumerate(pts):
        p = Point(*q) if i % 2 else PointRelative(q[0] - 2, q[1] - 2, Point(2, 2))
        b.grow(p)
        want = r_union(want, q + q)
        obs.step()
        is_box('%r grown by %r' % (start, pts[:i+1]), b, want)
        p2 = Point(*q)
        u = (BBox(None) if i == 0 and start is None else u if i else box(start)) + BBox(p2, p2)
        is_box('sum of the boxes of %r' % (pts[:i+1],), u, want)
    obs.state(want)


def transformed(case, obs):
    t, (name, m) = case
    r = Rec(t)
    b, = r.boxes()
    xf = Transform(m)
    before = repr(xf)
    res = b.transformed(xf)
    xl, yl, xh, yh = t
    is_box('%r transformed by %s' % (t, name), res,
           oracle.bbox_of([oracle.mat_apply(m, p) for p in ((xl, yl), (xl, yh), (xh, yl), (xh, yh))]))
    r.fresh('transformed', res)
    equal('transform afterwards', repr(xf), before)
    return (t, name)


class World(object):
    """Boxes that are combined, copied and edited over and over; none may depend on another"""
    def __init__(self):
        self.o = {'A': BBox(None), 'B': BBox(0, 0, 2, 1), 'C': BBox(1, 1, 1, 4)}
        self.m = {'A': None, 'B': (0, 0, 2, 1), 'C': (1, 1, 1, 4)}

    def apply(self, op):
        o, m = self.o, self.m
        what, d, *args = op
        if what == 'grow':
            p = Point(*args[0])
            o[d].grow(p)
            m[d] = r_union(m[d], args[0] + args[0])
            p.setxy(1000, -1000)
        elif what == 'union':
            o[d], m[d] = o[args[0]] + o[args[1]], r_union(m[args[0]], m[args[1]])
        elif what == 'iadd':
            o[d] += o[args[0]]
            m[d] = r_union(m[d], m[args[0]])
        elif what == 'inter':
            o[d], m[d] = o[args[0]].intersection(o[args[1]]), r_common(m[args[0]], m[args[1]])
        elif what == 'copy':
            o[d], m[d] = o[args[0]].copy(), m[args[0]]
        elif what == 'expand':
            if m[d] is None:
                raises((ValueError, TypeError), o[d].expand, *args)
                return
            o[d] = o[d].expand(*args)
            xl, yl, xh, yh = m[d]
            ex, ey = max(args[0], -(xh - xl) / 2), max(args[-1], -(yh - yl) / 2)
            m[d] = (xl - ex, yl - ey, xh + ex, yh + ey)
        elif what == 'set':
            if m[d] is None:
                raise Disabled()
            o[d][2] = o[d].xl - 3
            o[d].sort()
            m[d] = (m[d][0] - 3, m[d][1], m[d][0], m[d][3])

    def check(self):
        for n in 'ABC':
            is_box(n, self.o[n], self.m[n])
        a, b = self.m['A'], self.m['B']
        is_box('A+B', self.o['A'] + self.o['B'], r_union(a, b))
        is_box('A&C', self.o['A'].intersection(self.o['C']), r_common(a, self.m['C']))

    def canon(self):
        return tuple(self.m[n] for n in 'ABC')


OPS = [('grow', 'A', (3, -1)), ('grow', 'B', (-1, 0.5)), ('grow', 'C', (2, 2)), ('union', 'A', 'B', 'C'), ('union', 'C', 'A', 'B'),
       ('iadd', 'A', 'B'), ('iadd', 'B', 'A'), ('inter', 'A', 'B', 'C'), ('inter', 'B', 'B', 'A'), ('copy', 'A', 'B'),
       ('copy', 'B', 'C'), ('copy', 'C', 'A'), ('expand', 'B', 1), ('expand', 'A', -0.5, 1), ('expand', 'C', -10), ('set', 'A'), ('set', 'B')]


def run(ctx):
    vals = ctx.pick([-1, 0, 1.5, 4], [-1000, -1, 0, 1.5, 4])
    ctx.sweep('one box', boxes([-1000.5, -1, 0, 1.5, 2, 7]), one, 'every query, accessor and constructor form of every lattice box')
    pts = [(x, y) for x in (-2, -1, -0.5, 0, 1, 1.5, 4, 5) for y in (-2, -1, -0.5, 0, 1, 1.5, 4, 5)]
    ctx.sweep('point and box', [(t, pts) for t in boxes([-1, 0, 1.5, 4])], point_in_box, 'every box against every point of a finer lattice')
    bs = boxes(vals)
    ctx.sweep('two boxes', list(itertools.product(bs, bs)), two, 'all ordered pairs: union, intersection, containment, contact')
    for name, fine in (('far', [0, 1000, 1000 + 2 ** -11, 1001, 2 ** 20]), ('tiny', [-2 ** -30, 0, 2 ** -30, 1]), ('huge', [-2 ** 40, 1, 1 + 2 ** -10, 2 ** 40])):
        bs = boxes(ctx.pick(fine[:4], fine))
        ctx.sweep('two boxes, ' + name, list(itertools.product(bs, bs)), two, 'pairs of boxes with sizes of different magnitude, almost alike')
        ctx.sweep('point and box, ' + name, [(t, [(x, y) for x in fine for y in fine]) for t in boxes(fine)], point_in_box, 'their corners')
    small = boxes(ctx.pick([0, 1, 3], [-1, 0, 1, 3]))
    if ctx.deep:
        small = small[:1] + small[1::2]
    ctx.sweep('three boxes', list(itertools.product(small, repeat=3)), three, 'associativity over all triples')
    gp = [(0, 0), (-2, 3), (1.5, -1), (3, 3), (0, 4)]
    cases = [(s, p) for s in (None, (0, 0, 1, 1), (-1, 2, -1, 3)) for n in range(1, ctx.pick(5, 7)) for p in itertools.product(gp, repeat=n)]
    ctx.sweep('grow', cases, grow, 'all growth sequences with repetition')
    mats = [('scale', (2, 0, 1, 0, 0.5, -1)), ('mirror', (-1, 0, 0, 0, 1, 3)), ('rotate', oracle.mat_rotate_cw(30)),
            ('quarter', (0, -1, 0, 1, 0, 0)), ('shear', (1, 0.5, 0, 0, 1, 0)), ('flat', (1, 0, 0, 0, 0, 2))]
    ctx.sweep('transformed', list(itertools.product(boxes([-1, 0, 2.5, 3])[1:], mats)), transformed, 'box of the mapped corners')
    ctx.histories('histories', World, OPS, ctx.pick(4, 5), 'all sequences of combining, copying and editing three boxes in lockstep with interval arithmetic')
