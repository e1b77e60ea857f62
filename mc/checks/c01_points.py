"""C01: point and vector arithmetic"""
import itertools
import math
import numpy
from fractions import Fraction
from mc.engine import same, equal, require, raises
from x7.geom.geom import *


# Every way to represent the location (x, y) or the displacement (x, y).
def p_plain(x, y):
    return Point(x, y)


def p_named(x, y):
    return Point(x, y, 'n')


def p_rel(x, y):
    return PointRelative(x - 1, y + 2, Point(1, -2))


def p_rel2(x, y):
    return PointRelative(x - 4, y + 0.5, PointRelative(3, 1.5, Point(1, -2, 'b')), 'nm')


def p_calc(x, y):
    # base of the relative point is (1, -2), reflected offset scaled by -2
    return PointCalc(PointRelative((x - 1) / -2, (y + 2) / -2, Point(1, -2)), -2)


def v_plain(x, y):
    return Vector(x, y)


BASES = {}      # id of relative vector -> (vector, its end points)


def v_rel(x, y):
    ends = Point(x + 1, y - 2), Point(1, -2)
    v = VectorRelative(*ends)
    BASES[id(v)] = v, ends
    return v


def v_rel2(x, y):
    ends = PointRelative(x, y, Point(2, 5)), PointRelative(1, 1, Point(1, 4))
    v = VectorRelative(*ends)
    BASES[id(v)] = v, ends
    return v


def v_zero(x, y):
    return VectorRelative(Point(x, y), Point(0, 0))


POINTS = [p_plain, p_named, p_rel, p_rel2, p_calc]
VECTORS = [v_plain, v_rel, v_rel2]
SCALES = [-2, -1, 0, 0.5, 1, 3]


def kind(obj):
    return 'V' if isinstance(obj, Vector) else 'P' if isinstance(obj, BasePoint) else type(obj).__name__


def check_result(what, res, want_kind, want_xy, operands):
    """A result has the right kind and value, and shares no state with the operands"""
    require(kind(res) == want_kind, '%s: result is %r, expected a %s', what, res,
            {'V': 'vector', 'P': 'point'}[want_kind])
    same(what, res.xy(), want_xy)
    same(what + ' .x', res.x, want_xy[0])
    same(what + ' .y', res.y, want_xy[1])
    same(what + ' iter', tuple(res), want_xy)
    before = [(o, o.xy(), o.__repr__()) for o in operands]
    require(all(res is not o for o in operands), '%s: result is the operand itself', what)
    if isinstance(res, (Vector, Point)) and not isinstance(res, VectorRelative):
        res.setxy(77.5, -33.25)
        same(what + ' after setxy', res.xy(), (77.5, -33.25))
        for o, xy, text in before:
            same('operand of %s after changing the result' % what, o.xy(), xy)
            equal('operand of %s after changing the result' % what, repr(o), text)


def shake(obj):
    """Move whatever the location of obj depends on"""
    if isinstance(obj, VectorRelative):
        shake(BASES[id(obj)][1][0])
    elif isinstance(obj, (PointRelative, PointCalc)):
        shake(obj.base)
    else:
        obj.setxy(obj.x + 1000, obj.y - 500)


def binary(case, obs):
    BASES.clear()
    ka, fa, (ax, ay), kb, fb, (bx, by) = case

    def ops():
        yield 'add', lambda p, q: p + q
        yield 'sub', lambda p, q: p - q
    for name, op in ops():
        a, b = fa(ax, ay), fb(bx, by)
        same('a', a.xy(), (ax, ay))
        same('b', b.xy(), (bx, by))
        ra, rb = repr(a), repr(b)
        what = '%s%r %s %s%r' % (fa.__name__, (ax, ay), name, fb.__name__, (bx, by))
        want = {'PPadd': None, 'PPsub': 'V', 'PVadd': 'P', 'PVsub': 'P', 'VPadd': 'P', 'VPsub': None,
                'VVadd': 'V', 'VVsub': 'V'}[ka + kb + name]
        obs.step()
        if want is None:
            raises(TypeError, op, a, b)
        else:
            s = 1 if name == 'add' else -1
            xy = (ax + s * bx, ay + s * by)
            res = op(a, b)
            equal('left operand of ' + what, repr(a), ra)
            equal('right operand of ' + what, repr(b), rb)
            check_result(what, res, want, xy, [a, b])
            res = op(a, b)
            shake(a)
            shake(b)
            same(what + ', operands moved afterwards', res.xy(), xy)
        # augmented assignment must not alter the operand through another name
        a, b = fa(ax, ay), fb(bx, by)
        if want is not None:
            alias = a
            if name == 'add':
                a += b
            else:
                a -= b
            same(what + ' (augmented)', a.xy(), (ax + s * bx, ay + s * by))
            same('alias after augmented ' + what, alias.xy(), (ax, ay))
    a, b = fa(ax, ay), fb(bx, by)
    ra, rb = repr(a), repr(b)
    dx, dy = ax - bx, ay - by
    d = math.hypot(dx, dy)
    if ka == kb == 'P':
        check_result('mid', a.mid(b), 'P', ((ax + bx) / 2, (ay + by) / 2), [a, b])
        shifted = PointRelative(3, -4, b)
        same('mid of derived', a.mid(shifted).xy(), ((ax + bx + 3) / 2, (ay + by - 4) / 2))
    if ka == kb == 'V':
        same('dot', a.dot(b), ax * bx + ay * by)
        same('cross', a.cross(b), ax * by - ay * bx)
    if ka == kb:
        for delta in (d / 2, d * 0.999, d * 1.001, d * 2, d + 1e-6):
            if delta != d and delta > 0:
                equal('close(%r) of points %r apart' % (delta, d), bool(a.close(b, delta)), d < delta)
        equal('close', bool(a.close(b)), d < 1e-11)
        if d == int(d) and (dx, dy) == (int(dx), int(dy)):
            # exactly at the limit is not within it
            equal('close(%r) of %s and %s, exactly that far apart' % (d, ra, rb), bool(a.close(b, d)), False)
        # equality: same type, same parts
        eq = fa is fb and (ax, ay) == (bx, by)
        if fa is fb or (fa in (p_plain, p_named) and fb in (p_plain, p_named)):
            equal('%r == %r' % (a, b), a == b, eq)
            equal('%r != %r' % (a, b), a != b, not eq)
        elif (ax, ay) != (bx, by):
            equal('%r == %r' % (a, b), a == b, False)
    else:
        equal('point == vector', a == b, False)
    equal('operand', repr(a), ra)
    equal('operand', repr(b), rb)
    obs.state(ka, kb, ax, ay, bx, by)


def unary(case, obs):
    BASES.clear()
    k, f, (x, y) = case
    a = f(x, y)
    text = repr(a)
    same('xy', a.xy(), (x, y))
    same('x, y', (a.x, a.y), (x, y))
    same('iter', tuple(a), (x, y))
    check_result('-a', -a, k, (-x, -y), [a])
    check_result('fixed', a.fixed(), k, (x, y), [a])
    c = a.copy()
    require(c is not a, 'copy is the same object')
    same('copy', c.xy(), (x, y))
    equal('copy == original', c == a, True)
    equal('type of copy', type(c), type(a))
    fx = a.fixed()
    if isinstance(a, Point):
        a.setxy(x + 5, y + 7)
        same('copy after the original moved', c.xy(), (x, y))
        equal('copy == moved original', c == a, False)
        c.setxy(x - 1, y - 2)
        same('original after the copy moved', a.xy(), (x + 5, y + 7))
        a.set(Point(x, y))
        same('set', a.xy(), (x, y))
        src = Point(x + 2, y - 9)
        a.restore(src)
        same('restore', a.xy(), (x + 2, y - 9))
        src.setxy(0, 0)
        same('restored point after its source moved', a.xy(), (x + 2, y - 9))
        a = f(x, y)
    elif k == 'V' and not isinstance(a, VectorRelative):
        a.setxy(x + 5, y + 7)
        same('copy after the original moved', c.xy(), (x, y))
        src = Vector(x - 3, y + 1)
        a.set(src)
        same('set', a.xy(), (x - 3, y + 1))
        src.setxy(0, 0)
        same('vector after its source changed', a.xy(), (x - 3, y + 1))
        a = f(x, y)
    else:
        shake(a)
        a = f(x, y)
    same('fixed after the original moved', fx.xy(), (x, y))
    if k == 'P':
        v = a.v
        check_result('.v', v, 'V', (x, y), [a])
    else:
        check_result('.p', a.p, 'P', (x, y), [a])
        length = math.sqrt(x * x + y * y)
        same('length', a.length(), length)
        equal('truth value', bool(a), bool(x or y))
        check_result('normal', a.normal(), 'V', (y, -x), [a])
        same('angle', (math.cos(math.radians(a.angle())) * length, math.sin(math.radians(a.angle())) * length), (x, y))
        require(-180 <= a.angle() <= 180, 'angle %r not in [-180, 180]', a.angle())
        if length == 0:
            raises(ZeroDivisionError, a.unit)
        else:
            check_result('unit', a.unit(), 'V', (x / length, y / length), [a])
        for deg in (-450, -90, -30, 0, 30, 45, 90, 135, 180, 270, 360, 400, 0.001, 89.9996, 390.5, -750.25, 359.75, 1e5 + 0.5):
            r = math.radians(deg)
            obs.step()
            check_result('rotate %r' % deg, a.rotate(deg), 'V',
                         (x * math.cos(r) - y * math.sin(r), x * math.sin(r) + y * math.cos(r)), [a])
        for s in SCALES:
            obs.step()
            check_result('* %r' % s, a * s, 'V', (x * s, y * s), [a])
            check_result('%r *' % s, s * a, 'V', (x * s, y * s), [a])
            if s:
                check_result('/ %r' % s, a / s, 'V', (x / s, y / s), [a])
            alias = a
            b = a
            b *= s
            same('alias after *=', alias.xy(), (x, y))
    for n in (-1, 0, 1, 2):
        want = (round(x, n), round(y, n))
        if not isinstance(a, VectorRelative):
            r = round(a, n)
            check_result('round(a, %d)' % n, r, k, want, [a])
            check_result('a.round(%d)' % n, a.round(n), k, want, [a])
    if not isinstance(a, VectorRelative):
        check_result('a.round()', a.round(), k, (round(x, 0), round(y, 0)), [a])
    equal('value after all operations', repr(a), text)
    equal('value == unrelated', a == 'abc', False)
    obs.state(k, f.__name__, x, y)


def ask(what, a, k, x, y):
    """Everything a point or vector tells about its value (x, y)"""
    same(what + ': xy', a.xy(), (x, y))
    same(what + ': x, y', (a.x, a.y), (x, y))
    same(what + ': iter', tuple(a), (x, y))
    same(what + ': fixed', a.fixed().xy(), (x, y))
    same(what + ': copy', a.copy().xy(), (x, y))
    same(what + ': neg', (-a).xy(), (-x, -y))
    if k == 'P':
        same(what + ': v', a.v.xy(), (x, y))
        same(what + ': mid', a.mid(Point(3, -1)).xy(), ((x + 3) / 2, (y - 1) / 2))
        same(what + ': + v', (a + Vector(1, 2)).xy(), (x + 1, y + 2))
        same(what + ': - p', (a - Point(1, 2)).xy(), (x - 1, y - 2))
        equal(what + ': close', a.close(Point(x, y)), True)
        equal(what + ': close', a.close(Point(x, y + 1)), False)
    else:
        length = math.sqrt(x * x + y * y)
        same(what + ': length', a.length(), length)
        equal(what + ': truth value', bool(a), bool(x or y))
        same(what + ': p', a.p.xy(), (x, y))
        same(what + ': normal', a.normal().xy(), (y, -x))
        same(what + ': + v', (a + Vector(1, 2)).xy(), (x + 1, y + 2))
        same(what + ': dot', a.dot(Vector(2, -3)), 2 * x - 3 * y)
        same(what + ': cross', a.cross(Vector(2, -3)), -3 * x - 2 * y)
        same(what + ': angle', (math.cos(math.radians(a.angle())) * length, math.sin(math.radians(a.angle())) * length), (x, y))
        same(what + ': rotate', a.rotate(90).xy(), (-y, x))
        same(what + ': * 2', (a * 2).xy(), (2 * x, 2 * y))
        if length:
            same(what + ': unit', a.unit().xy(), (x / length, y / length))


def changes(case, obs):
    """Values that are changed and asked about in turn"""
    which, words = case
    base, other = Point(2, 1), Point(-1, 3)
    x, y = 2, 1
    if which == 'vector':
        a, k = Vector(x, y), 'V'
    elif which == 'point':
        a, k = Point(x, y), 'P'
    elif which == 'difference':
        a, k, (x, y) = VectorRelative(base, other), 'V', (3, -2)
    elif which == 'relative':
        a, k, (x, y) = PointRelative(4, 5, base), 'P', (6, 6)
    else:
        a, k, (x, y) = PointCalc(PointRelative(4, 5, base), -2), 'P', (-6, -9)
    ask('new', a, k, x, y)
    for n, (how, tx, ty) in enumerate(words):
        obs.step()
        if which in ('vector', 'point'):
            x, y = tx, ty
            if how == 'setxy':
                a.setxy(tx, ty)
            elif how == 'set':
                a.set(Vector(tx, ty) if k == 'V' else Point(tx, ty))
            elif k == 'P':
                a.restore(Point(tx, ty))
            else:
                c = a.copy()
                ask('copy', c, k, *a.xy())
                c.setxy(tx, ty)
                a = c
        elif which == 'difference':
            (base if how == 'setxy' else other).setxy(tx, ty)
            x, y = base.x - other.x, base.y - other.y
        else:
            r = a if which == 'relative' else a.base
            if how == 'setxy':
                base.setxy(tx, ty)
            elif how == 'set':
                r.dx, r.dy = tx, ty
            elif which == 'calc':
                a.scale = tx
            s = 1 if which == 'relative' else a.scale
            x, y = base.x + s * r.dx, base.y + s * r.dy
        ask('after change %d' % n, a, k, x, y)
    obs.state(which, x, y)


def magnitudes(case, obs):
    """Directions and lengths of vectors of any size"""
    f, (dx, dy), scale = case
    x, y = dx * scale, dy * scale
    v = f(x, y)
    size = max(abs(x), abs(y))
    require(abs(v.length() / size - math.hypot(dx, dy) / max(abs(dx), abs(dy))) < 1e-9, 'length of %r is %r', v, v.length())
    require(bool(v), '%r counts as zero', v)
    u = v.unit()
    d = math.hypot(dx, dy)
    same('unit of %r' % v, u.xy(), (dx / d, dy / d))
    same('unit by hand', (v / v.length()).xy(), (dx / d, dy / d))
    same('angle', v.angle() % 360, math.degrees(math.atan2(dy, dx)) % 360)
    same('normal', v.normal().unit().xy(), (dy / d, -dx / d))
    same('half', (v * 0.5).unit().xy(), (dx / d, dy / d))
    obs.step(6)
    obs.state(f.__name__, dx, dy, scale)


def area(case, obs):
    rep, pts = case
    points = [rep[i % len(rep)](x, y) for i, (x, y) in enumerate(pts)]
    # Independent: fan of triangles about the first point
    (x0, y0), want = pts[0], 0.0
    for (x1, y1), (x2, y2) in zip(pts[1:], pts[2:]):
        want += ((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)) / 2
    same('polygon_area', polygon_area(points), want)
    same('reversed polygon_area', polygon_area(points[::-1]), -want)
    same('rotated polygon_area', polygon_area(points[1:] + points[:1]), want)
    same('points', [p.xy() for p in points], list(pts))
    obs.step(3)
    obs.state(want)


def area_of_any_size(case, obs):
    """Areas of tiny and huge polygons, and of polygons far away, relative to what rounding allows"""
    pts, scale, away = case
    pts = [(x * scale + away, y * scale - away) for x, y in pts]
    (x0, y0), want = map(Fraction, pts[0]), Fraction(0)
    for (x1, y1), (x2, y2) in zip(pts[1:], pts[2:]):
        want += ((Fraction(x1) - x0) * (Fraction(y2) - y0) - (Fraction(x2) - x0) * (Fraction(y1) - y0)) / 2
    slack = 1e-14 * sum(abs(x) for x, _ in pts) * sum(abs(y) for _, y in pts)
    for points, w in (([Point(*p) for p in pts], want), ([PointRelative(*p, Point(0, 0)) for p in pts[::-1]], -want)):
        got = polygon_area(points)
        require(abs(got - w) <= 1e-12 * abs(w) + slack, 'area of %r: got %r, expected %r', pts, got, float(w))
    obs.step(2)
    return case


TOKENS = {
    'i': lambda: 7, 'f': lambda: -2.5, '0': lambda: 0,
    't': lambda: (1, 2.5), 'T': lambda: (3, 4, 5), 'P': lambda: Point(9, 8), 'R': lambda: PointRelative(1, 1, Point(2, 3)),
    'N': lambda: numpy.int64(7), 'g': lambda: numpy.float32(0.5), 'F': lambda: Fraction(5, 2),
    '1': lambda: (1,), '4': lambda: (1, 2, 3, 4), 's': lambda: 'x', 'l': lambda: [1, 2], 'n': lambda: None,
}


NUMBERS = 'if0NgF'


def parse_model(word, thru):
    """Reference parser: list of coordinates, or None if malformed"""
    out = []
    i = 0
    while i < len(word):
        w = word[i]
        val = TOKENS[w]()
        if w in NUMBERS:
            if i + 1 >= len(word) or word[i+1] not in NUMBERS:
                return None
            out.append((val, TOKENS[word[i+1]]()))
            i += 2
            continue
        if w == 't' or (w == 'T' and thru):
            out.append(val)
        elif w in 'PR':
            out.append(val.xy())
        else:
            return None
        i += 1
    return out


def parse(case, obs):
    word, thru = case
    want = parse_model(word, thru)
    for as_iter in (False, True):
        data = [TOKENS[w]() for w in word]
        snap = repr(data)
        arg = iter(data) if as_iter else data
        obs.step()
        if want is None:
            raises(ValueError, BasePoint.parse, arg, thru)
        else:
            got = BasePoint.parse(arg, thru)
            equal('number of points of %s' % snap, len(got), len(want))
            for g, w in zip(got, want):
                equal('parsed point of %s' % snap, tuple(g.xy() if isinstance(g, BasePoint) else g), tuple(w))
            equal('points given', [isinstance(g, BasePoint) for g in got],
                  [c in 'PR' for c in parse_tokens(word)])
        equal('argument', repr(data), snap)
    obs.state(word if want is None else tuple(want))


def parse_tokens(word):
    i, out = 0, []
    while i < len(word):
        out.append(word[i])
        i += 2 if word[i] in NUMBERS else 1
    return out


def identity(case, obs):
    """Algebraic laws over three values"""
    (ax, ay), (bx, by), (cx, cy) = case
    p, q = Point(ax, ay), Point(bx, by)
    v, w = Vector(bx, by), Vector(cx, cy)
    same('(p+v)-v', ((p + v) - v).xy(), p.xy())
    same('p+(q-p)', (p + (q - p)).xy(), q.xy())
    same('(p+v)+w', ((p + v) + w).xy(), (p + (v + w)).xy())
    same('cross(v,w)=-cross(w,v)', v.cross(w), -w.cross(v))
    same('normal', v.normal().dot(v), 0)
    same('cross=-(normal.dot)', v.cross(w), -v.normal().dot(w))
    require((v + w).length() <= v.length() + w.length() + 1e-9, 'triangle inequality')
    obs.step(7)
    return (ax, ay, bx, by, cx, cy)


ODD = [(1.25, -7.5), (12.344, -0.006), (1e-7, 1e6), (-15, 25), (1, -1), (-3, 3), (2.5, -2.5), (0, 1e-3), (1e-3, 0), (1, 1), (1e-4, -1e-4),
       (0, -1), (-1, 0), (1, 0), (0, 1), (1e6, 1e6), (-0.5, 0.25)]


def run(ctx):
    vals = ctx.pick([-2, 0, 0.5, 3], [-2, -0.75, 0, 0.5, 3, 1e3])
    xys = list(itertools.product(vals, vals))
    xys2 = [(x, y) for x, y in xys if x != 3 or y in (0, 3)] if not ctx.deep else xys
    xys2 = xys2 + [(2, -2), (-1, 1)]
    reps = [('P', f) for f in POINTS] + [('V', f) for f in VECTORS]
    ctx.sweep('unary', [(k, f, xy) for k, f in reps for xy in
                        xys + ODD], unary,
              'every unary operation, accessor, scaling, rotation and rounding on every representation')
    ctx.sweep('binary', [(ka, fa, a, kb, fb, b) for ka, fa in reps for kb, fb in reps for a in xys2 for b in xys2], binary,
              'every binary operator on every pair of representations and coordinates, refused combinations included')
    tos = [('setxy', 6, 8), ('set', 0, 0), ('restore', -1, 0.5), ('setxy', 2, 1), ('set', 3, -4)]
    ctx.sweep('changes', [(w, words) for w in ('vector', 'point', 'difference', 'relative', 'calc')
                          for n in range(1, ctx.pick(4, 5)) for words in itertools.product(tos, repeat=n)], changes,
              'all sequences of changes, with everything asked after each')
    dirs = [d for d in itertools.product([-3, -1, 0, 1, 4], repeat=2) if any(d)]
    ctx.sweep('magnitudes', [(f, d, s) for f in (v_plain, v_zero) for d in dirs for s in
                             (1e-150, 1e-30, 1e-15, 1e-12, 1e-10, 1e-8, 1e-6, 1e-4, 1e-3, 0.01, 1, 1e3, 1e8, 1e20, 1e150)], magnitudes,
              'directions times sizes over 300 orders of magnitude')
    ctx.sweep('laws', list(itertools.product(xys, xys, xys)), identity, 'algebraic laws over triples')
    grid = list(itertools.product([-1, 0, 2], [-1.5, 0, 1]))
    polys = [p for n in ctx.pick((3, 4), (3, 4, 5)) for p in itertools.product(grid, repeat=n)]
    if not ctx.deep:
        polys = [p for p in polys if len(p) == 3] + [p for p in itertools.product(grid[::2], repeat=4)] + \
                [p for p in itertools.product(grid[:4], repeat=5)]
    ctx.sweep('area', [([p_plain], p) for p in polys] + [([p_rel, p_plain, p_calc], p) for p in polys[:729]], area,
              'all polygons over a 3x3 lattice')
    tri = [p for n in (3, 4) for p in itertools.product([(-1, 0), (2, 1), (0, 2.5), (1, -1.5)], repeat=n)]
    ctx.sweep('areas of any size', [(p, s, a) for p in tri for s, a in ((1e-12, 0), (1e-7, 0), (1e-5, 0), (1e-3, 0), (1e4, 0), (1e9, 0),
                                                                       (1e-3, 100), (1, 1e5))], area_of_any_size,
              'polygons of sizes over 20 orders of magnitude, at the origin and far from it, against exact areas')
    alpha = 'if0tTPR14sln'
    words = [''.join(w) for n in range(0, ctx.pick(4, 5)) for w in itertools.product(alpha, repeat=n)]
    words += [''.join(w) for n in ((5, 6) if not ctx.deep else (5, 6, 7)) for w in itertools.product('itPT', repeat=n)]
    words += [''.join(w) for n in range(1, ctx.pick(5, 6)) for w in itertools.product('iNgFtP1', repeat=n)]
    ctx.sweep('parse', [(w, t) for w in words for t in (False, True)], parse,
              'all coordinate lists over an alphabet of 15 kinds of items, against a reference parser')
