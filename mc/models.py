"""
The alphabet of models: elements of every kind, built from plain descriptions, with their ideal outlines.

A description is a dict:
    kind: curve, rect, rrect, ellipse, group, holes
    name, pen (key of PENS), xform (6-tuple or None)
    curve: cps [(c, dl, dr, kind)], closed
    rect, ellipse: p1, p2;   rrect: radius as well
    group: elems [description], hidden, points {name: (x, y)}
    holes: outside description, inside [descriptions]
"""
import copy as copying
import math
import numpy as np
from mc.engine import require, same, Violation
from mc import oracle
from mc.oracle import IDENT, mat_mul, mat_apply
from x7.geom.geom import *
from x7.geom.bezier import *
from x7.geom.transform import *
from x7.geom.colors import *
from x7.geom.model import *

PENS = {
    'line': lambda: PenBrush(('red', 2)),
    'thin': lambda: PenBrush('black'),
    'fill': lambda: PenBrush(None, 'blue'),
    'both': lambda: PenBrush(('green', 1), 'yellow'),
    'scaled': lambda: PenBrush((('orange'), -1.5), (1, 2, 3, 255)),
    'clear': lambda: PenBrush('purple', TRANSPARENT),
}

KAPPA = 4 / 3 * math.tan(math.pi / 8)


def make_cp(spec, how='plain'):
    (x, y), dl, dr, *kind = spec
    kind = kind[0] if kind else 'smooth'
    c = Point(x, y)
    if how == 'relative':
        c = PointRelative(x - 3, y + 1, Point(3, -1))
    dl, dr = Vector(*dl), Vector(*dr)
    if how == 'live':
        dl = VectorRelative(Point(x + dl.x, y + dl.y), c)
        dr = VectorRelative(PointRelative(dr.x, dr.y, c), c)
    return ControlPoint(c, dl, dr, kind)


def spec_xy(spec):
    """(c, l, r) of a control point description"""
    (x, y), dl, dr = spec[:3]
    return (x, y), (x + dl[0], y + dl[1]), (x + dr[0], y + dr[1])


def curve_segs(specs, closed):
    return oracle.segments([spec_xy(s) for s in specs], closed)


def line_seg(p, q):
    return (p, oracle.lerp(p, q, 1/3), oracle.lerp(p, q, 2/3), q)


def rect_segs(p1, p2):
    pts = [p1, (p1[0], p2[1]), p2, (p2[0], p1[1])]
    return [line_seg(p, q) for p, q in zip(pts, pts[1:] + pts[:1])]


def arc_seg(p, corner, q):
    """Quarter ellipse from p to q, with tangents towards corner"""
    return (p, oracle.lerp(p, corner, KAPPA), oracle.lerp(q, corner, KAPPA), q)


def ellipse_segs(p1, p2):
    xl, yl, xh, yh = min(p1[0], p2[0]), min(p1[1], p2[1]), max(p1[0], p2[0]), max(p1[1], p2[1])
    cx, cy = (xl + xh) / 2, (yl + yh) / 2
    return [arc_seg((xh, cy), (xh, yl), (cx, yl)), arc_seg((cx, yl), (xl, yl), (xl, cy)),
            arc_seg((xl, cy), (xl, yh), (cx, yh)), arc_seg((cx, yh), (xh, yh), (xh, cy))]


def rrect_segs(p1, p2, radius):
    xl, yl, xh, yh = min(p1[0], p2[0]), min(p1[1], p2[1]), max(p1[0], p2[0]), max(p1[1], p2[1])
    r = min(radius, (xh - xl) / 2, (yh - yl) / 2)
    out = []
    cur = None
    for corner, into, outof in [((xh, yl), (-r, 0), (0, r)), ((xh, yh), (0, -r), (-r, 0)),
                                ((xl, yh), (r, 0), (0, -r)), ((xl, yl), (0, r), (r, 0))]:
        a = corner[0] + into[0], corner[1] + into[1]
        b = corner[0] + outof[0], corner[1] + outof[1]
        if cur and oracle.dist(cur, a) > 0:
            out.append(line_seg(cur, a))
        if r:
            out.append(arc_seg(a, corner, b))
        cur = b
    first = xh - r, yl
    if oracle.dist(cur, (xl + r, yl)) > 0:
        cur = xl + r, yl
    if oracle.dist(cur, first) > 0:
        out.append(line_seg(cur, first))
    return out


# -- descriptions

def D(kind, name, pen='line', xform=None, **kw):
    return dict(kind=kind, name=name, pen=pen, xform=xform, **kw)


def build(d, how='plain'):
    """Build the element"""
    pen = PENS[d['pen']]()
    xf = Transform(d['xform']) if d['xform'] else None
    kind = d['kind']
    if kind == 'curve':
        return ElemCurve(d['name'], pen, [make_cp(c, how) for c in d['cps']], closed=d.get('closed', True), xform=xf)
    if kind == 'group':
        g = Group(d['name'], pen, hidden=d.get('hidden', False), xform=xf, closed=d.get('closed', False))
        for e in d['elems']:
            g.add(e['name'], build(e, how))
        for n, p in d.get('points', {}).items():
            g.add_pt(n, Point(*p))
        return g
    if kind == 'holes':
        return ElemWithHoles(d['name'], pen, build(d['outside'], how), [build(e, how) for e in d['inside']], d.get('closed', True), xform=xf)
    p1, p2 = Point(*d['p1']), Point(*d['p2'])
    if how != 'plain':
        p1 = PointRelative(p1.x - 2, p1.y + 1, Point(2, -1))
    if kind == 'rect':
        return ElemRectangle(d['name'], pen, p1, p2, xform=xf)
    if kind == 'ellipse':
        return ElemEllipse(d['name'], pen, p1, p2, xform=xf)
    if kind == 'rrect':
        return ElemRectangleRounded(d['name'], pen, p1, p2, d['radius'], xform=xf)
    raise KeyError(kind)


def outlines(d, m=IDENT, show_hidden=False):
    """
        Ideal outlines under mapping m: list of (segments, closed, description of the element).  For an element with holes
        these are the outlines of its parts.
    """
    m = mat_mul(m, d['xform']) if d['xform'] else m
    kind = d['kind']
    if kind == 'group':
        if d.get('hidden') and not show_hidden:
            return []
        return [o for e in d['elems'] for o in outlines(e, m, show_hidden)]
    if kind == 'holes':
        return [o for e in [d['outside']] + d['inside'] for o in outlines(e, m, show_hidden)]
    segs = {'curve': lambda: curve_segs(d['cps'], d.get('closed', True)), 'rect': lambda: rect_segs(d['p1'], d['p2']),
            'ellipse': lambda: ellipse_segs(d['p1'], d['p2']), 'rrect': lambda: rrect_segs(d['p1'], d['p2'], d['radius'])}[kind]()
    return [(oracle.map_segs(m, segs), d.get('closed', True), d)]


def leaves(d, m=IDENT, path=()):
    """(path of names, description, mapping of the enclosing groups) of all simple elements, holes as .outside.x, .inside.x"""
    inner = mat_mul(m, d['xform']) if d['xform'] else m
    if d['kind'] == 'group':
        for e in d['elems']:
            yield from leaves(e, inner, path + (d['name'],))
    elif d['kind'] == 'holes':
        yield from leaves(d['outside'], inner, path + (d['name'], 'outside'))
        for e in d['inside']:
            yield from leaves(e, inner, path + (d['name'], 'inside'))
    else:
        yield path + (d['name'],), d, m


# -- comparing outlines

def sample(segs, n=400):
    """Dense samples of segments, (N, 2)"""
    t = np.linspace(0, 1, n + 1)[:, None]
    s = 1 - t
    a = np.array([[p for p in seg] for seg in segs], dtype=float)      # (k, 4, 2)
    w = np.stack([s**3, 3*s*s*t, 3*s*t*t, t**3], axis=0)    # (4, n+1, 1)
    return np.einsum('ijk,lim->ljm', w, a)      # (k, n+1, 2)


def dist_brute(pts, a, b):
    """Distance of points to nearest of segments a-b"""
    pts = np.asarray(pts, float)
    d = b - a
    dd = (d * d).sum(1)
    out = np.empty(len(pts))
    for i0 in range(0, len(pts), 64):
        p = pts[i0:i0+64, None, :]
        t = np.clip(((p - a) * d).sum(2) / np.where(dd == 0, 1, dd), 0, 1)
        q = a + t[:, :, None] * d
        out[i0:i0+64] = np.sqrt((((p - q) ** 2).sum(2)).min(1))
    return out


def dist_to_lines(pts, a, b, tol):
    """Distance of points to nearest of segments a-b, exact where it matters: whenever it is more than tol"""
    pts = np.asarray(pts, float)
    if len(a) < 40:
        return dist_brute(pts, a, b)
    from scipy.spatial import cKDTree
    # Candidates: segments whose middles are nearest
    k = min(6, len(a))
    _, idx = cKDTree((a + b) / 2).query(pts, k=k)
    idx = idx.reshape(len(pts), k)
    sa, d = a[idx], (b - a)[idx]
    dd = (d * d).sum(2)
    p = pts[:, None, :]
    t = np.clip(((p - sa) * d).sum(2) / np.where(dd == 0, 1, dd), 0, 1)
    out = np.sqrt(((p - sa - t[:, :, None] * d) ** 2).sum(2)).min(1)
    far = np.nonzero(out > tol)[0]
    if len(far):
        out[far] = dist_brute(pts[far], a, b)
    return out


def size_of(segs):
    a = np.array([p for s in segs for p in s], float)
    return max(1e-9, float((a.max(0) - a.min(0)).max()))


def check_outline(what, pts, segs, closed, sag=0.02):
    """The polyline pts traces the outline given by segs: every point on it, all of it covered, closed if it is closed"""
    require(len(pts) > 0, '%s is empty', what)
    a = np.array(pts, float)
    require(np.isfinite(a).all(), '%s has points that are not finite', what)
    if closed:
        require(np.abs(a[0] - a[-1]).max() <= 1e-9 * (1 + np.abs(a[0]).max()), '%s does not close: %s .. %s', what, pts[0], pts[-1])
    size = size_of(segs)
    mag = max(1.0, float(np.abs(a).max()))
    # Usual case: evenly spaced samples of every segment, starting with the first one
    n = len(pts) - 1
    if n % len(segs) == 0 and n >= 10 * len(segs):
        s = sample(segs, n // len(segs))
        b = np.concatenate([s[0]] + [x[1:] for x in s[1:]])
        if np.abs(a - b).max() <= 1e-9 * mag:
            return
    b = sample(segs)
    lo, hi = b[:, :-1].reshape(-1, 2), b[:, 1:].reshape(-1, 2)
    tol = 3e-5 * size + 1e-9 * mag
    off = dist_to_lines(a, lo, hi, tol)
    if off.max() > tol:
        i = int(off.argmax())
        raise Violation('%s: point %d %s is %.3g away from the outline' % (what, i, tuple(pts[i]), off[i]))
    # Everything covered (the polyline may cut corners a little between its points)
    dense = b[:, ::20].reshape(-1, 2)
    off = dist_to_lines(dense, a[:-1], a[1:], sag * size)
    if off.max() > sag * size:
        i = int(off.argmax())
        raise Violation('%s does not reach %s of the outline, it is %.3g away' % (what, tuple(dense[i]), off[i]))
    # All corners (segment ends) reached exactly
    ends = np.array([s[0] for s in segs] + [segs[-1][3]])
    off = dist_to_lines(ends, a[:-1], a[1:], tol)
    if off.max() > tol:
        i = int(off.argmax())
        raise Violation('%s misses %s by %.3g' % (what, tuple(ends[i]), off[i]))


def cps_segs(cps, closed):
    """Segments of real control points"""
    return oracle.segments(oracle.cps_xy(cps), closed)


def check_same_shape(what, got, want, tol=1e-6):
    """Two lists of segments trace the same point set"""
    require(len(got) > 0, '%s has no segments', what)
    size = size_of(want)
    mag = max(1.0, max(abs(v) for s in want for p in s for v in p))
    if len(got) == len(want) and np.abs(np.array(got, float) - np.array(want, float)).max() <= 1e-9 * mag:
        return
    a, b = sample(got), sample(want)
    for name, x, y in (('is', a, b), ('misses', b, a)):
        off = dist_to_lines(x[:, ::8].reshape(-1, 2), y[:, :-1].reshape(-1, 2), y[:, 1:].reshape(-1, 2), 3e-5 * size)
        if off.max() > 3e-5 * size:
            i = int(off.argmax())
            raise Violation('%s %s off the expected shape by %.3g at %s' % (what, name, off[i], tuple(x[:, ::8].reshape(-1, 2)[i])))


def path_points(path):
    return [tuple(p) for p in path.points.tolist()]


def canvas(matrix=None, size=(4, 4)):
    """A drawing context on a small image"""
    from PIL import Image
    from x7.geom.drawing import DrawingContext
    return DrawingContext(Image.new('RGBA', size, 'white'), matrix)


def settings(dc):
    """Settings of a drawing context that no drawing changes"""
    return tuple((n, getattr(dc, n, None)) for n in ('points_per_curve', 'prod', 'color', 'debug', 'showall', 'show_cps', 'shadow_color', 'crop', 'raw_crop'))


# -- a catalogue of models

XFORMS = {
    'none': None,
    'move': (1, 0, 5, 0, 1, -3),
    'turn': (0.8, -0.6, 2, 0.6, 0.8, 1),                # by an angle, keeps sizes
    'stretch': (2, 0, -1, 0, 0.5, 4),
    'mirror': (-1, 0, 3, 0, 1, 0),
    'quarter': (0, -1.5, 0, 1.5, 0, 7),
    'shear': (1, 0.5, 2, 0, -2, -1),
    'skew': (0.9, -1.2, -4, 0.3, 0.7, 0.5),
    'far': (0.1, 0, 1000, 0, 0.1, -2000),
}
# Only one axis sheared, axes exchanged: shortcuts for 'unrotated' mappings are wrong for these
MORE_XFORMS = [(1, 0, 0, -2, 1, 0), (1, 3, 0, 0, 1, 0), (1.5, 0, -2, 0.25, 1.5, 9), (0, 1, 0, -1, 0.5, 0), (0.5, -2, 1, 1, 0, 0), (0, -1, 0, 1, 0, 0)]
LINEAR_XFORMS = [x for x in XFORMS.values()]

LEAVES = {
    'curve': D('curve', 'c', 'both', cps=[((0, 0), (0, 2), (0, -2)), ((6, 1), (-1, -1.5), (1, 1.5), 'very-smooth'),
                                          ((3, 5), (2, 0), (-1, 2), 'sharp')]),
    'open': D('curve', 'o', 'line', closed=False, cps=[((-2, 0), (0, 0), (1, 3)), ((3, 1), (-1, 1), (1, -1)), ((7, 4), (0, -2), (0, 0))]),
    'loop': D('curve', 'l', 'thin', cps=[((1, 1), (4, 0), (0, 3))]),
    'pair': D('curve', 'p', 'scaled', cps=[((-3, 0.5), (0, 5), (0, -5), 'sharp'), ((4, 0), (0, -2), (0, 2))]),
    'rect': D('rect', 'r', 'both', p1=(-2, -1), p2=(4, 3)),
    'rect2': D('rect', 'r2', 'line', p1=(5, 0.5), p2=(-1, -4)),
    'rrect': D('rrect', 'rr', 'fill', p1=(-3, -2), p2=(5, 2), radius=1),
    'rrect2': D('rrect', 'rr2', 'both', p1=(4, 5), p2=(-1, 1), radius=50),
    'rrect0': D('rrect', 'rr0', 'line', p1=(0, 3), p2=(2, 0), radius=0),
    'ellipse': D('ellipse', 'e', 'clear', p1=(-4, -1), p2=(2, 3)),
    'circle': D('ellipse', 'k', 'both', p1=(3, -3), p2=(-3, 3)),
}
SMALL = {
    'curve': D('curve', 'hc', 'both', cps=[((1, 0.5), (0, 0.5), (0, -0.5)), ((2, 0.5), (0, -0.5), (0, 0.5))]),
    'rect': D('rect', 'hr', 'both', p1=(0.5, 0), p2=(1.5, 1)),
    'rrect': D('rrect', 'hrr', 'both', p1=(1, 1), p2=(0, 0), radius=0.25),
    'ellipse': D('ellipse', 'he', 'both', p1=(0, 0), p2=(1.25, 1)),
}


def re(d, **kw):
    """The description with some fields changed"""
    return {**d, **kw}


def single(leaf, xf='none', **kw):
    return re(LEAVES[leaf], xform=XFORMS[xf], **kw)


def holes(outside, insides, xf='none', pen='both', oxf='none', ixf='none', name='w'):
    out = re(LEAVES[outside], pen=pen, xform=XFORMS[oxf])
    if outside == 'circle':
        out = re(out, p1=(9, -9), p2=(-9, 9))
    elif 'p1' in out:
        out = re(out, p1=(-9, -8), p2=(9, 10))
    else:
        out = re(out, cps=[((9, 9), (0, 4), (4, 0)), ((9, -9), (-1, 0), (0, -2), 'sharp'), ((-10, 0), (0, -9), (0, 9))])
    ins = [re(SMALL[i], pen=pen, xform=XFORMS[ixf], name='%s%d' % (SMALL[i]['name'], n)) for n, i in enumerate(insides)]
    if ixf == 'none':
        ins = [shifted(e, -2 * n, n) for n, e in enumerate(ins)]
    return D('holes', name, pen, XFORMS[xf], outside=out, inside=ins)


def shifted(d, dx, dy):
    def mv(p):
        return p[0] + dx, p[1] + dy
    if d['kind'] == 'curve':
        return re(d, cps=[(mv(c[0]),) + tuple(c[1:]) for c in d['cps']])
    return re(d, p1=mv(d['p1']), p2=mv(d['p2']))


def group(name, elems, xf='none', pen='thin', **kw):
    return D('group', name, pen, XFORMS[xf], elems=[re(e, name='%s%d' % (e['name'], n)) for n, e in enumerate(elems)], **kw)


def catalogue(deep=False):
    """Models of every kind, with every internal transform, and nestings of them"""
    out = [single(k, x) for k in LEAVES for x in XFORMS]
    kinds = list(SMALL)
    out += [holes(o, i, x) for o in ('curve', 'rect', 'rrect', 'circle') for i in ([], [kinds[0]], kinds[1:], kinds)
            for x in ('none', 'skew', 'mirror')]
    out += [holes(o, kinds[:2], 'turn', pen, oxf, 'move') for o in ('rect', 'ellipse') for pen in ('line', 'fill', 'both') for oxf in ('none', 'turn')]
    # Parts that are open, beside closed ones
    h = holes('curve', ['curve', 'rect'], 'turn', 'line')
    out += [re(h, outside=re(h['outside'], closed=False)), re(h, inside=[re(h['inside'][0], closed=False), h['inside'][1]], xform=XFORMS['skew'])]
    out += [re(h, closed=False), re(h, closed=False, outside=re(h['outside'], closed=False), xform=XFORMS['mirror'])]
    out += nestings(deep)
    return out


def nestings(deep=False):
    s = single
    h = holes('rect', ['ellipse', 'curve'], 'turn')
    out = [
        group('g', []),
        group('g', [s('rect')]),
        group('g', [s('curve', 'turn'), s('rect', 'stretch'), s('rrect', 'mirror'), s('ellipse', 'skew')], 'move'),
        group('g', [s('rrect', 'skew'), s('open', 'turn'), s('circle'), h], 'shear', points={'q': (1, 2), 'a': (-3, 0.5)}),
        group('g', [s('rect'), group('s', [s('circle', 'shear')], 'turn', hidden=True), s('open')], 'stretch'),
        group('g', [s('rect')], hidden=True),
        group('g', [group('s', [group('t', [s('rrect', 'turn'), s('pair')], 'stretch', points={'z': (0, 1)}), s('rect')], 'turn',
                              points={'y': (5, 5)}), s('ellipse')], 'shear'),
        group('g', [group('s', [group('t', [h, s('curve')], 'mirror'), s('loop', 'far')], 'none'), group('u', []), s('rrect2', 'quarter')], 'skew'),
        group('g', [group('s', [s('rect2', 'move')]), group('s', [s('rect2', 'move')], 'far')], 'quarter', pen='both', closed=True),
        # The same mapping, again and again
        group('g', [s('rect', 'turn'), group('s', [s('open', 'turn'), holes('rect', ['ellipse'], 'turn', oxf='turn', ixf='turn'), s('rrect', 'turn')], 'turn'),
                    s('circle', 'turn')], 'turn'),
    ]
    # Groups as parts of elements with holes
    ins = holes('rect', ['ellipse', 'curve', 'rect'], pen='both')
    gh = re(ins, xform=XFORMS['turn'], inside=[group('hg', ins['inside'][:2], 'move', 'both', closed=True), ins['inside'][2]])
    out += [gh, group('g', [s('rect'), re(gh, name='w', outside=group('out', [gh['outside']], 'skew', 'both', closed=True)), s('pair')], 'mirror')]
    if deep:
        out += [group('g', [group('s', [s(a, x), s(b)], y), s(a, y)], z) for a, b in (('rrect', 'circle'), ('curve', 'rect'), ('ellipse', 'open'))
                for x in XFORMS for y in ('turn', 'stretch', 'mirror', 'skew') for z in ('none', 'shear', 'quarter')]
        out += [group('g', [holes(o, [i], x, oxf=y)], z) for o in ('curve', 'rect', 'rrect', 'circle') for i in SMALL for x in ('none', 'skew')
                for y in ('none', 'turn', 'mirror') for z in ('none', 'stretch', 'turn')]
    return out


def saved_states(t):
    """How many states of a transform are pushed"""
    if isinstance(getattr(t, 'stack', None), list):
        return len(t.stack)
    t, n = copying.deepcopy(t), 0
    while True:
        try:
            t.pop()
        except EmptyStackError:
            return n
        n += 1


PLAIN = (str, int, float, bool, type(None))


def snapshot(e):
    """Everything that makes up a control point, point, transform, pen or element, as nested tuples of plain values"""
    t = type(e)
    if t in PLAIN:
        return e
    if t is tuple or t is list:
        return tuple([snapshot(v) for v in e])
    if t is dict:
        return tuple([(k, snapshot(v)) for k, v in e.items()])
    if isinstance(e, Transform):
        return 'T', tuple(map(float, e.as_6tuple())), saved_states(e)
    if isinstance(e, ControlPoint):
        return 'CP', snapshot(e.c), snapshot(e.dl), snapshot(e.dr), e.kind
    if isinstance(e, (BasePoint,)):
        return type(e).__name__, tuple(map(float, e.xy())), e.name
    if isinstance(e, Vector):
        return 'V', tuple(map(float, e.xy()))
    if isinstance(e, (int, float, str, np.number)):
        return e
    if isinstance(e, (PenBrush, Pen, Brush)):
        return repr(e)
    if isinstance(e, Elem):
        base = type(e).__name__, e.name, snapshot(e.penbrush), e.closed, snapshot(e.xform)
        if isinstance(e, Group):
            return base + (e.hidden, snapshot(e.elems), snapshot(e.points))
        if isinstance(e, ElemWithHoles):
            return base + (snapshot(e.outside), snapshot(e.inside))
        if isinstance(e, ElemCurve):
            return base + (snapshot(e.control_points),)
        return base + (snapshot(e.p1), snapshot(e.p2), getattr(e, 'radius', None))
    raise TypeError('snapshot of %r' % (e,))


def check_style(what, pb, d):
    want = PENS[d['pen']]()
    require(pb == want, '%s: style %r, expected %r', what, pb, want)


def all_points(paths):
    return [p for path in paths for p in path_points(path)]


def check_paths(what, paths, d, m, show_hidden=False):
    """Paths of the element described by d, drawn under m: the right outlines, in the right order and style"""
    paths = list(paths)
    for i, (group_d, outs) in enumerate(grouped(d, m, show_hidden)):
        if group_d['kind'] == 'holes':
            want = PENS[group_d['pen']]()
            if want.brush:
                require(paths, '%s: outline %d is missing', what, i)
                fill, paths = paths[0], paths[1:]
                require(not fill.penbrush.stroked and fill.penbrush.fill_color == want.fill_color, '%s: filling with %r', what, fill.penbrush)
                edges = set((round(x, 6), round(y, 6)) for p in paths[:len(outs)] for x, y in path_points(p))
                got = set((round(x, 6), round(y, 6)) for x, y in path_points(fill))
                require(edges == got, '%s: the filled area has other points than its edges: %r', what, sorted(edges ^ got)[:4])
        for segs, closed, leaf in outs:
            require(paths, '%s: outline %d (%s) is missing', what, i, leaf['name'])
            path, paths = paths[0], paths[1:]
            check_outline('%s: %s' % (what, leaf['name']), path_points(path), segs, closed)
            require(path.closed is closed, '%s: %s: closed=%r', what, leaf['name'], path.closed)
            if group_d['kind'] == 'holes':
                want = PENS[group_d['pen']]()
                require(not path.penbrush.filled and path.penbrush.stroke_color == want.stroke_color,
                        '%s: edge of %s drawn with %r', what, leaf['name'], path.penbrush)
            else:
                check_style('%s: %s' % (what, leaf['name']), path.penbrush, leaf)
    require(not paths, '%s: %d more paths than expected', what, len(paths))


def grouped(d, m=IDENT, show_hidden=False):
    """[(description of simple element or element with holes, outlines)]"""
    if d['kind'] != 'group':
        return [(d, outlines(d, m, show_hidden))]
    if d.get('hidden') and not show_hidden:
        return []
    m = mat_mul(m, d['xform']) if d['xform'] else m
    return [g for e in d['elems'] for g in grouped(e, m, show_hidden)]


def control_segs(points, closed):
    """Segments described by a control path: control points, or corners"""
    if points and isinstance(points[0], ControlPoint):
        return cps_segs(points, closed)
    pts = [tuple(map(float, p.xy())) for p in points]
    return [line_seg(p, q) for p, q in zip(pts, pts[1:] + pts[:1])]


def check_control_paths(what, paths, d, m):
    outs = outlines(d, m)
    require(len(paths) == len(outs), '%s: %d control paths, expected %d', what, len(paths), len(outs))
    for path, (segs, closed, leaf) in zip(paths, outs):
        check_same_shape('%s: %s' % (what, leaf['name']), control_segs(path.points, closed), segs)


def check_curves(what, curves, d, m):
    outs = outlines(d, m, show_hidden=True)
    require(len(curves) == len(outs), '%s: %d curves, expected %d', what, len(curves), len(outs))
    for c, (segs, closed, leaf) in zip(curves, outs):
        w = '%s: %s' % (what, leaf['name'])
        require(isinstance(c, ElemCurve), '%s is a %s', w, type(c).__name__)
        check_same_shape(w, map_segs_of(c), segs)
        require(c.closed is closed, '%s: closed=%r', w, c.closed)
        check_style(w, c.penbrush, leaf)
        require(c.name == leaf['name'], '%s: named %r', w, c.name)


def map_segs_of(curve):
    return oracle.map_segs(curve.xform.as_6tuple(), cps_segs(curve.control_points, curve.closed))
