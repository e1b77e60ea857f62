"""C13: bounding boxes contain what is drawn"""
import itertools
import numpy as np
from mc.engine import same, equal, require, raises, near, Disabled
from mc.oracle import *
from mc.models import *
from mc.edits import edited


def coords(bb):
    return tuple(map(float, (bb.xl, bb.yl, bb.xh, bb.yh)))


def box_of(pts):
    a = np.array(list(pts), float)
    return tuple(a.min(0)) + tuple(a.max(0))


def corners(b):
    return [(b[0], b[1]), (b[0], b[3]), (b[2], b[1]), (b[2], b[3])]


def union(boxes):
    return box_of([p for b in boxes for p in corners(b)])


def contains(what, outer, inner, tol=1e-9):
    scale = max(1.0, *map(abs, outer), *map(abs, inner))
    if not (outer[0] <= inner[0] + tol * scale and outer[1] <= inner[1] + tol * scale and
            outer[2] >= inner[2] - tol * scale and outer[3] >= inner[3] - tol * scale):
        raise_not(what, outer, inner)


def raise_not(what, outer, inner):
    require(False, '%s: %r does not contain %r', what, outer, inner)


def aligned(m):
    return m is None or abs(m[0]) + abs(m[4]) < 1e-12 or abs(m[1]) + abs(m[3]) < 1e-12


def extent(segs):
    """Box of the curve itself"""
    out = []
    for s in segs:
        pts = [s[0], s[3]]
        for ax in (0, 1):
            a, b, c, d = (p[ax] for p in s)
            # derivative: 3[(b-a) + 2(a-2b+c)t + (d-3c+3b-a)t^2]
            for t in np.roots([d - 3*c + 3*b - a, 2*(a - 2*b + c), b - a]):
                if abs(t.imag) < 1e-9 and 0 < t.real < 1:
                    pts.append(bez_pt(s, t.real))
        out += pts
    return box_of(out)


def limits(d):
    """(smallest box that can be right, largest box that can be right) in the space around the element, and whether these must agree"""
    m = d['xform'] or IDENT
    if d['kind'] == 'group':
        parts = [limits(e) for e in d['elems']]
        lo, hi = union(p[0] for p in parts), union(p[1] for p in parts)
        exact = all(p[2] for p in parts) and aligned(m)
    elif d['kind'] == 'holes':
        lo, hi, exact = limits(d['outside'])
        exact = exact and aligned(m)
    elif d['kind'] == 'curve':
        lo = extent(curve_segs(d['cps'], d.get('closed', True)))
        hi = box_of(p for s in d['cps'] for p in spec_xy(s))
        exact = False
    else:
        lo = hi = box_of([d['p1'], d['p2']])
        exact = aligned(m)
    if exact:
        lo = hi = box_of(mat_apply(m, p) for p in corners(hi))
    else:
        hi = box_of(mat_apply(m, p) for p in corners(hi))
        lo = hi if exact else None
    return lo if lo is not None else drawn(d), hi, exact


def drawn(d):
    """Box of the outlines, in the space around the element (hidden ones as well)"""
    outs = outlines(d, show_hidden=True)
    if d['kind'] == 'holes':
        outs = outs[:1]
    return union(extent(segs) for segs, _, _ in outs)


def empty(d):
    return d['kind'] == 'group' and (not d['elems'] or any(empty(e) for e in d['elems']))


def check_box(what, e, d):
    bb = e.bbox()
    got = coords(bb)
    lo, hi, exact = limits(d)
    if exact:
        same(what + ': exact box', got, hi)
    contains(what + ': box and outline', got, drawn(d))
    # ellipses are drawn a little outside of themselves
    contains(what + ': largest possible box', hi, got)
    pts = [p for path in e.paths(canvas()) for p in path_points(path)]
    if pts:
        size = max(got[2] - got[0], got[3] - got[1], 1e-9)
        b = box_of(pts)
        contains(what + ': box and what is drawn', (got[0] - 3e-4 * size, got[1] - 3e-4 * size, got[2] + 3e-4 * size, got[3] + 3e-4 * size), b)
        if d['kind'] in ('rect', 'rrect', 'curve'):
            contains(what + ': box and what is drawn', got, b)
    c = e.center()
    same(what + ': centre', c, ((got[0] + got[2]) / 2, (got[1] + got[3]) / 2))
    inner = coords(e.bbox_int())
    lo_int, hi_int, exact_int = limits(re(d, xform=None))
    contains(what + ': internal box', inner, drawn(re(d, xform=None)))
    contains(what + ': largest possible internal box', hi_int, inner)
    if exact_int:
        same(what + ': internal box', inner, hi_int)
    if d['kind'] == 'group':
        same(what + ': union of the members', inner, union(coords(x.bbox()) for x in e.elems.values()))
        if aligned(d['xform']):
            same(what + ': union of the members, mapped', got, box_of(mat_apply(d['xform'] or IDENT, p) for p in corners(inner)))
    if d['kind'] == 'holes':
        same(what + ': box of the outside', inner, coords(e.outside.bbox()))


def box(case, obs):
    d, m, how = case
    e = build(d, how)
    before = snapshot(e)
    if empty(d):
        # No box, but no coordinates made up either
        if not d['elems']:
            raises(Exception, e.bbox)
            raises(Exception, e.bbox_int)
        equal('group afterwards', snapshot(e), before)
        return
    check_box('element', e, d)
    equal('element afterwards', snapshot(e), before)
    if m:
        new = e.transform(Transform(m))
        got = coords(new.bbox())
        full = mat_mul(m, d['xform'] or IDENT)
        dm = re(d, xform=full)
        contains('transformed: box and outline', got, drawn(dm))
        if d['kind'] not in ('group', 'holes', 'curve') and aligned(full):
            same('transformed: exact box', got, limits(dm)[1])
        if d['kind'] != 'curve':
            contains('transformed: largest possible box', limits(dm)[1], got)
        pts = [p for path in e.paths(canvas(Transform(m))) for p in path_points(path)]
        if pts:
            size = max(got[2] - got[0], got[3] - got[1], 1e-9)
            contains('transformed: box and what is drawn', (got[0] - 3e-4 * size, got[1] - 3e-4 * size, got[2] + 3e-4 * size, got[3] + 3e-4 * size), box_of(pts))
    obs.state(d, m)


class World(object):
    """Box-shaped element that is resized through its internal box, with copies"""
    kind = xf = None

    def __init__(self):
        d = D(self.kind, 'b', 'both', self.xf, p1=(4, 1), p2=(-2, 5), radius=1.5)
        if self.kind != 'rrect':
            d.pop('radius')
        self.items = [[build(d), d]]
        self.boxes = []

    def apply(self, op):
        what, i, *a = op
        if i >= len(self.items):
            raise Disabled()
        e, d = self.items[i]
        if what == 'update':
            b = BBox(*a[0])
            e.bbox_int_update(b)
            self.boxes.append((b, a[0]))
            self.items[i][1] = re(d, p1=a[0][:2], p2=a[0][2:])
        elif what == 'own':
            # from the box of the other one
            other, od = self.items[1 - i] if len(self.items) > 1 else self.items[0]
            e.bbox_int_update(other.bbox_int())
            self.items[i][1] = re(d, p1=od['p1'], p2=od['p2'])
        elif what == 'copy':
            if len(self.items) > 1:
                raise Disabled()
            self.items.append([e.copy(), dict(d)])
        elif what == 'restore':
            if len(self.items) < 2:
                raise Disabled()
            o, od = self.items[1 - i]
            e.restore(o)
            self.items[i][1] = dict(od)
        elif what == 'grow':
            # somebody else goes on working with the boxes
            for b, _ in self.boxes:
                b.grow(Point(100, 100))
            self.boxes = []
            e.bbox().grow(Point(50, 50))
            e.bbox_int().grow(Point(-50, 50))

    def check(self):
        for n, (e, d) in enumerate(self.items):
            want = box_of([d['p1'], d['p2']])
            same('internal box of %d' % n, coords(e.bbox_int()), want)
            check_box('element %d' % n, e, d)
            check_paths('element %d' % n, e.paths(canvas()), d, IDENT)
        for b, xy in self.boxes:
            same('box used for the update', coords(b), xy)

    def canon(self):
        return tuple((d['p1'], d['p2']) for _, d in self.items), len(self.boxes)


def refused(case, obs):
    d, b = case
    e = build(d)
    before = snapshot(e)
    raises(ValueError, e.bbox_int_update, BBox(*b))
    equal('element afterwards', snapshot(e), before)


def run(ctx):
    ctx.assume('a group without members has no box; groups with such members are outside the claim')
    maps = [x for x in XFORMS.values()] + MORE_XFORMS
    cat = catalogue(ctx.deep)
    extra = []
    for x in ('none', 'turn', 'mirror', 'skew'):
        extra += [re(single('rect', x), p1=p, p2=q) for p, q in itertools.product([(0, 0), (-3, 2), (1e4, 0.1)], [(2, 3), (-5, 2), (0, -8), (0, 0)])]
        extra += [re(single('ellipse', x), p1=p, p2=q) for p, q in itertools.product([(0, 0), (-3, 2)], [(2, 3), (-5, 1)])]
        extra += [re(single('curve', x), cps=c, closed=cl) for c in
                  itertools.permutations([((0, 0), (9, 0), (0, 9)), ((3, 1), (0, -7), (-7, 0)), ((-4, 2), (0, 0), (1, -8))], 3) for cl in (True, False)
                  for _ in [0] if cl is True]
    for a, b, c in itertools.permutations([single('rect', 'far'), single('curve', 'turn'), single('circle', 'stretch')], 3):
        extra += [group('g', [a, group('s', [b, c], 'move')], x) for x in ('none', 'quarter', 'turn')]
    # Members without area, beyond all others, or alone
    flat = [re(single('rect', x), name=n, p1=p, p2=q) for x in ('none', 'quarter', 'skew') for n, p, q in
            (('v', (30, -1), (30, 3)), ('h', (-4, 25), (2, 25)), ('p', (-40, -41), (-40, -41)))] + \
           [re(single('open', 'none'), name='l', cps=[((0, 33), (0, 0), (1, 0)), ((20, 33), (-1, 0), (0, 0))])]
    for f in flat:
        for x in ('none', 'mirror', 'turn'):
            for a in (single('rect', 'turn'), single('curve'), flat[1]):
                extra += [group('g', es, x) for es in ([f], [f, a], [a, f], [group('s', [a], 'move'), group('t', [f], 'quarter')])]
    ctx.sweep('boxes', [(d, m, how) for d in cat + extra for m in maps for how in ('plain',)], box, 'every model of the catalogue under every mapping')
    edited(ctx, lambda what, e, d: empty(d) or check_box(what, e, d))
    bad = [(d, b) for d in [single('curve'), holes('rect', ['ellipse']), group('g', [single('rect')])] for b in ((0, 0, 1, 1), (-1, -2, 3, 4))]
    ctx.sweep('refused', bad, refused, 'elements that cannot be resized')
    ops = [('update', i, b) for i in (0, 1) for b in ((0, 0, 2, 2), (-5, 1, 7, 1.5), (3, -4, 3.5, 60), (-1, 3, 6, 3))] + \
          [('own', 0), ('own', 1), ('copy', 0), ('restore', 0), ('restore', 1), ('grow', 0)]
    for kind in ('rect', 'rrect', 'ellipse'):
        for xf in ('none', 'turn', 'stretch'):
            ctx.histories('%s %s' % (kind, xf), type('W', (World,), dict(kind=kind, xf=XFORMS[xf])), ops, ctx.pick(3, 4),
                          'all sequences of resizing, copying and restoring')
