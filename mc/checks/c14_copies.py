"""C14: copies are independent, restoring undoes every later edit"""
import itertools
from mc.engine import same, equal, require, raises, Disabled, Violation
from mc.oracle import *
from mc.models import *
from mc.edits import *

def linked(d):
    """The first control point of the first member is a named point of the group"""
    return d['kind'] == 'group' and d.get('linked')


class World(object):
    d = None

    def __init__(self):
        self.items = [[build(self.d), self.d, True]]     # element, description, whether its structure is known

    def apply(self, op):
        what, i, *a = op
        if i >= len(self.items) or self.items[i] is None:
            raise Disabled()
        e, d, exact = self.items[i]
        if what in ('copy', 'ident'):
            if len(self.items) > 2:
                raise Disabled()
            new = e.copy() if what == 'copy' else e.transform(Transform())
            require(new is not e and type(new) is type(e), '%s gave %r', what, new)
            exact = exact and (what == 'copy' or d['kind'] in ('group', 'holes'))
            if exact:
                require(new == e and e == new and not new != e, '%s is not equal to the original', what)
            self.items.append([new, d, exact])
        elif what == 'edit':
            if not exact:
                raise Disabled()
            self.items[i][1] = apply_edit(e, d, *a)
        elif what in ('restore', 'wreck'):
            j = a[0]
            if j >= len(self.items) or self.items[j] is None:
                raise Disabled()
            o, od, oexact = self.items[j]
            if what == 'wreck':
                wreck(e)
            if d['kind'] == 'curve' and len(e.control_points) != len(o.control_points):
                if what == 'wreck':
                    raise Disabled()
                raises(Exception, e.restore, o)
                return
            e.restore(o)
            self.items[i] = [e, od, oexact]
            if oexact:
                require(e == o and o == e, 'restored element is not equal to the one it was restored from')
        elif what == 'drop':
            wreck(e)
            self.items[i] = None

    def check(self):
        for n, item in enumerate(self.items):
            if item is None:
                continue
            e, d, exact = item
            if exact:
                want = snapshot(build(d))
                got = snapshot(e)
                if got != want and not close(got, want):
                    raise Violation('element %d: %s' % (n, first_difference(got, want)))
            else:
                check_paths('element %d' % n, e.paths(canvas()), d, IDENT)
        known = [(e, d) for item in self.items if item and item[2] for e, d, _ in [item]]
        for (e, d), (f, g) in itertools.combinations(known, 2):
            if d == g:
                require(e == f and f == e, 'equal elements are reported to be different')
            elif snapshot(build(d)) != snapshot(build(g)) and not reordered(d, g):
                require(e != f and f != e, 'different elements are reported to be equal')

    def canon(self):
        return tuple(item and (repr(item[1]), item[2]) for item in self.items)


def reordered(d, g):
    """Groups of the same members in another order count as equal"""
    def norm(x):
        if isinstance(x, dict):
            return tuple(sorted((k, sorted(map(repr, map(norm, v))) if k == 'elems' else repr(norm(v))) for k, v in x.items()))
        return x
    return norm(d) == norm(g)


def close(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1, abs(a))
    return a == b


def first_difference(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if not close(x, y):
                return first_difference(x, y)
    return 'is %.200r, expected %.200r' % (a, b)


def named(case, obs):
    """Names of points, and anchors shared with named points"""
    order, = case
    pt = Point(3, 4)
    g = Group('g', PENS['thin']())
    g.add_pt('pt', pt)
    g.add('c', ElemCurve('c', PENS['line'](), [ControlPoint(pt, Vector(0, 1), Vector(1, 0)), make_cp(((9, 9), (0, 1), (0, -1)))], False))
    before = snapshot(g)
    copies = []
    for what in order:
        new = g.copy() if what == 'copy' else g.transform(Transform())
        if what == 'restore':
            new = Group('other', PENS['both'](), closed=True)
            new.restore(g)
        copies.append(new)
        equal(what, snapshot(new), before)
        require(new == g, '%s is not equal', what)
        obs.step()
    pt.setxy(50, 60)
    pt.name = 'changed'
    for n, new in enumerate(copies):
        equal('copy %d after the original moved' % n, snapshot(new), before)
    g.restore(copies[0])
    equal('restored', snapshot(g), before)
    copies[0].points['pt'].setxy(1, 1)
    copies[0].elems['c'].control_points[0].c.setxy(2, 2)
    equal('restored, after the copy changed', snapshot(g), before)
    for new in copies[1:]:
        equal('other copies', snapshot(new), before)
    # the original does not get the point of the copy back
    g.points['pt'].setxy(8, 8)
    same('point of the copy', copies[0].points['pt'], (1, 1))
    obs.state(order)


FAMILY = ('a', 'b', 'c', 'd')


def family_group():
    """Named points that follow each other"""
    g = Group('g', PENS['thin'](), xform=Transform(MOVE))
    a = g.add_pt('a', Point(1, 1))
    b = g.add_pt('b', PointRelative(2, -1, a))
    g.add_pt('c', PointCalc(b, -0.5))
    g.add_pt('d', PointRelative(0, 4, b))
    return g


def family_at(state):
    (ax, ay), (dx, dy) = state
    return dict(a=(ax, ay), b=(ax + dx, ay + dy), c=(ax - dx / 2, ay - dy / 2), d=(ax + dx, ay + dy + 4))


class FamilyWorld(object):
    """Groups whose named points are placed relative to each other"""

    def __init__(self):
        self.items = [(family_group(), ((1, 1), (2, -1)))]

    def apply(self, op):
        what, i, *a = op
        if i >= len(self.items):
            raise Disabled()
        g, state = self.items[i]
        if what in ('copy', 'ident', 'into'):
            if len(self.items) > 2:
                raise Disabled()
            new = g.copy() if what == 'copy' else g.transform(Transform())
            if what == 'into':
                new = family_group()
                new.restore(g)
            require(new == g, '%s is not equal', what)
            self.items.append((new, state))
        elif what == 'restore':
            if a[0] >= len(self.items):
                raise Disabled()
            g.restore(self.items[a[0]][0])
            self.items[i] = (g, self.items[a[0]][1])
        elif what == 'move':
            g.lookup_pt('a').setxy(*a[0])
            self.items[i] = (g, (a[0], state[1]))
        elif what == 'offset':
            b = g.lookup_pt('b')
            b.dx, b.dy = a[0]
            self.items[i] = (g, (state[0], a[0]))

    def check(self):
        for n, (g, state) in enumerate(self.items):
            for name, xy in family_at(state).items():
                same('point %s of group %d' % (name, n), g.lookup_pt(name), xy)
        for (g, s), (h, t) in itertools.combinations(self.items, 2):
            require((g == h) == (s == t), 'comparing groups with points at %r and %r', s, t)

    def canon(self):
        return tuple(s for g, s in self.items)


def refused(case, obs):
    """A curve cannot be restored from one with another number of control points"""
    n, m = case
    specs = [((x, x * x), (0, 1), (0, -1)) for x in range(4)]
    a = ElemCurve('a', PENS['line'](), [make_cp(s) for s in specs[:n]], False, Transform(MOVE))
    b = ElemCurve('b', PENS['both'](), [make_cp(s) for s in specs[:m]], True)
    sa, sb = snapshot(a), snapshot(b)
    for outer in (False, True):
        if n == m:
            a.restore(b)
            equal('restored', snapshot(a), sb)
        else:
            raises(Exception, a.restore, b)
            equal('curve after refusal', snapshot(a), sa)
        equal('the other curve', snapshot(b), sb)
    obs.state(n, m)


def run(ctx):
    ctx.assume('points of copied curves, rectangles and ellipses are plain points (a copied curve does not follow other points any more)',
               'the parts of an element with holes share its style', 'elements are restored from elements of the same kind')
    ctx.sweep('named points', [(o,) for n in (1, 2) for o in itertools.product(('copy', 'ident', 'restore'), repeat=n)], named,
              'groups with named points that are anchors of a member')
    fam = [(w, i) for w in ('copy', 'ident', 'into') for i in (0, 1)] + [('restore', 0, 1), ('restore', 1, 0), ('restore', 2, 0)]
    fam += [('move', i, xy) for i in (0, 1, 2) for xy in ((5, 6), (-3, 0.5))] + [('offset', i, xy) for i in (0, 1, 2) for xy in ((7, 7),)]
    ctx.histories('points that follow points', FamilyWorld, fam, ctx.pick(4, 5), 'groups whose named points are relative to each other, and their copies')
    ctx.sweep('refused', [(n, m) for n in range(1, 5) for m in range(1, 5)], refused, 'restoring between curves of different lengths')
    for name, (d, paths) in MODELS.items():
        # Everything happens to the original and its first copy
        eds = [('edit', i, p, f) for p, f in edits_of(d, paths) for i in (0, 1)]
        life = [('copy', 0), ('ident', 0), ('restore', 0, 1), ('restore', 1, 0), ('wreck', 0, 1), ('wreck', 1, 0), ('drop', 0), ('drop', 1)]
        more = [('copy', 1), ('restore', 0, 2), ('wreck', 0, 2), ('restore', 2, 1)]
        cls = type('W', (World,), dict(d=d))
        ctx.histories(name, cls, life + more + eds, 3, 'all sequences of copies, edits and restores')
        # Longer sequences over few edits
        few = [x for x in eds if x[1] == 0][:: max(1, len(eds) // 6)][:3] + [x for x in eds if x[1] == 1][1:: max(1, len(eds) // 4)][:2]
        if name in ('curve', 'rrect', 'holes', 'group', 'nested') or ctx.deep:
            ctx.histories(name + ' longer', cls, life + more + few, ctx.pick(4, 5), 'longer sequences with fewer edits')
